#!/bin/bash
# Builds everything once, to see that it builds (each check builds again what it needs from /repo's working tree).
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh || exit 1
cd "${VERIF_REPO:-/repo}" || exit 1
W=$(mktemp -d /tmp/vxsetup.XXXXXX) || exit 1
trap 'case "$W" in /tmp/vxsetup.*) rm -rf -- "$W";; esac' EXIT
set -e
python3 "$here/tools/overlay.py" "$here/harness" "$PWD" > "$W/overlay.json"
cp go.mod go.sum "$W/"
go build -buildvcs=false -o "$W/blnk" ./cmd
go build -buildvcs=false -modfile="$W/go.mod" -overlay "$W/overlay.json" -o "$W/vx" ./internal/verifx/cmd/vx
echo setup done
