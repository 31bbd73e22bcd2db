#!/bin/bash
# check.sh <property> [tier]: builds the service and the harness from /repo's working tree and runs one property's monitors.
here=$(cd "$(dirname "$0")" && pwd)
pid=$1
[ -n "$2" ] && export VERIF_TIER=$2
export VERIF_ROOT=$here
REPO=${VERIF_REPO:-/repo}
. /opt/vp/env.sh || exit 2
cd "$REPO" || exit 2
W=$(mktemp -d /tmp/vxcheck.XXXXXX) || exit 2
cleanup() { case "$W" in /tmp/vxcheck.*) rm -rf -- "$W";; esac; }
trap cleanup EXIT
trap 'exit 2' INT TERM
export TMPDIR=$W
export VX_WORK=$W
python3 "$here/tools/overlay.py" "$here/harness" "$REPO" > "$W/overlay.json" || exit 2
cp go.mod go.sum "$W/" || exit 2
race=
case $pid in P36) race=-race;; esac
fail() { echo "check $pid: build failed" >&2; cat "$W/build.log" >&2; exit 2; }
go build -buildvcs=false $race -o "$W/blnk" ./cmd 2> "$W/build.log" || fail
go build -buildvcs=false -modfile="$W/go.mod" -overlay "$W/overlay.json" -o "$W/vx" ./internal/verifx/cmd/vx 2> "$W/build.log" || fail
export BLNK_BIN=$W/blnk
"$W/vx" "$pid"
exit $?
