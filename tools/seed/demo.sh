#!/bin/bash
# Runs main.go (beside this file) against the service built from the current directory, on a look-alike database and
# redis on loopback, everything in a scratch directory. Exit 0: the property held; 1: it did not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$repo" || exit 3
W=$(mktemp -d /tmp/seeddemo.XXXXXX) || exit 3
trap 'case "$W" in /tmp/seeddemo.*) rm -rf -- "$W";; esac' EXIT
export TMPDIR=$W VX_WORK=$W VERIF_ROOT=$W
tar -xzf "$here/rig.tgz" -C "$W" || exit 3
mkdir -p "$W/h/cmd/demo" && cp "$here/main.go" "$W/h/cmd/demo/main.go" || exit 3
cp go.mod go.sum "$W/"
python3 - "$W/h" "$repo" > "$W/overlay.json" <<'P' || exit 3
import json, os, sys
h, repo = sys.argv[1], sys.argv[2]
r = {}
for d, _, fs in os.walk(h):
    for f in fs:
        if f.endswith('.go'):
            p = os.path.join(d, f)
            r[os.path.join(repo, 'internal/verifx', os.path.relpath(p, h))] = p
json.dump({"Replace": r}, sys.stdout)
P
go build -buildvcs=false -o "$W/blnk" ./cmd || exit 3
go build -buildvcs=false -modfile="$W/go.mod" -overlay "$W/overlay.json" -o "$W/demo" ./internal/verifx/cmd/demo || exit 3
export BLNK_BIN=$W/blnk
timeout 200 "$W/demo"
rc=$?
[ $rc = 0 ] && exit 0
echo "demo: exit $rc"
exit 1
