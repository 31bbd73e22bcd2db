#!/bin/bash
# try.sh <id> [nosuite]: in a scratch copy: demo passes without the patch, fails with it, stable tests pass with it
here=$(cd "$(dirname "$0")" && pwd); root=$(cd "$here/../.." && pwd)
id=$1
D=/tmp/seedtry.$id; rm -rf -- "$D"; mkdir -p "$D"
cp -a /repo "$D/repo"; cp -a "$root/seeded/$id" "$D/s"; rm -f -- "$D/s/patch.diff" "$D/s/meta.json"
cd "$D/repo" || exit 1
bash "$D/s/demo.sh" > "$D/clean.log" 2>&1; echo "$id clean: $?"
git apply "$root/seeded/$id/patch.diff" || { echo "does not apply"; exit 1; }
bash "$D/s/demo.sh" > "$D/bug.log" 2>&1; echo "$id bug: $? $(tail -3 "$D/bug.log" | cut -c1-300)"
cp "$D"/*.log /tmp/seed/; rm -rf -- "$D"
