#!/bin/bash
# pack.sh <id>...: puts demo.sh and the current harness beside each seeded bug's main.go
here=$(cd "$(dirname "$0")" && pwd); root=$(cd "$here/../.." && pwd)
for id in "$@"; do
 d=$root/seeded/$id
 t=$(mktemp -d /tmp/seedpack.XXXXXX); mkdir "$t/h"; cp -r "$root/harness/rig" "$root/harness/pgfake" "$t/h/"
 tar -C "$t" --sort=name --mtime=2020-01-01 --owner=0 --group=0 -cf - h | gzip -9n > "$d/rig.tgz"
 rm -rf -- "$t"
 cp "$here/demo.sh" "$d/demo.sh"
done
