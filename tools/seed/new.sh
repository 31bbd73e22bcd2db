#!/bin/bash
# new.sh <id> <property> "<needs>" "<breaks>": takes the edits made in /tmp/seed/repo as the patch of seeded/<id> and resets them
root=$(cd "$(dirname "$0")/../.." && pwd); d=$root/seeded/$1; mkdir -p "$d"
git -C /tmp/seed/repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "empty patch"; exit 1; }
git -C /tmp/seed/repo checkout -q -- .
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
