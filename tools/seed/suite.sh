#!/bin/bash
# suite.sh <id>...: applies all the patches to /repo together, runs the stable tests, and reverts
root=$(cd "$(dirname "$0")/../.." && pwd)
for id in "$@"; do git -C /repo apply "$root/seeded/$id/patch.diff" || { echo "$id does not apply"; git -C /repo checkout -- .; exit 1; }; done
bash /opt/vp/test.sh /tmp/seedsuite.json > /tmp/seedsuite.log 2>&1
git -C /repo checkout -- .
python3 - "$@" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedsuite.json'))
print(sys.argv[1:],"stable tests missing:",sorted(set(b['stable'])-set(r['passed']))[:8])
P
