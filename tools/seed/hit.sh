#!/bin/bash
# hit.sh <id> [property]: does the property's check catch the planted bug? (applied to /repo, reverted afterwards)
root=$(cd "$(dirname "$0")/../.." && pwd); id=$1
p=${2:-$(python3 -c "import json;print(json.load(open('$root/seeded/$id/meta.json'))['property'])")}
git -C /repo apply "$root/seeded/$id/patch.diff" || exit 1
VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash "$root/check.sh" $p > /tmp/seed/hit.log 2>&1; rc=$?
git -C /repo checkout -- .
echo "$id $p rc=$rc $(grep -m2 VIOL /tmp/seed/hit.log | cut -c1-260)"
