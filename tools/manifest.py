"""Writes MANIFEST.json from properties.jsonl and the table of claimed checks below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
CLAIMED = json.load(open(os.path.join(root, 'tools/claimed.json')))
NA = json.load(open(os.path.join(root, 'tools/not_applicable.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        t = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                       "technique": t[0], "level": "exploration", "level_note": t[1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks}
if na:
    m["not_applicable"] = na
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
