"""Prints a go build overlay that places the harness sources inside the repository's module."""
import json, os, sys
h, repo = sys.argv[1], sys.argv[2]
r = {}
for d, _, fs in os.walk(h):
    for f in fs:
        if f.endswith('.go'):
            p = os.path.join(d, f)
            r[os.path.join(repo, 'internal/verifx', os.path.relpath(p, h))] = p
json.dump({"Replace": r}, sys.stdout)
