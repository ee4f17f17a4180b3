#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed properties are those registered in the checker."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = {}
for f in glob.glob(root + '/checker/p*.go'):
    for m in re.finditer(r'props\["(P\d+)"\]', open(f).read()):
        claimed[m.group(1)] = f
notes = json.load(open(root + '/tools/notes.json'))
checks, na = [], []
for l in open(root + '/properties.jsonl'):
    d = json.loads(l)
    i = d['id']
    n = notes.get(i, {})
    if i in claimed:
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i,
                       "technique": n["technique"], "level": "other", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": n.get("na", "not built yet")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: the checker loads, type-checks and builds SSA of /repo's current source on every run."}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not applicable')
