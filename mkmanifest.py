#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the analyses registered in tfcheck."""
import json, re, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open('properties.jsonl') if l.strip()]
have = set()
for f in glob.glob('tfcheck/*.go'):
    have |= set(re.findall(r'register\("(P\d+)"', open(f).read()))
tech = json.load(open('technique.json'))
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "One analyser, tfcheck, loads the working tree of /repo (type-checked syntax, SSA, VTA call graph) and applies one analysis per property. See DESIGN.md."}
for p in props:
    i = p['id']
    if i in have:
        m['checks'].append({"property": i, "quick_cmd": f"./check.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": tech[i]["technique"], "level": "other", "level_note": tech[i]["note"]})
    else:
        m['not_applicable'].append({"property": i, "reason": tech.get(i, {}).get("reason", "no analysis built yet")})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
