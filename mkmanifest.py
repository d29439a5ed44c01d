#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open('techniques.json'))
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    t = T.get(i)
    if not t:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                   "technique": t['technique'], "level": t.get('level', 'exploration'), "level_note": t['note']})
m = {"version": 1, "setup_cmd": "./run.sh list", "checks": checks, "not_applicable": na}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
