#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(home + '/properties.jsonl')]
T = json.load(open(home + '/tools/techniques.json'))
checks, na = [], []
for p in props:
    t = T.get(p['id'])
    if t and 'na' not in t:
        checks.append({
            "property": p['id'],
            "quick_cmd": "./check.sh " + p['id'],
            "thorough_cmd": "./check.sh " + p['id'],
            "technique": t['technique'],
            "level": "other",
            "level_note": t['note'],
        })
    else:
        na.append({"property": p['id'], "reason": t['na'] if t else "the check is not built yet"})
m = {"version": 1, "setup_cmd": "./check.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check loads and type-checks /repo's current source, builds its SSA form and decides the property on it; nothing of /repo is run. Repaired defects are listed in known-findings.txt."}
json.dump(m, open(home + '/MANIFEST.json', 'w'), indent=1)
open(home + '/MANIFEST.json', 'a').write('\n')
