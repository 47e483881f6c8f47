#!/usr/bin/env python3
"""writes MANIFEST.json from props.json and properties.jsonl (a development command)"""
import json
p = json.load(open('props.json'))
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    c = p['properties'].get(i)
    if c:
        m['checks'].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                            "evidence_file": f"evidence/{i}.json", "technique": c['technique'], "level": c['level'], "level_note": c['level_note'],
                            **({"theorems": c['theorems']} if c['level'] == 'proof' else {})})
    else:
        m['not_applicable'].append({"property": i, "reason": p['not_applicable'].get(i, "contracts for this part are not finished yet")})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
