#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(root, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        level, technique, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i,
                       "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": technique, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NOT.get(i, "not claimed yet: its exploration is not built")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
