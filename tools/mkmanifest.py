#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, "checks", "check_%s.py" % p)):
        t, note = NOTES[p]
        checks.append({"property": p, "quick_cmd": "python3 run.py %s quick" % p,
                       "thorough_cmd": "python3 run.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": t, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": p, "reason": NOTES.get("-" + p, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, TLC as the checker; harness programs in harness/ are built from /repo's working tree by every check."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
