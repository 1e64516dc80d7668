#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties file and the table of checks below."""
import json, sys
sys.path.insert(0, "/verif/lib")
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
from registry import MODULES, TECH, NOTAPP
checks, na = [], []
for p in props:
    i = p["id"]
    if i in MODULES:
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": TECH[i][0], "level": "model_checking", "level_note": TECH[i][1]})
    else:
        na.append({"property": i, "reason": NOTAPP.get(i, "the check for it is still being built")})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; drivers in harness/ execute programs on the real library and record traces that TLC validates against the specifications. No hooks in /repo are needed."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
