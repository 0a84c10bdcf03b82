#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and vp/props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from vp import props
ps = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in ps:
    i = p["id"]
    if i in props.CHECKS:
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check " + i,
                       "technique": props.TECHNIQUE.get(i, props.DEFAULT_TECHNIQUE),
                       "level": "model_checking",
                       "level_note": props.NOTE.get(i, props.DEFAULT_NOTE)})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public API. Checks build harness/ against /repo's working tree."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
