#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks and the property list."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.table import TABLE, NOTES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TABLE:
        t, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": TABLE[i].get("level", "exploration"), "level_note": note})
    else:
        na.append({"property": i, "reason": "no check yet: its harness is still being built (see DESIGN.md for the plan)"})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
