#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property whose workload exists."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
import levels
checks, na = [], []
for p in props:
    i = p["id"]
    if i in levels.LEVELS:
        tech, note = levels.LEVELS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py --property %s --tier quick" % i,
                       "thorough_cmd": "python3 run.py --property %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "its monitor is not written yet"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the monitors observe the public interfaces, sanitizers and the allocator; /repo carries only fix: commits."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
