#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json, os
from config import CHECKS, NOT_APPLICABLE, NOTES
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
ids = [p["id"] for p in props]
for c in CHECKS:
    assert c in ids, c
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, "
                                    "history checked against a reference model",
                       "level": c["level"],
                       "level_note": "Sampled schedules, sizes and faults (not exhaustive); real noarr code under a simulated "
                                     "runtime with race, heap, deadlock and termination monitors. " + c.get("note", "")})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
json.dump({"version": 1, "setup_cmd": "python3 check.py --self-test",
           "checks": checks, "not_applicable": na, "notes": NOTES},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
