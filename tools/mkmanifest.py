#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from levels import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "./check --setup",
    "checks": [],
    "not_applicable": [],
    "notes": "One driver, ./check: it generates behaviours from the TLA+ specifications in spec/ with TLC, replays them "
             "against the library in /repo with the harness in harness/, and validates traces recorded from the library "
             "against the specifications with TLC. No hooks in /repo are needed.",
}
for i in ids:
    if i in CHECKS:
        t, note = CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check " + i,
            "technique": t, "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check yet"})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
