#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and config.py."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
from config import PROPS, NOTES
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PROPS:
        na.append({"property": i, "reason": "check under construction"})
        continue
    s = PROPS[i]
    t, note = NOTES[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                   "evidence_file": "evidence/%s.json" % i, "technique": t,
                   "level": s.get("level", "exploration"), "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3 check.py --list", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: the drivers compile the library's sources with their own flags. "
                    "Every check compiles /repo's current sources from scratch into /verif/.cache (ignored by git)."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
