#!/usr/bin/env python3
"""Writes MANIFEST.json from sa.rules.RULES (claimed) and NOT_APPLICABLE below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa import rules  # noqa: E402

NUM = ("the statement is about floating-point values (rounding, conditioning, data-dependent spectra); no static argument "
       "over the source decides it, and a numerical test would not be static analysis")
PENDING = "no sound static rule built for it (see DESIGN.md)"
REASONS = {}
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in rules.RULES:
        checks.append({"property": i,
                       "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": rules.TECHNIQUE.get(i, "static analysis"),
                       "level": "other",
                       "level_note": rules.NOTE.get(i, "decided from the source by " + rules.TECHNIQUE.get(i, "static analysis"))})
    else:
        na.append({"property": i, "reason": REASONS.get(i, NUM if i.startswith("N") else PENDING)})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
