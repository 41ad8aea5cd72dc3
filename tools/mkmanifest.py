#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, dst/plan.py and the reasons below."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dst.plan import PLAN, NOTES, NOT_APPLICABLE   # noqa: E402

TECH = "deterministic simulation with fault injection"
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        fams = ", ".join(sorted({"%s/%s" % (x[0], x[1]) for x in PLAN[i]}))
        checks.append({"property": i, "quick_cmd": "./check.py %s --tier quick" % i,
                       "thorough_cmd": "./check.py %s --tier thorough" % i, "technique": TECH, "level": "exploration",
                       "level_note": NOTES.get(i, NOTES["*"]) + " Scenario families: %s." % fams})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "its check is not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
