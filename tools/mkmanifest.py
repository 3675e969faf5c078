#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
na = []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 tools/run.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 tools/run.py %s" % i,
                       "technique": c["technique"], "level": "model_checking", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py seq lib && python3 tools/build.py seqf lib && python3 tools/build.py mt lib && python3 tools/build.py mb lib", "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds what it needs of the library from /repo's working tree (mirrored by content into "
              "/verif/build) and enumerates a bounded decision tree on the real code; see DESIGN.md. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
