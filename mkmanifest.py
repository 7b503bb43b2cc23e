#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
from methods import METHODS, NOT_APPLICABLE
out = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
       "notes": "No hooks in /repo: monitors attach from outside (sanitizer builds, link-time wrapping of system calls, replaced operator new/delete, tracked element classes, public interfaces)."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = METHODS[i]
        out["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                              "evidence_file": "evidence/%s.json" % i, "technique": t, "level": CHECKS[i]["level"], "level_note": n})
    else:
        out["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE[i]})
json.dump(out, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
