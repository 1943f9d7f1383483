#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and each go/<id>/check.json {"technique","level_note"}."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(here, "go", p.lower(), "check.json")
    if os.path.exists(f):
        i = json.load(open(f))
        checks.append({"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": i["technique"], "level": "model_checking",
                       "level_note": i["level_note"]})
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Bounded exhaustive exploration of the real code (operation histories, input shapes, crash and fault points, "
              "thread schedules) against reference models; see DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not built")
