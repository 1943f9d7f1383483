#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT WHAT: append a 'fixed' record to known_findings.json."""
import json, sys, os, subprocess
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(f)) if os.path.exists(f) else []
p, c, w = sys.argv[1:4]
c = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", c], text=True).strip()
k.append({"property": p, "key": "", "status": "fixed", "commit": c, "what": w, "record": "fixed: property=%s %s %s" % (p, c, w)})
json.dump(k, open(f, "w"), indent=1)
