#!/usr/bin/env python3
"""mkoverlay.py VERIF WORK ID: write WORK/overlay.json, which lays the harness packages of VERIF/go over /repo as
zz_verif/<dir>/*.go, and any VERIF/go/<id>/inpkg/<package path with _>/*.go into the packages they name."""
import sys, os, json
verif, work, cid = sys.argv[1:4]
rep = {}
god = os.path.join(verif, "go")
shared = [d for d in os.listdir(god) if os.path.isdir(os.path.join(god, d)) and not d.startswith("c")]
for d in shared + [cid]:
    p = os.path.join(god, d)
    for f in sorted(os.listdir(p)):
        if f.endswith(".go"):
            rep["/repo/zz_verif/%s/%s" % (d, f)] = os.path.join(p, f)
inp = os.path.join(god, cid, "inpkg")
if os.path.isdir(inp):
    for pkg in os.listdir(inp):
        for f in sorted(os.listdir(os.path.join(inp, pkg))):
            if f.endswith(".go"):
                rep["/repo/%s/%s" % (pkg.replace("__", "/"), f)] = os.path.join(inp, pkg, f)
gen = os.path.join(god, cid, "prepare.py")
if os.path.exists(gen):
    import runpy
    m = runpy.run_path(gen)
    m["prepare"](verif, work, rep)
json.dump({"Replace": rep}, open(os.path.join(work, "overlay.json"), "w"), indent=1)
