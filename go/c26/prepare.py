import os, runpy

def prepare(verif, work, rep):
    # the kinds of stores and the model of what they hold are C23's
    for f in ("model.go", "stores.go", "chains.go"):
        rep["/repo/zz_verif/c26/" + f] = os.path.join(verif, "go", "c23", f)
    # the scaled-down cakes are C25's
    rep["/repo/zz_verif/c26/cakes.go"] = os.path.join(verif, "go", "c25", "cakes.go")
    runpy.run_path(os.path.join(verif, "go", "c25", "prepare.py"))["bakes"](verif, work, rep, "c26")
