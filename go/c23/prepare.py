import os, runpy
def prepare(verif, work, rep):
    runpy.run_path(os.path.join(verif, "tools", "crashprep.py"))["prepare"](verif, work, rep)
