"""instrument(work, rep, packages, files): rewrite packages of the current tree for the controlled scheduler and add
the rewritten files to the build overlay."""
import json, os, subprocess, sys
M = "github.com/KitchenMishap/pudding-shed/"
def instrument(verif, work, rep, packages, files=False):
    out = os.path.join(work, "instr"); os.makedirs(out, exist_ok=True)
    cmd = ["go", "run", os.path.join(verif, "tools/instr/main.go"), "-out", out] + (["-files"] if files else []) + [M + p for p in packages]
    r = subprocess.run(cmd, cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-3000:])
        raise SystemExit(1)
    rep.update(json.loads(r.stdout))
