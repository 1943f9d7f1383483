import os, runpy

#          name    capacity quotas
VARIANTS = [("c1q2", 1, [2, 2, 255, 255]), ("c2q2", 2, [2, 255, 255, 255])]
MOD = "github.com/KitchenMishap/pudding-shed/"

def prepare(verif, work, rep):
    runpy.run_path(os.path.join(verif, "tools", "faultprep.py"))["prepare"](verif, work, rep)
    # the kinds of stores and the model of what they hold are C23's
    for f in ("model.go", "stores.go", "chains.go"):
        rep["/repo/zz_verif/c25/" + f] = os.path.join(verif, "go", "c23", f)
    bakes(verif, work, rep, "c25")

# scaled-down cakes, so that a few hashes are baked
def bakes(verif, work, rep, check):
    lay = runpy.run_path(os.path.join(verif, "go", "c18", "prepare.py"))["lay"]
    imports, table = [], []
    for name, cap, quotas in VARIANTS:
        lay(work, rep, name, cap, quotas)
        imports.append('\t%s "%szz_verif/cakes/%s/weddingcakefront"' % (name, MOD, name))
        table.append("""	bakes = append(bakes, bake{"cake with %d hashes to a tier above tiers of %d and %d",
		func(dir string) error { return %s.NewCakeCreator(dir, 2).CreateHashStore() },
		func(dir string) (bakedStore, error) {
			s, err := %s.NewCakeCreator(dir, 2).OpenHashStore()
			return s, err
		},
		func(dir string) (bakedReader, error) {
			s, err := %s.NewCakeCreator(dir, 2).OpenHashStoreReadOnly()
			return s, err
		}})
""" % (cap, quotas[0], quotas[1], name, name, name))
    p = os.path.join(work, "variants.go")
    open(p, "w").write("package main\n\nimport (\n%s\n)\n\nfunc init() {\n%s}\n" % ("\n".join(imports), "".join(table)))
    rep["/repo/zz_verif/%s/zz_variants.go" % check] = p
