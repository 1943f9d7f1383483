"""Lays scaled-down copies of the two cake packages beside the real ones: the same source with the top tier's capacity
(written 65535, and 65534 for the last place, or in another of the usual ways) and the tiers' forest quotas replaced.
Where a literal is not found the copy simply keeps its real size."""
import os, re

#          name    capacity quotas
VARIANTS = [("c1q2", 1, [2, 2, 255, 255]), ("c2q2", 2, [2, 255, 255, 255]), ("c3q2", 3, [2, 2, 255, 255]),
            ("c2q5", 2, [5, 3, 255, 255]), ("c4q1", 4, [1, 3, 255, 255])]
MOD = "github.com/KitchenMishap/pudding-shed/"

def shrink(src, cap, quotas):
    src = re.sub(r"//[^\n]*", "", src)  # (no string of the two packages holds //)
    for text, n in (("65535", cap), ("65_535", cap), ("65534", cap - 1), ("65_534", cap - 1), ("65536", cap + 1), ("65_536", cap + 1)):
        src = re.sub(r"\b%s\b" % text, str(n), src)
    src = re.sub(r"(?<!& )(?<!&)\b0x[fF]{4}\b", str(cap), src)
    src = re.sub(r"(?<!& )(?<!&)\b0x[fF]{3}[eE]\b", str(cap - 1), src)
    src = re.sub(r"\b1 ?<< ?16\b(?! ?[-+] ?1\b)", "(%d)" % (cap + 1), src)
    src = re.sub(r"\(?\b1 ?<< ?16\)? ?- ?1\b", lambda m: ("(" if m.group(0).count("(") > m.group(0).count(")") else "") + str(cap), src)
    src = re.sub(r"\bmath\.MaxUint16\b", "(math.MaxUint16*0 + %d)" % cap, src)
    def q(m):
        return "%s%d" % (m.group(1), quotas[int(m.group(2))])
    return re.sub(r"(TierBelowConfigs\[(\d)\]\.MaxDonutForests\s*=\s*)\d+", q, src)

CONFIG = re.compile(r"^func NewCakeConfig\((\w+) byte, (\w+) byte\) \*CakeConfig \{", re.M)

# quotas set whatever way the package's own NewCakeConfig comes by them
def requota(src, quotas):
    if not CONFIG.search(src):
        return src
    sets = "".join("\tc.TierBelowConfigs[%d].MaxDonutForests = %d\n" % iq for iq in enumerate(quotas))
    return CONFIG.sub(r"func zzShippedCakeConfig(\1 byte, \2 byte) *CakeConfig {", src) + \
        "\nfunc NewCakeConfig(h byte, r byte) *CakeConfig {\n\tc := zzShippedCakeConfig(h, r)\n%s\treturn c\n}\n" % sets

def lay(work, rep, name, cap, quotas):
    for pkg in ("weddingcakeback", "weddingcakefront"):
        dst = os.path.join(work, "cakes", name, pkg)
        os.makedirs(dst, exist_ok=True)
        for f in sorted(os.listdir("/repo/" + pkg)):
            if not f.endswith(".go") or f.endswith("_test.go"):
                continue
            s = requota(shrink(open("/repo/%s/%s" % (pkg, f)).read(), cap, quotas), quotas)
            s = s.replace('"%sweddingcake' % MOD, '"%szz_verif/cakes/%s/weddingcake' % (MOD, name))
            p = os.path.join(dst, f)
            open(p, "w").write(s)
            rep["/repo/zz_verif/cakes/%s/%s/%s" % (name, pkg, f)] = p

def prepare(verif, work, rep):
    imports, table = [], []
    for name, cap, quotas in VARIANTS:
        lay(work, rep, name, cap, quotas)
        imports.append('\t%s "%szz_verif/cakes/%s/weddingcakefront"' % (name, MOD, name))
        table.append("\t\"%s\": func(d string, r byte) creator { return wrap[%s.HashReadWriter[*[32]byte], %s.HashReader[*[32]byte]]{%s.NewCakeCreator(d, r)} }," % ((name,) * 4))
    s = "package main\n\nimport (\n%s\n)\n\nfunc init() {\n\tfor k, v := range map[string]func(string, byte) creator{\n%s\n\t} {\n\t\tkinds[k] = v\n\t}\n}\n" % ("\n".join(imports), "\n".join(table))
    p = os.path.join(work, "variants.go")
    open(p, "w").write(s)
    rep["/repo/zz_verif/c18/zz_variants.go"] = p
