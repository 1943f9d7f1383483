"""Lays an accessor to the unexported conversions into package indexedhashes, for those that exist with the known signature."""
import os, re
def prepare(verif, work, rep):
    d = "/repo/indexedhashes"
    src = "".join(open(os.path.join(d, f)).read() for f in sorted(os.listdir(d)) if f.endswith(".go") and not f.endswith("_test.go"))
    lines = ["package indexedhashes", "",
             "// VerifHexToBin and VerifBinToHex are nil if the package has no such function.",
             "var VerifHexToBin func(string) ([32]byte, error)",
             "var VerifBinToHex func(*[32]byte) string", "", "func init() {"]
    if re.search(r"^func hashHexToBin\(\w+ string\) \(\[32\]byte, error\)", src, re.M):
        lines.append("\tVerifHexToBin = hashHexToBin")
    if re.search(r"^func hashBinToHexString\(\w+ \*\[32\]byte\) string", src, re.M):
        lines.append("\tVerifBinToHex = hashBinToHexString")
    lines.append("}")
    p = os.path.join(work, "zz_verif_access.go")
    open(p, "w").write("\n".join(lines) + "\n")
    rep[d + "/zz_verif_access.go"] = p
