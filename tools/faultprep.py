"""Lays fault injection into the standard library's syscall package (by overlay): every call that opens, reads or
changes a file or a directory first asks VerifFault, if one is set, whether to fail."""
import os, re, subprocess, sys

def prepare(verif, work, rep):
    root = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
    arch = subprocess.check_output(["go", "env", "GOARCH"], text=True).strip()
    z = "zsyscall_linux_%s.go" % arch
    hooked = {  # function: (file, hook arguments, what to return before the error)
        "Write": ("syscall_unix.go", '"write", fd, "", &p, -1', "-1, "),
        "Pwrite": ("syscall_unix.go", '"pwrite", fd, "", &p, offset', "-1, "),
        "Read": ("syscall_unix.go", '"read", fd, "", nil, 0', "-1, "),
        "Pread": ("syscall_unix.go", '"pread", fd, "", nil, 0', "-1, "),
        "Open": ("syscall_linux.go", 'verifOpen(mode), -1, path, nil, 0', "-1, "),
        "Rename": ("syscall_linux.go", '"rename", -1, newpath, nil, 0', ""),
        "Mkdir": ("syscall_linux.go", '"mkdir", -1, path, nil, 0', ""),
        "Unlink": ("syscall_linux.go", '"unlink", -1, path, nil, 0', ""),
        "Fsync": (z, '"fsync", fd, "", nil, 0', ""),
        "Ftruncate": (z, '"ftruncate", fd, "", nil, 0', ""),
        "Truncate": (z, '"truncate", -1, path, nil, 0', ""),
    }
    out = os.path.join(work, "syscall")
    os.makedirs(out, exist_ok=True)
    for f in sorted({h[0] for h in hooked.values()}):
        s = open(os.path.join(root, "src/syscall", f)).read()
        for fn, (ff, args, ret) in hooked.items():
            if ff != f:
                continue
            add = "\n\tif VerifFault != nil {\n\t\tif e := VerifFault(%s); e != nil {\n\t\t\treturn %se\n\t\t}\n\t}" % (args, ret)
            s, n = re.subn(r"(?m)^(func %s\(.*\{)$" % fn, lambda m: m.group(1) + add, s)
            if n != 1:
                sys.exit("faultprep: %s not found in %s" % (fn, f))
        if f == "syscall_unix.go":
            s += """
// VerifFault is asked about every call that is about to open, read or change a file or a directory: an error it
// returns is what the call returns, without being made. It may shorten what a write is about to write.
var VerifFault func(op string, fd int, path string, p *[]byte, off int64) error

func verifOpen(mode int) string {
	if mode&(O_CREAT|O_TRUNC) != 0 {
		return "create"
	}
	return "open"
}
"""
        p = os.path.join(out, f)
        open(p, "w").write(s)
        rep[os.path.join(root, "src/syscall", f)] = p
    # the default buffer of a bufio.Writer can be made smaller, so that short histories overflow it
    s = open(os.path.join(root, "src/bufio/bufio.go")).read()
    at = s.index("type Writer struct")
    s = s[:at] + s[at:].replace("defaultBufSize", "VerifWriteBuffer") + "\n// VerifWriteBuffer is the default size of a Writer's buffer.\nvar VerifWriteBuffer = 4096\n"
    p = os.path.join(out, "bufio.go")
    open(p, "w").write(s)
    rep[os.path.join(root, "src/bufio/bufio.go")] = p
