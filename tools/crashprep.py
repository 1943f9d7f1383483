"""Lays hooks into the standard library's syscall package (by overlay): every call that changes a file or a
directory first tells VerifHook, if one is set."""
import os, re, subprocess, sys

HOOKED = {  # function: (file, hook arguments)
    "Write": ("syscall_unix.go", '"write", fd, "", p, -1'),
    "Pwrite": ("syscall_unix.go", '"pwrite", fd, "", p, offset'),
    "Open": ("syscall_linux.go", '"open", -1, path, nil, int64(mode)'),
    "Rename": ("syscall_linux.go", '"rename", -1, newpath, nil, 0'),
    "Mkdir": ("syscall_linux.go", '"mkdir", -1, path, nil, 0'),
    "Unlink": ("syscall_linux.go", '"unlink", -1, path, nil, 0'),
    "Rmdir": ("syscall_linux.go", '"rmdir", -1, path, nil, 0'),
}

def prepare(verif, work, rep):
    root = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
    arch = subprocess.check_output(["go", "env", "GOARCH"], text=True).strip()
    hooked = dict(HOOKED)
    z = "zsyscall_linux_%s.go" % arch
    hooked["Ftruncate"] = (z, '"ftruncate", fd, "", nil, length')
    hooked["Truncate"] = (z, '"truncate", -1, path, nil, length')
    out = os.path.join(work, "syscall")
    os.makedirs(out, exist_ok=True)
    for f in sorted({f for f, _ in hooked.values()}):
        s = open(os.path.join(root, "src/syscall", f)).read()
        for fn, (ff, args) in hooked.items():
            if ff != f:
                continue
            # opening is a change only if it may create or empty the file
            cond = " && mode&(O_CREAT|O_TRUNC) != 0" if fn == "Open" else ""
            s, n = re.subn(r"(?m)^(func %s\(.*\{)$" % fn, r"\1\n\tif VerifHook != nil%s {\n\t\tVerifHook(%s)\n\t}" % (cond, args.replace("\\", "")), s)
            if n != 1:
                sys.exit("crashprep: %s not found in %s" % (fn, f))
        if f == "syscall_unix.go":
            s += "\n// VerifHook is told of every call that is about to change a file or a directory.\nvar VerifHook func(op string, fd int, path string, p []byte, off int64)\n"
        p = os.path.join(out, f)
        open(p, "w").write(s)
        rep[os.path.join(root, "src/syscall", f)] = p
    # directory trees are removed by another package's calls, which go through here
    f = "src/internal/syscall/unix/at.go"
    s = open(os.path.join(root, f)).read()
    if '"syscall"' in s:
        s, n = re.subn(r"(?m)^(func Unlinkat\(.*\{)$", r'\1\n\tif syscall.VerifHook != nil {\n\t\tsyscall.VerifHook("unlinkat", dirfd, "", nil, 0)\n\t}', s)
        if n == 1:
            p = os.path.join(out, "at.go")
            open(p, "w").write(s)
            rep[os.path.join(root, f)] = p
    f = "src/internal/syscall/unix/copy_file_range_unix.go"
    s = open(os.path.join(root, f)).read()
    s, n = re.subn(r"(?m)^(func CopyFileRange\(.*\{)$", r'\1\n\tif syscall.VerifHook != nil {\n\t\tsyscall.VerifHook("copy_file_range", wfd, "", nil, 0)\n\t}', s)
    if n == 1:
        p = os.path.join(out, "cfr.go")
        open(p, "w").write(s)
        rep[os.path.join(root, f)] = p
