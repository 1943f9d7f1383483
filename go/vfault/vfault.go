// Package vfault makes single file operations on one directory fail. It needs the overlay that tools/faultprep.py makes
// of the standard library's syscall package.
package vfault

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"syscall"
)

// A Call is the n-th call of one kind on one file since watching began.
type Call struct {
	Op, Rel string
	N       int
	Long    bool // writes more than one byte beyond the end of the file (which is what may fail half way)
}

func (c Call) String() string { return fmt.Sprintf("%s %s (no. %d)", c.Op, c.Rel, c.N) }

func (c Call) Changes() bool { return c.Op != "open" && c.Op != "read" && c.Op != "pread" }

type Mode int

const (
	Once Mode = iota // the call fails
	Cut              // the call writes half of what it is given, and the rest fails
	Full             // the call and every later one that needs space fail
)

func (m Mode) String() string {
	return []string{"fails", "is cut short", "and what follows find no space"}[m]
}

func (c Call) Modes() []Mode {
	switch c.Op {
	case "write", "pwrite":
		if c.Long {
			return []Mode{Once, Cut, Full}
		}
		return []Mode{Once, Full}
	case "create", "mkdir":
		return []Mode{Once, Full}
	}
	return []Mode{Once}
}

type key struct{ op, rel string }

// Injector watches (and, told a call and a mode, spoils) what is done to the files of a directory.
type Injector struct {
	prefix string
	target *Call
	mode   Mode
	mu     sync.Mutex
	count  map[key]int
	cut    string
	Calls  []Call // all calls seen (with no target)
	Hit    bool   // the target was met
}

func New(dir string, target *Call, mode Mode) *Injector {
	return &Injector{prefix: strings.TrimSuffix(dir, "/") + "/", target: target, mode: mode, count: map[key]int{}}
}

func errno(op string) error {
	switch op {
	case "open", "create":
		return syscall.EMFILE
	case "write", "pwrite", "mkdir":
		return syscall.ENOSPC
	}
	return syscall.EIO
}

// Run runs f with the injector at work.
func (in *Injector) Run(f func()) {
	syscall.VerifFault = in.ask
	defer func() { syscall.VerifFault = nil }()
	f()
}

func extends(fd int, off int64) bool {
	var st syscall.Stat_t
	if syscall.Fstat(fd, &st) != nil {
		return false
	}
	if off < 0 {
		var err error
		if off, err = syscall.Seek(fd, 0, 1); err != nil {
			return false
		}
	}
	return off >= st.Size
}

// concerned tells whether a call can matter, once a target is set.
func (in *Injector) concerned(op string) bool {
	in.mu.Lock()
	defer in.mu.Unlock()
	switch {
	case in.target == nil:
		return true
	case !in.Hit:
		return op == in.target.Op
	}
	return in.mode == Full || in.cut != ""
}

func (in *Injector) ask(op string, fd int, path string, p *[]byte, off int64) error {
	if !in.concerned(op) {
		return nil
	}
	if path == "" {
		var err error
		if path, err = os.Readlink(fmt.Sprintf("/proc/self/fd/%d", fd)); err != nil {
			return nil
		}
	}
	if !strings.HasPrefix(path, in.prefix) {
		return nil
	}
	rel := path[len(in.prefix):]
	in.mu.Lock()
	defer in.mu.Unlock()
	if in.cut != "" && rel == in.cut && (op == "write" || op == "pwrite") {
		in.cut = ""
		return syscall.ENOSPC // the rest of the write that was cut
	}
	if in.Hit && in.mode == Full && (op == "write" || op == "pwrite" || op == "create" || op == "mkdir") {
		return syscall.ENOSPC
	}
	k := key{op, rel}
	in.count[k]++
	c := Call{Op: op, Rel: rel, N: in.count[k], Long: p != nil && len(*p) > 1 && extends(fd, off)}
	if in.target == nil {
		in.Calls = append(in.Calls, c)
	}
	if in.Hit || in.target == nil || in.target.Op != c.Op || in.target.Rel != c.Rel || in.target.N != c.N {
		return nil
	}
	in.Hit = true
	if in.mode == Cut && c.Long {
		*p = (*p)[:len(*p)/2]
		in.cut = rel
		return nil
	}
	return errno(op)
}
