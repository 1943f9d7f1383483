// Package vcrash observes every change that code makes to the files of one directory, at the system calls, and hands
// out what the directory would contain if the process were killed right there: before each call, after the last one,
// and, for a call that extends a file, at points between its bytes. It needs the overlay that
// tools/crashprep.py makes of the standard library's syscall package.
package vcrash

import (
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
)

// Files is the contents of a directory: relative path -> bytes (directories end in "/").
type Files map[string][]byte

type Point struct {
	What  string // the call about to be made, or where in it
	Files Files
}

// Snapshot reads a directory.
func Snapshot(dir string) Files {
	fs := Files{}
	var walk func(rel string)
	walk = func(rel string) {
		es, err := os.ReadDir(filepath.Join(dir, rel))
		if err != nil {
			return
		}
		for _, e := range es {
			p := filepath.Join(rel, e.Name())
			if e.IsDir() {
				fs[p+"/"] = nil
				walk(p)
			} else if b, err := os.ReadFile(filepath.Join(dir, p)); err == nil {
				fs[p] = b
			}
		}
	}
	walk("")
	return fs
}

var seed = maphash.MakeSeed()

func (fs Files) Hash() uint64 {
	names := make([]string, 0, len(fs))
	for n := range fs {
		names = append(names, n)
	}
	sort.Strings(names)
	var h maphash.Hash
	h.SetSeed(seed)
	for _, n := range names {
		fmt.Fprintf(&h, "%s|%d|", n, len(fs[n]))
		h.Write(fs[n])
	}
	return h.Sum64()
}

// Lay writes the directory.
func (fs Files) Lay(dir string) error {
	for n := range fs {
		if strings.HasSuffix(n, "/") {
			if err := os.MkdirAll(filepath.Join(dir, n), 0755); err != nil {
				return err
			}
		}
	}
	for n, b := range fs {
		if !strings.HasSuffix(n, "/") {
			if err := os.WriteFile(filepath.Join(dir, n), b, 0644); err != nil {
				return err
			}
		}
	}
	return nil
}

// Watch runs f and calls seen for every crash point in it (not for the end). seen must not touch dir.
// tear says at which lengths an extending write to a file may be cut; nil: nowhere.
func Watch(dir string, tear func(rel string, old, n int) []int, seen func(p Point), f func()) (calls int) {
	var mu sync.Mutex
	prefix := strings.TrimSuffix(dir, "/") + "/"
	syscall.VerifHook = func(op string, fd int, path string, p []byte, off int64) {
		if path == "" {
			var err error
			path, err = os.Readlink(fmt.Sprintf("/proc/self/fd/%d", fd))
			if err != nil {
				return
			}
		}
		if !strings.HasPrefix(path, prefix) {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		calls++
		rel := strings.TrimPrefix(path, prefix)
		fs := Snapshot(dir)
		what := op + " " + rel
		seen(Point{"before " + what, fs})
		if tear == nil || (op != "write" && op != "pwrite") {
			return
		}
		old, there := fs[rel]
		if !there {
			return
		}
		if op == "write" {
			o, err := syscall.Seek(fd, 0, 1)
			if err != nil {
				return
			}
			off = o
		}
		if off != int64(len(old)) || len(p) < 2 {
			return
		}
		for _, k := range tear(rel, len(old), len(p)) {
			if k <= 0 || k >= len(p) {
				continue
			}
			torn := Files{}
			for n, b := range fs {
				torn[n] = b
			}
			torn[rel] = append(append([]byte{}, old...), p[:k]...)
			seen(Point{fmt.Sprintf("%d of %d bytes into %s", k, len(p), what), torn})
		}
	}
	defer func() { syscall.VerifHook = nil }()
	f()
	return
}
