// C25: a failed file operation is never passed over in silence.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/KitchenMishap/pudding-shed/zz_verif/vfault"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

// ask puts every question to an open store. The second result is what it answered wrong.
type asker interface {
	ask(m *model) (error, string)
}

func (s words) ask(m *model) (error, string) {
	n, err := s.f.CountWords()
	if err != nil {
		return err, ""
	}
	if n != int64(len(m.lists[0])) {
		return nil, fmt.Sprintf("%d words counted, not %d", n, len(m.lists[0]))
	}
	for i, v := range m.lists[0] {
		if len(m.lists[0]) > 50 && i > 2 && i < len(m.lists[0])-4 {
			continue
		}
		x, err := s.f.ReadWordAt(int64(i))
		if err != nil {
			return err, ""
		}
		if lab(x) != v {
			return nil, fmt.Sprintf("word %d is %d, not %s", i, x, v)
		}
	}
	return nil, ""
}

func (s hashes) ask(m *model) (error, string) {
	expect = int64(len(m.lists[0]))
	defer func() { expect = -1 }()
	n, err := s.f.CountHashes()
	if err != nil {
		return err, ""
	}
	if n != int64(len(m.lists[0])) {
		return nil, fmt.Sprintf("%d hashes counted, not %d", n, len(m.lists[0]))
	}
	for i, v := range m.lists[0] {
		h := hashOf(v)
		at, err := s.f.IndexOfHash(&h)
		if err != nil {
			return err, ""
		}
		if at != int64(i) {
			return nil, fmt.Sprintf("hash %d is said to be at %d", i, at)
		}
		var back [32]byte
		if err := s.f.GetHashAtIndex(int64(i), &back); err != nil {
			return err, ""
		}
		if back != h {
			return nil, fmt.Sprintf("hash %d is %x, not %x", i, back, h)
		}
	}
	for _, v := range []string{"777777", "777778"} {
		h := hashOf(v)
		at, err := s.f.IndexOfHash(&h)
		if err == nil && at != -1 {
			return nil, fmt.Sprintf("a hash never stored is said to be at %d", at)
		}
	}
	return nil, ""
}

func (s ints) ask(m *model) (error, string) {
	for l, key := range intKeys {
		a, err := s.m.GetArray(key)
		if err != nil {
			return err, ""
		}
		var got []record
		for _, v := range a {
			got = append(got, lab(v))
		}
		if fmt.Sprint(got) != fmt.Sprint(m.lists[l]) {
			return nil, fmt.Sprintf("list %d is %q, not %q", l, got, m.lists[l])
		}
	}
	return nil, ""
}

func (s fixed) ask(m *model) (error, string) {
	for i, v := range m.lists[0] {
		b := []byte{0xEE}
		if _, err := s.f.ReadAt(b, int64(i)); err != nil {
			return err, ""
		}
		if !bytes.Equal(b, []byte{byte(num(v))}) {
			return nil, fmt.Sprintf("byte %d is %d, not %s", i, b[0], v)
		}
	}
	return nil, ""
}

// phases of a run besides the operations
const (
	creating = "creating the store"
	opening  = "opening the store"
	asking   = "asking the open store"
	ending   = "closing"
	reading  = "reading the reopened store"
)

// run goes through a history with one call spoilt (or none), and judges what was reported and what is there.
func run(t *vk.T, k *kind, seq []int, dir string, target *vfault.Call, mode vfault.Mode) *vfault.Injector {
	vk.Must(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)
	in := vfault.New(dir, target, mode)
	m := newModel(k.lists)
	fault := "nothing fails"
	if target != nil {
		fault = fmt.Sprintf("%v %v", target, mode)
	}
	// each performs one phase; an error or a panic is its report
	each := func(f func() error) (err error) {
		in.Run(func() {
			if p := vk.Try(func() { err = f() }); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
		})
		return
	}
	fail := func(f string, a ...any) { t.FailKey(k.name, "%s: %s", fault, fmt.Sprintf(f, a...)) }
	// contents reads the store with nothing failing
	contents := func(when string) ([][]record, bool) {
		var got [][]record
		var err error
		if p := vk.Try(func() { got, err = k.read(dir, m) }); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
		if err != nil {
			if k.known != nil && k.known(err, nil) != "" {
				t.Outcome("left to another property")
				return nil, false
			}
			fail("%s, then reopened, it should have %v: %v", when, m, err)
		}
		return got, true
	}
	// reported: the run ends, and what was synced must still be there
	reported := func(phase string, err error) {
		if !in.Hit {
			fail("%s: %v, though nothing had failed", phase, err)
		}
		t.Outcome("reported")
		synced := false
		for l := range m.synced {
			synced = synced || len(m.synced[l]) > 0
		}
		if !synced || baked[k.name] {
			return
		}
		if got, ok := contents(fmt.Sprintf("%s reported %v", phase, err)); ok {
			if err2 := m.judge(got); err2 != nil {
				fail("%s reported %v; then, reopened: %v", phase, err, err2)
			}
		}
		t.Nontrivial()
	}
	if err := each(func() error { return k.create(dir) }); err != nil {
		reported(creating, err)
		return in
	}
	var s store
	looked := false
	if err := each(func() (err error) { s, err = k.open(dir); return }); err != nil {
		reported(opening, err)
		return in
	}
	for n, op := range seq {
		name := k.ops[op]
		var w []write
		var err error
		switch name {
		case "sync":
			err = each(s.sync)
		case "close and reopen":
			if err = each(func() error { return finish(k, s) }); err == nil {
				m.acked()
				err = each(func() (err error) { s, err = k.open(dir); return })
			}
		default:
			w = k.plan(m, name)
			for _, x := range w {
				m.set(x.list, x.index, x.val)
			}
			if w == nil {
				if a, is := s.(asker); is {
					bad := ""
					err = each(func() (err error) { err, bad = a.ask(m); return })
					if err == nil && bad != "" {
						fail("operation %d (%s): %s", n, name, bad)
					}
					break
				}
			}
			err = each(func() error { return s.do(name, w) })
		}
		if err != nil {
			reported(fmt.Sprintf("operation %d (%s)", n, name), err)
			return in
		}
		if name == "sync" {
			m.acked()
			if in.Hit && !looked {
				looked = true
				after(n, dir, k, m, fail)
			}
		}
	}
	if a, is := s.(asker); is {
		bad := ""
		err := each(func() (err error) { err, bad = a.ask(m); return })
		if err != nil {
			reported(asking, err)
			return in
		}
		if bad != "" {
			fail("%s: %s", asking, bad)
		}
	}
	if err := each(func() error { return finish(k, s) }); err != nil {
		reported(ending, err)
		return in
	}
	m.acked()
	// everything was said to be all right: everything must be there
	hit := in.Hit
	in.Hit = in.Hit || target != nil && mode == vfault.Full // (space is free again by now)
	if hit {
		in = &vfault.Injector{}
		t.Outcome("harmless")
		t.Nontrivial()
	}
	expect = int64(len(m.lists[0]))
	defer func() { expect = -1 }()
	var got [][]record
	var err error
	readAll := func() error { got, err = k.read(dir, m); return err }
	if hit {
		if p := vk.Try(func() { readAll() }); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
		if err != nil {
			fail("nothing was reported; then, reopened, it should have %v: %v", m, err)
		}
	} else {
		err = each(readAll)
		if x, is := err.(wrong); is {
			fail("%s (it should have %v): %v", reading, m, x)
		}
		if err != nil {
			reported(reading, err)
			return in
		}
	}
	if err := m.judge(got); err != nil {
		fail("nothing was reported; then, reopened, %v: %v", got, err)
	}
	return in
}

// after looks, after a sync that reported nothing, at what the files hold by then (in a copy of them).
func after(n int, dir string, k *kind, m *model, fail func(string, ...any)) {
	twin := filepath.Join(filepath.Dir(dir), "twin of "+filepath.Base(dir))
	defer os.RemoveAll(twin)
	vk.Must(os.CopyFS(twin, os.DirFS(dir)))
	expect = int64(len(m.lists[0]))
	defer func() { expect = -1 }()
	var got [][]record
	var err error
	if p := vk.Try(func() { got, err = k.read(twin, m) }); p != nil {
		err = fmt.Errorf("panic: %v", p)
	}
	if err == nil {
		err = m.judge(got)
	}
	if err != nil {
		if k.known != nil && k.known(err, nil) != "" {
			return // left to another property
		}
		fail("operation %d (sync) reported nothing; then the files should have %v: %v", n, m, err)
	}
}

// finish closes the store; where closing can't report anything, it is synced first.
func finish(k *kind, s store) error {
	if strings.HasPrefix(k.name, "hash lists of a chain") {
		if err := s.sync(); err != nil {
			return err
		}
	}
	return s.close()
}

func spoil(t *vk.T, k *kind, seq []int, few int) {
	base := t.Dir()
	clean := run(t, k, seq, filepath.Join(base, "clean"), nil, vfault.Once)
	n := 0
	for _, c := range some(clean.Calls, few) {
		for _, mode := range c.Modes() {
			n++
			c := c
			in := run(t, k, seq, filepath.Join(base, fmt.Sprint("run", n)), &c, mode)
			_ = in
			t.State(k.name, fmt.Sprint(seq), c.String(), mode)
			if n%50 == 0 {
				runtime.GC() // closes files abandoned
			}
		}
	}
	t.Step(n)
	t.Extra("spoilt calls", int64(n))
}

// spoilApart makes a case of each call.
func spoilApart(c *vk.Ctx, k *kind, seq []int, few int) {
	base, err := os.MkdirTemp("", "apart")
	vk.Must(err)
	defer os.RemoveAll(base)
	var clean *vfault.Injector
	desc := func() string { return k.name + ": " + vk.Names(k.ops, seq) }
	c.Case(k.name, desc, func(t *vk.T) { clean = run(t, k, seq, filepath.Join(base, "clean"), nil, vfault.Once) })
	if clean == nil { // another shard's case
		if p := vk.Try(func() { clean = run(new(vk.T), k, seq, filepath.Join(base, "clean"), nil, vfault.Once) }); p != nil {
			return // (which its own case reports)
		}
	}
	for _, call := range some(clean.Calls, few) {
		for _, mode := range call.Modes() {
			c.CaseLimit(k.name, 60*time.Second, func() string { return fmt.Sprintf("%s: %v %v", desc(), call, mode) }, func(t *vk.T) {
				run(t, k, seq, filepath.Join(t.Dir(), "run"), &call, mode)
				t.State(k.name, fmt.Sprint(seq), call.String(), mode)
				t.Step(1)
			})
		}
	}
}

func main() {
	if os.Getenv("C25_JOB") != "" {
		child()
	}
	vk.Main(vk.Spec{
		Property: "C25",
		Rule:     "one case per history of operations; it is run once with nothing failing, which lists its file operations, and then once for each of these and each way in which it can fail; states = (history, call, way)",
		Bounds: func(tier string) map[string]any {
			b := map[string]any{}
			for _, k := range append(kinds(), bakedKinds()...) {
				b[k.name] = fmt.Sprintf("all histories of up to %d operations out of %s", depth(k, tier == "thorough"), strings.Join(k.ops, ", "))
			}
			b["ways of failing"] = "the call fails; a write writes half and then fails; the call and all that need space after it fail"
			return b
		},
		Assumptions: []string{
			"files are opened, read, written, synced, truncated, renamed and removed, and folders made, through Go's syscall package",
			"one call fails, or the disk is full from one call on; sizes, listings and closing of files do not fail",
		},
		Shards: 8,
		Run: func(c *vk.Ctx) {
			jobs(c)
			for _, k := range append(kinds(), bakedKinds()...) {
				if baked[k.name] {
					for _, seq := range k.long[:vk.Pick(c, 1, len(k.long))] {
						spoilApart(c, k, seq, vk.Pick(c, 2, 10))
					}
					continue
				}
				for d := 0; d <= depth(k, c.Thorough()); d++ {
					vk.Seqs(len(k.ops), d, func(seq []int) {
						seq = append([]int{}, seq...)
						for _, size := range []int{4096, small} {
							if size == small && d == 0 {
								continue
							}
							c.CaseLimit(k.name, 60*time.Second, func() string { return fmt.Sprintf("%s: %s (buffers of %d bytes)", k.name, vk.Names(k.ops, seq), size) }, func(t *vk.T) {
								bufio.VerifWriteBuffer = size
								defer func() { bufio.VerifWriteBuffer = 4096 }()
								spoil(t, k, seq, vk.Pick(c, 20, 100))
							})
						}
					})
				}
			}
		},
	})
}

// small is a size of write buffers that two hashes or a few integers overflow.
const small = 36

func depth(k *kind, thorough bool) int {
	d := 3
	if len(k.ops) > 6 {
		d = 2
	}
	if thorough {
		d++
	}
	return d
}
