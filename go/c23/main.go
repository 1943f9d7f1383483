// C23: what a successful sync acknowledged survives abandoning the process at any later point.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/KitchenMishap/pudding-shed/zz_verif/vcrash"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

// step performs one operation. It returns the model to which a crash in the middle is held: with the operation's
// record possibly there, and what the operation acknowledges not yet acknowledged.
func (k *kind) step(t *vk.T, s *store, dir string, op int, m *model, around func(mid *model, f func())) {
	name := k.ops[op]
	var w []write
	if name != "sync" && name != "close and reopen" {
		w = k.plan(m, name)
		for _, x := range w {
			m.set(x.list, x.index, x.val)
		}
	}
	var err error
	around(m.clone(), func() {
		switch name {
		case "sync":
			err = (*s).sync()
		case "close and reopen":
			err = (*s).close()
		default:
			err = (*s).do(name, w)
		}
	})
	if err == nil && w == nil && (name == "sync" || name == "close and reopen") {
		m.acked()
	}
	if err == nil && name == "close and reopen" {
		*s, err = k.open(dir)
	}
	if err != nil {
		t.Fail("%s: %v", name, err)
	}
}

func (k *kind) run(t *vk.T, seq []int) {
	base := t.Dir()
	dir := filepath.Join(base, "live")
	vk.Must(os.MkdirAll(dir, 0755))
	m := newModel(k.lists)
	if err := k.create(dir); err != nil {
		t.Fail("create: %v", err)
	}
	s, err := k.open(dir)
	if err != nil {
		t.Fail("open: %v", err)
	}
	type state struct {
		at string
		fs vcrash.Files
		m  *model
	}
	var states []state
	have := map[uint64]bool{}
	calls := 0
	for i, op := range seq {
		k.step(t, &s, dir, op, m, func(mid *model, f func()) {
			if i < len(seq)-1 {
				f()
				return
			}
			calls = vcrash.Watch(dir, k.tear, func(p vcrash.Point) {
				if h := p.Files.Hash(); !have[h] {
					have[h] = true
					states = append(states, state{p.What + " in " + k.ops[op], p.Files, mid})
				}
			}, f)
		})
	}
	states = append(states, state{"after " + k.ops[seq[len(seq)-1]], vcrash.Snapshot(dir), m})
	t.Step(calls)
	for i, st := range states {
		d := filepath.Join(base, fmt.Sprint("crash", i))
		vk.Must(os.MkdirAll(d, 0755))
		vk.Must(st.fs.Lay(d))
		t.State(k.name, st.fs.Hash(), st.m.String())
		k.recover(t, d, st.at, st.m)
		os.RemoveAll(d)
	}
	t.Extra("crash points", int64(len(states)))
	if m.synced[0] != nil {
		t.Nontrivial()
		t.Outcome("with a sync to hold to")
	} else {
		t.Outcome("nothing synced yet")
	}
}

func (k *kind) recover(t *vk.T, dir, at string, m *model) {
	when := func(f string, a ...any) string {
		return fmt.Sprintf("process abandoned %s, with %v: %s", at, m, fmt.Sprintf(f, a...))
	}
	report := func(err error, before *model, f string, a ...any) {
		key := k.name
		if k.known != nil {
			if x := k.known(err, before); x != "" {
				key = x
			}
		}
		t.FailKey(key, "%s: %v", when(f, a...), err)
	}
	read := func(dir string, m *model, before *model) (got [][]record) {
		var err error
		if p := vk.Try(func() { got, err = k.read(dir, m) }); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
		if err != nil {
			report(err, before, "reading the reopened store (it should have %v)", m)
		}
		return
	}
	got := read(dir, m, nil)
	if err := m.judge(got); err != nil {
		report(err, nil, "after reopening")
	}
	if k.resume == "" {
		return
	}
	// The store goes on from what it holds, either with new records or with those it lost.
	fs := vcrash.Snapshot(dir)
	goOn := func(dir string, grow int) {
		n := newModel(k.lists)
		for l := range got {
			n.lists[l] = append([]record{}, got[l]...)
		}
		n.acked()
		n.grow = grow
		n.lost = m
		n.loose = map[[2]int]bool{}
		for l := range got {
			for i := len(m.synced[l]); i < len(got[l]); i++ {
				n.loose[[2]int{l, i}] = true
			}
		}
		s, err := k.open(dir)
		if err != nil {
			t.Fail("%s", when("opening: %v", err))
		}
		w := k.plan(n, k.resume)
		for _, x := range w {
			n.set(x.list, x.index, x.val)
		}
		if err = s.do(k.resume, w); err == nil {
			err = s.sync()
		}
		if err != nil {
			report(err, m, "going on with the reopened store")
		}
		n.acked()
		if err := n.judge(read(dir, n, m)); err != nil {
			report(err, m, "gone on (%v) and abandoned again", n)
		}
		runtime.KeepAlive(s)
	}
	if k.again && len(got[0]) < len(m.lists[0]) {
		d := dir + "again"
		vk.Must(os.MkdirAll(d, 0755))
		vk.Must(fs.Lay(d))
		goOn(d, len(got[0]))
		os.RemoveAll(d)
	}
	goOn(dir, m.grow+1000)
}

func main() {
	vk.Main(vk.Spec{
		Property: "C23",
		Rule:     "one case per history of operations; every system call of its last operation that changes a file (before it, and for calls that extend a file also between their bytes) and the end of it is a crash point: the directory as it is there is laid out afresh, reopened, compared, continued, abandoned and reopened again; states = distinct (directory, acknowledged contents) pairs",
		Bounds: func(tier string) map[string]any {
			b := map[string]any{}
			for _, k := range kinds() {
				d := k.depthQ
				if tier == "thorough" {
					d = k.depthT
				}
				b[k.name] = fmt.Sprintf("all histories of up to %d operations out of %s", d, strings.Join(k.ops, ", "))
			}
			return b
		},
		Assumptions: []string{
			"abandoning the process loses its memory but nothing it has handed to the operating system",
			"a single write that does not extend its file is made whole or not at all",
		},
		Shards: 8,
		Run: func(c *vk.Ctx) {
			for _, k := range kinds() {
				n := 0
				for d := 1; d <= vk.Pick(c, k.depthQ, k.depthT); d++ {
					vk.Seqs(len(k.ops), d, func(seq []int) {
						seq = append([]int{}, seq...)
						c.CaseLimit(k.name, 60*time.Second, func() string { return k.name + ": " + vk.Names(k.ops, seq) }, func(t *vk.T) {
							if n++; n%200 == 0 {
								runtime.GC() // closes abandoned files
							}
							k.run(t, seq)
						})
					})
				}
				for _, seq := range k.long {
					c.CaseLimit(k.name+" long", 60*time.Second, func() string { return k.name + ": " + vk.Names(k.ops, seq) }, func(t *vk.T) { k.run(t, seq) })
				}
			}
			chains(c)
		},
	})
}
