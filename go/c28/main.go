// C28: what was interrupted while it was being made can be made again in the same place.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"time"

	"github.com/KitchenMishap/pudding-shed/zz_verif/vcrash"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

type state struct {
	at string
	fs vcrash.Files
}

// watch collects the distinct directories that abandoning the process during f, or after it, may leave.
func watch(t *vk.T, dir string, tear func(rel string, old, n int) []int, what string, f func()) (states []state) {
	have := map[uint64]bool{}
	add := func(at string, fs vcrash.Files) {
		if h := fs.Hash(); !have[h] {
			have[h] = true
			states = append(states, state{at, fs})
			t.State(what, h)
		}
	}
	t.Step(vcrash.Watch(dir, tear, func(p vcrash.Point) { add(p.What+" in "+what, p.Files) }, f))
	add("after "+what, vcrash.Snapshot(dir))
	t.Extra("crash points", int64(len(states)))
	return
}

// few takes, of very many states, those at the ends and others evenly in between.
func few(states []state, most int) []state {
	if len(states) <= most {
		return states
	}
	var some []state
	for i, s := range states {
		if i < most/3 || i >= len(states)-most/3 || i%((len(states)-most/3*2)/(most/3)+1) == 0 {
			some = append(some, s)
		}
	}
	return some
}

// each lays every state out in a directory of its own.
func each(t *vk.T, states []state, f func(s state, dir string)) {
	base := t.Dir()
	for i, s := range states {
		d := filepath.Join(base, fmt.Sprint("again", i))
		vk.Must(os.MkdirAll(d, 0755))
		vk.Must(s.fs.Lay(d))
		f(s, d)
		os.RemoveAll(d)
	}
}

// ---- stores

// storeKinds are the kinds of stores that are created by a call of their own.
func storeKinds() (ks []*kind) {
	for _, k := range append(append(kinds(), bakedKinds()...), hashesChainKind(false), hashesChainKind(true)) {
		if k.name == "hash file" || k.name == "fixed-size file held in memory" {
			continue
		}
		ks = append(ks, k)
	}
	return
}

// perform does one operation.
func (k *kind) perform(s *store, dir string, m *model, name string) (err error) {
	switch name {
	case "sync":
		if err = (*s).sync(); err == nil {
			m.acked()
		}
	case "close and reopen":
		if err = (*s).close(); err == nil {
			m.acked()
			*s, err = k.open(dir)
		}
	default:
		w := k.plan(m, name)
		for _, x := range w {
			m.set(x.list, x.index, x.val)
		}
		err = (*s).do(name, w)
	}
	return
}

// again creates the store where an earlier one was left and uses it.
func (k *kind) remake(t *vk.T, s state, dir string, use [][]int) {
	before := s.fs.Hash()
	if err := k.create(dir); err != nil {
		if vcrash.Snapshot(dir).Hash() != before {
			t.Fail("left %s: creating it again is refused (%v), but the files have changed", s.at, err)
		}
		t.Outcome("refused")
		return
	}
	t.Outcome("created again")
	created := vcrash.Snapshot(dir)
	for _, seq := range use {
		d := dir + "use"
		vk.Must(os.MkdirAll(d, 0755))
		vk.Must(created.Lay(d))
		m := newModel(k.lists)
		m.grow = 1000
		m.acked()
		judge := func(what string) {
			var got [][]record
			var err error
			if p := vk.Try(func() { got, err = k.read(d, m) }); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
			if err == nil {
				err = m.judge(got)
			}
			if err != nil {
				t.Fail("left %s and created again: %s (%v): %v", s.at, what, m, err)
			}
		}
		judge("read at once")
		h, err := k.open(d)
		if err != nil {
			t.Fail("left %s and created again: opening: %v", s.at, err)
		}
		done := "opened"
		for _, op := range seq {
			done += ", " + k.ops[op]
			if err := k.perform(&h, d, m, k.ops[op]); err != nil {
				t.Fail("left %s and created again: %s: %v", s.at, done, err)
			}
		}
		err = h.sync()
		if err == nil {
			err = h.close()
		}
		if err != nil {
			t.Fail("left %s and created again: %s: syncing and closing: %v", s.at, done, err)
		}
		m.acked()
		judge(done + ", closed and read")
		os.RemoveAll(d)
		t.Step(len(seq) + 3)
	}
}

func (k *kind) runStore(t *vk.T, seq []int, use [][]int, most int) {
	dir := filepath.Join(t.Dir(), "live")
	vk.Must(os.MkdirAll(dir, 0755))
	var states []state
	if len(seq) == 0 { // the creation itself is interrupted
		states = watch(t, dir, k.tear, "creating it", func() {
			if err := k.create(dir); err != nil {
				t.Fail("create: %v", err)
			}
		})
	} else {
		if err := k.create(dir); err != nil {
			t.Fail("create: %v", err)
		}
		s, err := k.open(dir)
		if err != nil {
			t.Fail("open: %v", err)
		}
		m := newModel(k.lists)
		for i, op := range seq {
			do := func() {
				if err := k.perform(&s, dir, m, k.ops[op]); err != nil {
					t.Fail("%s: %v", k.ops[op], err)
				}
			}
			if i < len(seq)-1 {
				do()
			} else {
				states = watch(t, dir, nil, k.ops[op], do)
				states = append(states, watch(t, dir, nil, "sync and close", func() {
					if err := s.sync(); err != nil {
						t.Fail("sync: %v", err)
					}
					if err := s.close(); err != nil {
						t.Fail("close: %v", err)
					}
				})...)
			}
		}
		runtime.KeepAlive(s)
	}
	each(t, few(states, most), func(s state, d string) { k.remake(t, s, d, use) })
	t.Nontrivial()
}

func main() {
	vk.Main(vk.Spec{
		Property: "C28",
		Rule:     "one case per thing that is made (a store with a history, a bulk-built index, a stored chain); every system call that changes a file while it is made is a crash point: the directory as it is there is laid out afresh, the making is begun again in it, and the result is compared with one that was never interrupted; states = distinct directories that are begun again in",
		Bounds: func(tier string) map[string]any {
			return map[string]any{
				"stores":       "every kind that has a creator; histories of up to 2 (quick) or 3 (thorough) operations, and some longer ones, of the earlier store; each short history of the new one",
				"indexes":      "uniform (1, 3 bins; created and existing) and binned (multipass and adaptive): lists of up to 330 hashes, begun again with the same list, a shorter, a longer and an empty one, by the same builder and (binned) the other",
				"crash points": "all of the last operation; of more than 60 (cakes that bake: 18; thorough 300, 90; indexes 60, 600) those at its ends and evenly spaced ones",
				"chains":       "chains of three or four blocks, 3 routes, each phase of storing interrupted",
			}
		},
		Assumptions: []string{
			"abandoning the process loses its memory but nothing it has handed to the operating system",
			"refusing to begin again, with an error and without touching any file, is allowed where a store of that kind is there already",
		},
		Shards: 8,
		Run: func(c *vk.Ctx) {
			for _, k := range storeKinds() {
				var use [][]int
				use = append(use, nil)
				for d := 1; d <= vk.Pick(c, 1, 2); d++ {
					vk.Seqs(len(k.ops), d, func(seq []int) { use = append(use, append([]int{}, seq...)) })
				}
				long := []int{}
				for i := 0; i < 5; i++ {
					for op, name := range k.ops {
						if name == k.resume {
							long = append(long, op)
						}
					}
				}
				depth, most := vk.Pick(c, 2, 3), vk.Pick(c, 60, 300)
				if baked[k.name] { // slow
					depth, most = depth-1, vk.Pick(c, 18, 90)
					use = use[:vk.Pick(c, 2, 5)]
				}
				use = append(use, long)
				one := func(seq []int) {
					seq = append([]int{}, seq...)
					c.CaseLimit(k.name, time.Duration(vk.Pick(c, 120, 900))*time.Second, func() string { return k.name + ": " + vk.Names(k.ops, seq) }, func(t *vk.T) { k.runStore(t, seq, use, most) })
				}
				for d := 0; d <= depth; d++ {
					vk.Seqs(len(k.ops), d, one)
				}
				one(long)
				for _, seq := range k.long {
					if len(seq) < 20 {
						one(seq)
					}
				}
			}
			indexes(c)
			rerunChains(c)
		},
	})
}
