package main

import (
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/KitchenMishap/pudding-shed/zz_verif/vcrash"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
	chain "github.com/KitchenMishap/pudding-shed/zz_verif/xchain"
)

// ---- whole chains

var chainRoutes = []chain.Route{
	{Iface: "cri", Holder: "model", Ids: "path", Blk: chain.BlkInts, Trn: chain.TrnInts},
	{Iface: "chi", Holder: "model", Blk: chain.BlkInts, Trn: chain.TrnInts},
	{Iface: "cri", Holder: "model", Ids: "hash", Direct: true, Blk: []string{"nonce"}, Trn: []string{"locktime"}},
}

// chains stores a chain, syncs after some block, goes on, and abandons the process anywhere in what follows.
func chains(c *vk.Ctx) {
	for ri, r := range chainRoutes {
		for d := 1; d <= vk.Pick(c, 2, 3); d++ {
			vk.Seqs(7, d, func(ops []int) {
				if !c.Thorough() && d == 2 && (ops[0]+ops[1])%len(chainRoutes) != ri {
					return // each route has its share
				}
				seq := append([]int{0, 2}, ops...)
				n := len(chain.Of(seq))
				for synced := 1; synced <= n; synced++ {
					c.CaseLimit(fmt.Sprintf("chain store, route %d", ri), 120*time.Second, func() string {
						return fmt.Sprintf("%v: %s, synced after %d blocks", r, chain.Name(seq), synced)
					}, func(t *vk.T) { wholeChain(t, r, seq, synced) })
				}
			})
		}
	}
}

func wholeChain(t *vk.T, r chain.Route, seq []int, synced int) {
	w := chain.Describe(chain.Of(seq))
	if r.Direct {
		for i := range w.Tx {
			if w.Tx[i].Copy {
				t.Outcome("repeated transaction hash without delegation (outside the property)")
				return
			}
		}
	}
	base := t.Dir()
	dir := filepath.Join(base, "live")
	vk.Must(os.MkdirAll(dir, 0755))
	chain.Reads, chain.AllAddresses = 0, false
	fail := func(err error, what string) {
		if err != nil {
			t.Fail("%s: %v", what, err)
		}
	}
	fail(r.Hashes(w, dir), "hashes")
	fail(r.Index(w, dir, 1), "index")
	ac, ind, err := r.Store(dir)
	fail(err, "store")
	have := map[uint64]bool{}
	var acked bool
	n := 0
	examine := func(at string, fs vcrash.Files) {
		if h := fs.Hash(); have[h] {
			return
		} else {
			have[h] = true
		}
		n++
		d := filepath.Join(base, fmt.Sprint("crash", n))
		vk.Must(os.MkdirAll(d, 0755))
		vk.Must(fs.Lay(d))
		v, err := chain.Open(r, d)
		if err == nil {
			err = chain.HeldFacts(v, w, r, synced)
		}
		if err != nil {
			t.Fail("process abandoned %s, %d blocks synced: %v", at, synced, err)
		}
		os.RemoveAll(d)
		t.State(chain.Name(seq), r.String(), synced, fs.Hash())
	}
	done := 0
	watched := func() {
		t.Step(vcrash.Watch(dir, nil, func(p vcrash.Point) {
			if acked {
				examine(fmt.Sprintf("%s, after %d blocks", p.What, done), p.Files)
			}
		}, func() {
			fail(r.Append(w, ac, ind, func(b int) error {
				done = b
				if b == synced {
					if err := ac.Sync(); err != nil {
						return err
					}
					acked = true
				} else if acked && b == len(w.Blocks) {
					return ac.Sync() // a second sync, during which the process may be abandoned too
				}
				if acked {
					examine(fmt.Sprintf("after %d blocks", b), vcrash.Snapshot(dir))
				}
				return nil
			}), "appending")
			ac.Close()
		}))
	}
	watched()
	examine("after closing", vcrash.Snapshot(dir))
	t.Extra("crash points", int64(n))
	t.Nontrivial()
	t.Outcome("with a sync to hold to")
}
