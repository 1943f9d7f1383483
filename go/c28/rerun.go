package main

import (
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"github.com/KitchenMishap/pudding-shed/transactionindexing"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vcrash"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
	chain "github.com/KitchenMishap/pudding-shed/zz_verif/xchain"
)

// ---- whole chains

var rerunRoutes = []chain.Route{
	{Iface: "cri", Holder: "model", Ids: "path", Blk: chain.BlkInts, Trn: chain.TrnInts},
	{Iface: "chi", Holder: "model", Blk: chain.BlkInts, Trn: chain.TrnInts},
	{Iface: "cri", Holder: "model", Ids: "hash", Direct: true, Blk: []string{"nonce"}, Trn: []string{"locktime"}},
}

var phases = []string{"listing the hashes", "indexing them", "creating the store", "appending the blocks"}

// rerunChains interrupts each phase of storing a chain anywhere and begins with that phase again.
func rerunChains(c *vk.Ctx) {
	for ri, r := range rerunRoutes {
		for first := 0; first < 7; first++ {
			if !c.Thorough() && first%len(rerunRoutes) != ri {
				continue // each route has its share
			}
			seq := []int{0, 2, first}
			for ph := range phases {
				c.CaseLimit(fmt.Sprintf("chain, route %d", ri), 600*time.Second, func() string {
					return fmt.Sprintf("%v: %s, abandoned while %s", r, chain.Name(seq), phases[ph])
				}, func(t *vk.T) { rerun(t, r, seq, ph) })
			}
		}
	}
}

func rerun(t *vk.T, r chain.Route, seq []int, interrupted int) {
	w := chain.Describe(chain.Of(seq))
	if r.Direct {
		for i := range w.Tx {
			if w.Tx[i].Copy {
				t.Outcome("repeated transaction hash without delegation (outside the property)")
				return
			}
		}
	}
	chain.Reads, chain.AllAddresses = 0, false
	run := func(dir string, from, to int) (phase int, err error) {
		var ac chainstorage.IAppendableChain
		var ind transactionindexing.ITransactionIndexer
		for phase = from; phase < to; phase++ {
			switch phase {
			case 0:
				err = r.Hashes(w, dir)
			case 1:
				err = r.Index(w, dir, 1)
			case 2:
				ac, ind, err = r.Store(dir)
			case 3:
				if err = r.Append(w, ac, ind, func(b int) error {
					if b == len(w.Blocks) {
						return ac.Sync()
					}
					return nil
				}); err == nil {
					ac.Close()
				}
			}
			if err != nil {
				return
			}
		}
		if to == 3 && ac != nil {
			ac.Close()
		}
		return
	}
	dir := filepath.Join(t.Dir(), "live")
	vk.Must(os.MkdirAll(dir, 0755))
	start, end := interrupted, interrupted+1
	if interrupted == 3 {
		start = 2
	}
	if ph, err := run(dir, 0, start); err != nil {
		t.Fail("%s: %v", phases[ph], err)
	}
	states := watch(t, dir, nil, phases[interrupted], func() {
		if ph, err := run(dir, start, end); err != nil {
			t.Fail("%s: %v", phases[ph], err)
		}
	})
	each(t, states, func(s state, d string) {
		before := s.fs.Hash()
		ph, err := run(d, start, start+1)
		if err != nil {
			if ph == 1 {
				t.Fail("abandoned %s and begun again: %s: %v", s.at, phases[ph], err)
			}
			if vcrash.Snapshot(d).Hash() != before {
				t.Fail("abandoned %s: %s again is refused (%v), but the files have changed", s.at, phases[ph], err)
			}
			t.Outcome("refused")
			return
		}
		if start == 2 { // the store is there now and would not be created again
			vk.Must(os.RemoveAll(d))
			vk.Must(os.MkdirAll(d, 0755))
			vk.Must(s.fs.Lay(d))
			ph, err = run(d, start, 4)
		} else {
			ph, err = run(d, start+1, 4)
		}
		if err != nil {
			t.Fail("abandoned %s and begun again: %s: %v", s.at, phases[ph], err)
		}
		v, err := chain.Open(r, d)
		if err == nil {
			err = chain.Facts(v, w, r, len(w.Blocks))
		}
		if err != nil {
			t.Fail("abandoned %s and begun again: %v", s.at, err)
		}
		t.Outcome("begun again")
	})
	t.Nontrivial()
}
