// C15: moving about a stored chain is consistent in every direction.
package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"github.com/KitchenMishap/pudding-shed/zz_verif/btc"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
	chain "github.com/KitchenMishap/pudding-shed/zz_verif/xchain"
)

type route = chain.Route

var routes = []route{
	{Iface: "cri", Holder: "intrinsic", Ram: true},
	{Iface: "chi", Holder: "model", Ram: true, Adaptive: true},
	{Iface: "cri", Holder: "model", Ids: "path"},
	{Iface: "chi", Holder: "intrinsic", SyncEvery: 1},
	{Iface: "cri", Holder: "model", Ids: "height", Adaptive: true},
	{Iface: "cri", Holder: "model", Ids: "hash", Direct: true},
	{Iface: "chi", Holder: "model", Direct: true, Ram: true},
}

func run(c *vk.Ctx, group string, desc func() string, r route, mk func() []*btc.Block, live, inRam bool) {
	c.CaseLimit(group, 200*time.Second, desc, func(t *vk.T) {
		w := chain.Describe(mk())
		if r.Direct {
			for i := range w.Tx {
				if w.Tx[i].Copy {
					t.Outcome("repeated transaction hash without delegation (outside the property)")
					return
				}
			}
		}
		dir := t.Dir()
		chain.Reads = 0
		var ac chainstorage.IAppendableChain
		if x := vk.Try(func() {
			a, err := r.Ingest(w, dir, nil)
			vk.Must(err)
			ac = a
		}); x != nil {
			t.Fail("ingesting: %v", x)
		}
		check := func(v *chain.View, err error, which string) {
			if err != nil {
				t.Fail("opening %s: %v", which, err)
			}
			if err := chain.Navigation(v, w, r); err != nil {
				t.Fail("in the %s view: %v", which, err)
			}
		}
		if live {
			check(chain.Live(ac), nil, "store's own")
		}
		ac.Close()
		v, err := chain.Open(r, dir)
		check(v, err, "read-only")
		if inRam && len(w.In) > 0 { // (an empty file cannot be mapped)
			v, err := chain.OpenInRam(r, dir)
			check(v, err, "in-memory")
		}
		os.RemoveAll(dir)
		t.Step(chain.Reads)
		t.State(group, r.String(), len(w.Blocks), len(w.Tx), len(w.In), len(w.Out), desc())
		t.Outcome(fmt.Sprintf("%d blocks", min(len(w.Blocks), 5)))
		if len(w.Blocks) > 1 && len(w.In) > 0 {
			t.Nontrivial()
		}
	})
}

func enumerate(c *vk.Ctx) {
	debug.SetGCPercent(400)
	for _, nb := range []int{12, 60} {
		for ri, r := range routes {
			if nb > 20 && ri%2 == 0 && !c.Thorough() {
				continue
			}
			run(c, "long", func() string { return fmt.Sprintf("%d blocks through %s", nb, r) }, r, func() []*btc.Block {
				var s []int
				for i := 0; i < nb; i++ {
					s = append(s, i%2, 3+i%3)
				}
				return chain.Of(s)
			}, ri%2 == 0, ri == 3)
		}
	}
	// wide: many transactions in a block, many inputs and outputs in a transaction
	for ri, r := range routes {
		if ri%3 != 0 && !c.Thorough() {
			continue
		}
		run(c, "wide", func() string { return "300 transactions, 300 outputs, 300 inputs through " + r.String() }, r, func() []*btc.Block {
			b := chain.NewBuilder()
			b.Block(b.Coinbase(btc.Out{Value: 50, Script: chain.Script(0)}))
			var outs []btc.Out
			for i := 0; i < 300; i++ {
				b.Spend(b.Take(1, true), btc.Out{Value: int64(i), Script: chain.Script(i % 5)})
				outs = append(outs, btc.Out{Value: int64(i), Script: chain.Script(i % 3)})
			}
			b.Block(b.Coinbase(btc.Out{Value: 50, Script: chain.Script(1)}))
			b.Spend(b.Take(1, true), outs...)
			b.Block(b.Coinbase(btc.Out{Value: 50, Script: chain.Script(1)}))
			b.Spend(b.Take(1, false), btc.Out{Value: 50, Script: chain.Script(1)})
			b.Spend(b.Take(300, true), btc.Out{Value: 50, Script: chain.Script(1)})
			b.Relink()
			return b.Blocks
		}, false, false)
	}
	depth := vk.Pick(c, 3, 5)
	n := 0
	for d := 0; d <= depth; d++ {
		vk.Seqs(len(chain.Ops), d, func(seq []int) {
			s := append([]int(nil), seq...)
			n++
			for ri, r := range routes {
				if d > 2 && ri != n%len(routes) {
					continue
				}
				r := r
				run(c, "chains", func() string { return chain.Name(s) + " | " + r.String() }, r,
					func() []*btc.Block { return chain.Of(s) }, (n+ri)%3 == 0, n%13 == ri)
			}
		})
	}
}

func main() {
	vk.Main(vk.Spec{
		Property: "C15",
		Rule:     "in every view of a stored chain, all ways of reaching an object agree, parents and ends are right and unknown hashes are not found",
		Bounds: func(tier string) map[string]any {
			return map[string]any{
				"chains": "genesis followed by every sequence of up to 3 (thorough: 5) of 7 steps; up to two steps through every one of 7 routes, longer through one in turn; chains of 12 and 60 blocks; blocks of 300 transactions, transactions of 300 inputs and outputs",
				"views":  "read-only; every third also the store's own, some also the in-memory one",
				"moves":  "genesis, latest, next, previous and parent from every object by every kind of handle (own, by height, by hash, by parent and position, made by the handle creator)",
				"hashes": "every known hash of one kind asked of the other kinds, and each with one bit changed at four places, all zeros, all ones",
			}
		},
		Assumptions: []string{
			"of transactions with one hash, look-ups by it lead to the first",
			"moving on from a handle requires one that states its height",
		},
		CaseLimit: 60 * time.Second, QuickBudget: 200 * time.Second, ThoroughBudget: 13 * time.Minute, MemLimitGB: 3,
		Run: enumerate,
	})
}
