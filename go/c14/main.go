// C14: every fact of an ingested chain reads back from storage.
package main

import (
	"fmt"
	"runtime/debug"
	"time"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"github.com/KitchenMishap/pudding-shed/zz_verif/btc"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
	chain "github.com/KitchenMishap/pudding-shed/zz_verif/xchain"
)

type route = chain.Route

var routes = []route{
	{Iface: "cri", Holder: "intrinsic", Blk: chain.HolderBlk, Trn: chain.HolderTrn, Ram: true},
	{Iface: "chi", Holder: "intrinsic", Blk: chain.HolderBlk, Trn: chain.HolderTrn, Ram: true, Adaptive: true},
	{Iface: "cri", Holder: "model", Ids: "path", Blk: chain.BlkInts, Trn: chain.TrnInts},
	{Iface: "chi", Holder: "model", Blk: chain.BlkInts, Trn: chain.TrnInts, SyncEvery: 1},
	{Iface: "cri", Holder: "model", Ids: "height", Blk: chain.BlkInts, Trn: chain.TrnInts, Adaptive: true},
	{Iface: "cri", Holder: "model", Ids: "hash", Direct: true, Blk: []string{"nonce"}, Trn: []string{"locktime"}},
	{Iface: "chi", Holder: "model", Direct: true, SyncEvery: 2},
	{Iface: "cri", Holder: "model", Ids: "height", Direct: true, Ram: true, Blk: chain.BlkInts, Trn: chain.TrnInts},
}

func run(c *vk.Ctx, group string, desc func() string, r route, mk func() []*btc.Block, live, inRam, every bool) {
	c.CaseLimit(group, 120*time.Second, desc, func(t *vk.T) {
		w := chain.Describe(mk())
		if r.Direct {
			for i := range w.Tx {
				if w.Tx[i].Copy {
					t.Outcome("repeated transaction hash without delegation (outside the property)")
					return
				}
			}
		}
		dir := t.Dir()
		chain.Reads, chain.AllAddresses = 0, every
		fail := func(err error, when string) {
			if err != nil {
				t.Fail("%s: %v", when, err)
			}
		}
		var ac chainstorage.IAppendableChain
		err := vk.Try(func() {
			r := r
			r.Ask = len(w.Blocks) < 20
			a, err := r.Ingest(w, dir, func(ac chainstorage.IAppendableChain, n int) error {
				if live {
					return chain.PassingFacts(chain.Live(ac), w, r, n)
				}
				return nil
			})
			ac = a
			fail(err, "ingesting")
		})
		if err != nil {
			t.Fail("ingesting panicked: %v", err)
		}
		fail(chain.PassingFacts(chain.Live(ac), w, r, len(w.Blocks)), "in the store's own view")
		ac.Close()
		v, err2 := chain.Open(r, dir)
		fail(err2, "opening read-only")
		fail(chain.Facts(v, w, r, len(w.Blocks)), "in the read-only view")
		if inRam && len(w.In) > 0 { // (an empty file cannot be mapped)
			v, err := chain.OpenInRam(r, dir)
			fail(err, "opening in memory")
			fail(chain.Facts(v, w, r, len(w.Blocks)), "in the in-memory view")
		}
		t.Step(chain.Reads)
		t.State(group, r.Iface, r.Holder, r.Ids, r.Direct, len(w.Blocks), len(w.Tx), len(w.In), len(w.Out), desc())
		if len(w.In) > 0 {
			t.Outcome("with inputs")
			t.Nontrivial()
		} else {
			t.Outcome("no inputs")
		}
	})
}

// missing stores a chain of which one block or transaction lacks one requested integer: it must be refused, as nothing
// could be read back that is right.
func missing(c *vk.Ctx, r route, steps []int, ofBlock bool, at int, name string) {
	w := chain.Describe(chain.Of(steps))
	ints, what := w.Tx[at].Ints, "transaction"
	if ofBlock {
		if at >= len(w.Blocks) {
			return
		}
		ints, what = w.Blocks[at].Ints, "block"
	}
	c.Case("missing", func() string { return fmt.Sprintf("%s %d lacks its %s, through %s", what, at, name, r) }, func(t *vk.T) {
		delete(ints, name)
		var err error
		refused := vk.Try(func() {
			var ac chainstorage.IAppendableChain
			ac, err = r.Ingest(w, t.Dir(), nil)
			if ac != nil {
				ac.Close()
			}
		})
		if refused == nil && err == nil {
			t.Fail("%s %d does not supply its %s, which was asked for, but is stored all the same", what, at, name)
		}
		t.Step(1)
		t.State("missing", what, at, name, r)
		t.Outcome("refused")
		t.Nontrivial()
	})
}

// big is one block whose transactions together have n outputs, every few to the same address, and a later block
// that spends some of them.
func big(outs, perTx, addrs int) []*btc.Block {
	b := chain.NewBuilder()
	b.Block(b.Coinbase(btc.Out{Value: 50, Script: chain.Script(0)}))
	for done := 0; done < outs; {
		var o []btc.Out
		for i := 0; i < perTx && done < outs; i++ {
			o = append(o, btc.Out{Value: int64(done) + 1<<(done%51), Script: btc.Bytes(22, 0)})
			copy(o[i].Script[4:], fmt.Sprint(done%addrs))
			done++
		}
		b.Spend(b.Take(1, true), o...)
	}
	b.Block(b.Coinbase(btc.Out{Value: 51, Script: chain.Script(1)}))
	b.Spend(b.Take(3, false), btc.Out{Value: 1, Script: chain.Script(0)})
	b.Spend(b.Take(3, true), btc.Out{Value: 1, Script: chain.Script(0)})
	for b.Do(6); len(b.Blocks) < 5; b.Do(0) {
		b.Spend(b.Take(2, true), btc.Out{Value: 1, Script: chain.Script(1)})
	}
	b.Relink()
	return b.Blocks
}

func enumerate(c *vk.Ctx) {
	debug.SetGCPercent(400)
	// every choice of optional integers
	steps := []int{1, 3, 4, 0, 5, 5}
	for bits := 0; bits < 1<<len(chain.BlkInts); bits++ {
		var blk []string
		for i, s := range chain.BlkInts {
			if bits>>i&1 != 0 {
				blk = append(blk, s)
			}
		}
		for tb := 0; tb < 1<<len(chain.TrnInts); tb++ {
			// quick: every choice for the blocks with one of the transactions, and the other way round
			if tb != bits%32 && !(bits%37 == 5 && bits < vk.Pick(c, 40, 256)) {
				continue
			}
			var trn []string
			for i, s := range chain.TrnInts {
				if tb>>i&1 != 0 {
					trn = append(trn, s)
				}
			}
			r := routes[2+(bits+tb)%2]
			r.Blk, r.Trn = blk, trn
			run(c, "integers", func() string { return fmt.Sprintf("%v %v through %s", blk, trn, r.Iface) }, r, func() []*btc.Block { return chain.Of(steps) }, false, false, false)
		}
	}
	// a requested integer that one block or transaction lacks
	for _, r := range routes[2:4] {
		for _, all := range [][]string{chain.BlkInts, chain.TrnInts} {
			for at := 0; at < len(chain.Describe(chain.Of(steps)).Tx); at++ {
				for _, name := range all {
					missing(c, r, steps, len(all) == len(chain.BlkInts), at, name)
				}
			}
		}
	}
	// median times over every order of a window's worth of timestamps is covered by many blocks with wandering times
	for _, nb := range []int{11, 12, 13, 23, 40, 300} {
		for ri, r := range routes {
			if nb > 100 && ri%3 != 0 {
				continue
			}
			r := r
			run(c, "long", func() string { return fmt.Sprintf("%d blocks through %s", nb, r) }, r, func() []*btc.Block {
				var s []int
				for i := 0; i < nb; i++ {
					s = append(s, i%2, 3+i%3)
				}
				return chain.Of(s)
			}, ri%2 == 0, ri == 3, false)
		}
	}
	// as if very many inputs and outputs were there already
	for i, base := range []int64{1<<16 - 2, 1<<24 - 3, 1<<31 - 2, 1<<32 - 3, 1<<32 + 1<<24, 1<<39 + 5, 1000000000000 - 100} {
		for ri, r := range routes {
			for k, s := range [][]int{steps, {0, 3, 3, 5, 4}, {3, 4, 5, 5, 5, 0, 1, 3}} {
				if !c.Thorough() && (i+ri+k)%3 != 0 || r.Ids == "height" { // (a model that states its own numbers would contradict them)
					continue
				}
				r, s := r, s
				r.BaseIn, r.BaseOut, r.Reopen = base, base+int64(i%2), k%2
				run(c, "far", func() string { return fmt.Sprintf("%s after %d inputs and outputs | %s", chain.Name(s), base, r) }, r, func() []*btc.Block { return chain.Of(s) }, i%2 == 0, false, c.Thorough())
			}
		}
	}
	// several address files: more addresses than one of their folders' files holds
	type shape struct{ outs, per, addrs int }
	shapes := []shape{{300, 300, 7}, {3000, 100, 999}, {700, 1, 300}, {66000, 33000, 500}, {65700, 65700, 65500}}
	if c.Thorough() {
		shapes = append(shapes, shape{100400, 400, 100300}, shape{200100, 20000, 100050})
	}
	for _, s := range shapes {
		for _, ri := range []int{0, 1, 4} {
			r := routes[ri]
			run(c, "big", func() string { return fmt.Sprintf("%v through %s", s, r) }, r, func() []*btc.Block { return big(s.outs, s.per, s.addrs) }, false, false, false)
		}
	}
	// every chain of so many steps, through routes in turn
	depth := vk.Pick(c, 3, 5)
	n := 0
	for d := 0; d <= depth; d++ {
		vk.Seqs(len(chain.Ops), d, func(seq []int) {
			s := append([]int(nil), seq...)
			n++
			for ri, r := range routes {
				// long chains go through one route each, in turn
				if d == depth && (ri+n)%len(routes) > vk.Pick(c, 1, 0) || d > 3 && ri%2 != n%2 {
					continue
				}
				r, live := r, (n+ri)%3 == 0
				if d > 0 && (n+3*ri)%len(routes) < vk.Pick(c, []int{8, 8, 3, 1, 0, 0}[d], []int{8, 8, 8, 2, 1, 1}[d]) {
					// stored in sessions: the store is closed and opened again between blocks
					r := r
					r.Reopen, r.SyncEvery = 1+(n+ri)%2*(d/3), 0
					run(c, "sessions", func() string { return chain.Name(s) + " | " + r.String() }, r, func() []*btc.Block { return chain.Of(s) }, live, false, false)
				}
				run(c, "chains", func() string { return chain.Name(s) + " | " + r.String() }, r, func() []*btc.Block { return chain.Of(s) }, live, n%13 == ri, c.Thorough() && d < 3)
			}
		})
	}
}

func main() {
	vk.Main(vk.Spec{
		Property: "C14",
		Rule:     "after ingesting a chain, every block, transaction, input, output, address and optional integer read back equals the source's",
		Bounds: func(tier string) map[string]any {
			return map[string]any{
				"chains":            "genesis followed by every sequence of up to 3 (thorough: 5) of 7 steps (coinbase to one or two addresses or with no outputs, a repeated coinbase, transactions spending the oldest, newest or two oldest outputs to fresh and repeated addresses); shorter chains through every one of 8 routes, the longest through two each in turn (thorough: length 4 through four, 5 through one)",
				"sessions":          "chains of up to 2 steps through every route, of 3 through one or more (thorough: 8), with the store closed and opened again after every block or every second",
				"optional integers": "every one of the 256 choices for blocks with some choice for transactions, and every one of the 32 for transactions with one (thorough: seven) for blocks",
				"missing":           "each block and transaction of a chain lacking each integer, through both interfaces",
				"far":               "chains numbered after 2^16-2 to 10^12-100 inputs and outputs (nearly all holes)",
				"size":              "chains of 11-40 and of 300 blocks; blocks of up to 700 transactions; transactions of up to 66000 outputs; up to 66000 (thorough: 200100) outputs to as many addresses",
			}
		},
		Assumptions: []string{
			"the hash of a later copy of a repeated transaction hash is not readable (documented), and an input spending a repeated hash may name either copy",
			"repeated transaction hashes only with delegated indexing, which is what ingestion uses",
			"optional integers are requested from sources that supply them",
		},
		CaseLimit: 60 * time.Second, QuickBudget: 200 * time.Second, ThoroughBudget: 14 * time.Minute, MemLimitGB: 3,
		Run: enumerate,
	})
}
