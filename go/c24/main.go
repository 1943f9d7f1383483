// C24: the built-in sample chain is coherent under every sequence of navigation calls.
package main

import (
	"fmt"

	cri "github.com/KitchenMishap/pudding-shed/chainreadinterface"
	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/tinychain"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

// The sample chain, written down by hand: three blocks; the transactions of each with what they spend and pay.
type outp struct{ tx, n int }
type txn struct {
	block int
	ins   []outp
	outs  []int64
}

var txs = []txn{
	{0, nil, []int64{50}},
	{1, nil, []int64{55}},
	{1, []outp{{0, 0}}, []int64{20, 25}},
	{2, nil, []int64{50}},
	{2, []outp{{5, 0}}, []int64{40}},
	{2, []outp{{2, 0}, {2, 1}}, []int64{45}},
}

const nBlocks = 3

func first(b int) int {
	for i := range txs {
		if txs[i].block == b {
			return i
		}
	}
	return len(txs)
}
func count(b int) int { return first(b+1) - first(b) }

// An object is a block, a transaction, an input or an output. -1 for no object (beyond an end).
type object struct {
	kind string
	i, n int // height; for inputs and outputs the transaction and the position
}

// A holder is a handle together with the object it must stand for.
type holder struct {
	object
	how string // the dynamic type: an object may be held as a bare handle or as the object itself
	h   any
}

func (h holder) key() string { return fmt.Sprintf("%v %s", h.object, h.how) }

type explorer struct {
	c     cri.IBlockChain
	t     *vk.T
	seen  map[string]bool
	queue []holder
	steps int
	maps  []*map[string]int64
}

func (x *explorer) found(o object, h any, err error, how string) {
	x.steps++
	if err != nil {
		x.t.Fail("%s: %v", how, err)
	}
	switch o.kind {
	case "block":
		b := h.(cri.IBlockHandle)
		if b.IsInvalid() != (o.i < 0) {
			x.t.Fail("%s: invalid=%v; want block %d", how, b.IsInvalid(), o.i)
		}
		if o.i >= 0 && (!b.HeightSpecified() || b.Height() != int64(o.i)) {
			x.t.Fail("%s: block %d; want %d", how, b.Height(), o.i)
		}
		if b.HashSpecified() {
			x.hash(o, b.Hash, how)
		}
	case "transaction":
		b := h.(cri.ITransHandle)
		if b.IsInvalid() != (o.i < 0) {
			x.t.Fail("%s: invalid=%v; want transaction %d", how, b.IsInvalid(), o.i)
		}
		if o.i >= 0 && (!b.HeightSpecified() || b.Height() != int64(o.i)) {
			x.t.Fail("%s: transaction %d; want %d", how, b.Height(), o.i)
		}
		if b.HashSpecified() {
			x.hash(o, b.Hash, how)
		}
		if b.IndicesPathSpecified() {
			if p, q := b.IndicesPath(); p != int64(txs[o.i].block) || q != int64(o.i-first(txs[o.i].block)) {
				x.t.Fail("%s: transaction %d is said to be number %d of block %d", how, o.i, q, p)
			}
		}
	case "input":
		p := h.(cri.ITxiHandle)
		x.part(o, p.ParentSpecified(), p.ParentTrans, p.ParentIndex, p.TxiHeightSpecified(), p.TxiHeight, how)
	case "output":
		p := h.(cri.ITxoHandle)
		x.part(o, p.ParentSpecified(), p.ParentTrans, p.ParentIndex, p.TxoHeightSpecified(), p.TxoHeight, how)
	}
	n := holder{o, fmt.Sprintf("%T", h), h}
	if k := n.key(); !x.seen[k] {
		x.seen[k] = true
		x.queue = append(x.queue, n)
		x.t.State(k)
		x.t.Tracef("%s: %s", how, k)
	}
}

func (x *explorer) hash(o object, f func() (ih.Sha256, error), how string) {
	if o.i < 0 {
		return
	}
	h, err := f()
	if err != nil {
		x.t.Fail("%s: hash: %v", how, err)
	}
	for j := 0; j < 9; j++ { // (each object's hash is that of its height)
		if (ih.HashOfInt(uint64(j)) == h) != (j == o.i) {
			x.t.Fail("%s: %s %d has the wrong hash", how, o.kind, o.i)
		}
	}
}

func (x *explorer) part(o object, parented bool, parent func() cri.ITransHandle, index func() int64, heighted bool, height func() int64, how string) {
	if !parented && !heighted {
		x.t.Fail("%s: the handle says neither parent nor height", how)
	}
	if parented {
		if index() != int64(o.n) {
			x.t.Fail("%s: number %d; want %d", how, index(), o.n)
		}
		x.found(object{"transaction", o.i, 0}, parent(), nil, how+", parent")
	}
	if heighted {
		n := o.n
		for i := 0; i < o.i; i++ {
			if o.kind == "input" {
				n += len(txs[i].ins)
			} else {
				n += len(txs[i].outs)
			}
		}
		if height() != int64(n) {
			x.t.Fail("%s: height %d; want %d", how, height(), n)
		}
	}
}

func eq[V comparable](x *explorer, got V, err error, want V, what string) {
	x.steps++
	if err != nil || got != want {
		x.t.Fail("%s: %v, %v; want %v", what, got, err, want)
	}
}

func (x *explorer) ints(f func() (*map[string]int64, error), want map[string]int64, how string) {
	m, err := f()
	if err != nil || m == nil || *m == nil {
		x.t.Fail("%s: integers: %v", how, err)
	}
	eq(x, fmt.Sprint(*m), nil, fmt.Sprint(want), how+": integers")
	// what a reader does to the answer it got changes no later answer
	for k := range *m {
		(*m)[k] = -77
	}
	(*m)["nothing"] = 1
}

func (x *explorer) block(h holder) {
	b := h.h.(cri.IBlockHandle)
	how := fmt.Sprintf("block %d (%s)", h.i, h.how)
	next, prev := h.i+1, h.i-1
	if next == nBlocks {
		next = -1
	}
	nh, err := x.c.NextBlock(b)
	x.found(object{"block", next, 0}, nh, err, "next of "+how)
	x.found(object{"block", prev, 0}, x.c.ParentBlock(b), nil, "parent of "+how)
	bl, err := x.c.BlockInterface(b)
	x.found(object{"block", h.i, 0}, bl, err, how)
	for _, o := range []any{h.h, bl} {
		bl, is := o.(cri.IBlock)
		if !is {
			continue
		}
		n, err := bl.TransactionCount()
		eq(x, n, err, int64(count(h.i)), how+": transactions")
		for i := int64(0); i < n; i++ {
			th, err := bl.NthTransaction(i)
			x.found(object{"transaction", first(h.i) + int(i), 0}, th, err, fmt.Sprintf("transaction %d of %s", i, how))
		}
		for _, i := range []int64{-1, n, n + 1} {
			x.none(fmt.Sprintf("transaction %d of %s", i, how), func() (any, error) { return bl.NthTransaction(i) })
		}
		x.ints(bl.NonEssentialInts, map[string]int64{"size": 285, "time": 12345}, how)
	}
}

// none asks for something that is not there: an error, a panic or a handle that says so are all right, but no object.
func (x *explorer) none(what string, f func() (any, error)) {
	x.steps++
	var got any
	var err error
	if vk.Try(func() { got, err = f() }) != nil || err != nil {
		return
	}
	switch h := got.(type) {
	case nil:
		return
	case cri.IBlockHandle:
		if h.IsInvalid() {
			return
		}
	case cri.ITransHandle:
		if h.IsInvalid() {
			return
		}
	}
	x.t.Fail("%s: there is none, but %T %v is answered", what, got, got)
}

func (x *explorer) trans(h holder) {
	th := h.h.(cri.ITransHandle)
	how := fmt.Sprintf("transaction %d (%s)", h.i, h.how)
	next, prev := h.i+1, h.i-1
	if next == len(txs) {
		next = -1
	}
	nh, err := x.c.NextTransaction(th)
	x.found(object{"transaction", next, 0}, nh, err, "next of "+how)
	x.found(object{"transaction", prev, 0}, x.c.PreviousTransaction(th), nil, "previous of "+how)
	tr, err := x.c.TransInterface(th)
	x.found(object{"transaction", h.i, 0}, tr, err, how)
	f := txs[h.i]
	for _, o := range []any{h.h, tr} {
		tr, is := o.(cri.ITransaction)
		if !is {
			continue
		}
		ni, err := tr.TxiCount()
		eq(x, ni, err, int64(len(f.ins)), how+": inputs")
		no, err := tr.TxoCount()
		eq(x, no, err, int64(len(f.outs)), how+": outputs")
		for i := int64(0); i < ni; i++ {
			p, err := tr.NthTxi(i)
			x.found(object{"input", h.i, int(i)}, p, err, fmt.Sprintf("input %d of %s", i, how))
		}
		for i := int64(0); i < no; i++ {
			p, err := tr.NthTxo(i)
			x.found(object{"output", h.i, int(i)}, p, err, fmt.Sprintf("output %d of %s", i, how))
		}
		var sats []int64
		if p := vk.Try(func() { sats, err = tr.AllTxoSatoshis() }); p != nil {
			x.t.Fail("%s: amounts of the outputs: panic: %v", how, p)
		}
		eq(x, fmt.Sprint(sats), err, fmt.Sprint(f.outs), how+": amounts")
		for i := range sats {
			sats[i] = -5
		}
		for _, i := range []int64{-1, ni, ni + 1} {
			x.none(fmt.Sprintf("input %d of %s", i, how), func() (any, error) { return tr.NthTxi(i) })
		}
		for _, i := range []int64{-1, no, no + 1} {
			x.none(fmt.Sprintf("output %d of %s", i, how), func() (any, error) { return tr.NthTxo(i) })
		}
		x.ints(tr.NonEssentialInts, map[string]int64{"version": 2, "vsize": 123}, how)
	}
}

func (x *explorer) step(h holder) {
	if h.i < 0 {
		return // beyond an end
	}
	switch h.kind {
	case "block":
		x.block(h)
	case "transaction":
		x.trans(h)
	case "input":
		in, err := x.c.TxiInterface(h.h.(cri.ITxiHandle))
		x.found(h.object, in, err, h.key())
		src := txs[h.i].ins[h.n]
		for _, o := range []any{h.h, in} {
			if in, is := o.(cri.ITxi); is {
				s, err := in.SourceTxo()
				x.found(object{"output", src.tx, src.n}, s, err, "source of "+h.key())
			}
		}
	case "output":
		out, err := x.c.TxoInterface(h.h.(cri.ITxoHandle))
		x.found(h.object, out, err, h.key())
		for _, o := range []any{h.h, out} {
			if out, is := o.(cri.ITxo); is {
				s, err := out.Satoshis()
				eq(x, s, err, txs[h.i].outs[h.n], h.key()+": amount")
				x.none("address of "+h.key(), func() (any, error) { return out.Address() })
			}
		}
	}
}

// handles made by others
type other struct {
	height   int64
	hash     ih.Sha256
	byHeight bool
	byHash   bool
}

func (a *other) Height() int64               { return a.height }
func (a *other) Hash() (ih.Sha256, error)    { return a.hash, nil }
func (a *other) HeightSpecified() bool       { return a.byHeight }
func (a *other) HashSpecified() bool         { return a.byHash }
func (a *other) IsBlockHandle()              {}
func (a *other) IsTransHandle()              {}
func (a *other) IsInvalid() bool             { return false }
func (a *other) IndicesPath() (int64, int64) { return -1, -1 }
func (a *other) IndicesPathSpecified() bool  { return false }

type otherPart struct {
	parent    cri.ITransHandle
	index     int64
	height    int64
	byHeight  bool
	byParent  bool
	path      [3]int64
	pathKnown bool
}

func (p *otherPart) ParentTrans() cri.ITransHandle { return p.parent }
func (p *otherPart) ParentIndex() int64            { return p.index }
func (p *otherPart) TxiHeight() int64              { return p.height }
func (p *otherPart) TxoHeight() int64              { return p.height }
func (p *otherPart) IndicesPath() (int64, int64, int64) {
	return p.path[0], p.path[1], p.path[2]
}
func (p *otherPart) ParentSpecified() bool      { return p.byParent }
func (p *otherPart) TxiHeightSpecified() bool   { return p.byHeight }
func (p *otherPart) TxoHeightSpecified() bool   { return p.byHeight }
func (p *otherPart) IndicesPathSpecified() bool { return p.pathKnown }

func (x *explorer) closure(order int) {
	b := x.c.GenesisBlock()
	x.found(object{"block", 0, 0}, b, nil, "genesis block")
	b, err := x.c.LatestBlock()
	x.found(object{"block", nBlocks - 1, 0}, b, err, "latest block")
	th, err := x.c.GenesisTransaction()
	x.found(object{"transaction", 0, 0}, th, err, "genesis transaction")
	th, err = x.c.LatestTransaction()
	x.found(object{"transaction", len(txs) - 1, 0}, th, err, "latest transaction")
	x.found(object{"block", -1, 0}, x.c.InvalidBlock(), nil, "the invalid block")
	x.found(object{"transaction", -1, 0}, x.c.InvalidTrans(), nil, "the invalid transaction")
	eq(x, x.c.IsBlockTree(), nil, false, "is it a tree of blocks")
	for len(x.queue) > 0 {
		i := 0
		if order == 1 {
			i = len(x.queue) - 1
		}
		h := x.queue[i]
		x.queue = append(x.queue[:i:i], x.queue[i+1:]...)
		x.step(h)
	}
	// every object was reached
	want := map[string]int{"block": nBlocks + 1, "transaction": len(txs) + 1, "input": 0, "output": 0}
	for _, f := range txs {
		want["input"] += len(f.ins)
		want["output"] += len(f.outs)
	}
	got := map[string]map[object]bool{}
	for k := range x.seen {
		var o object
		var how string
		fmt.Sscanf(k, "{%s %d %d} %s", &o.kind, &o.i, &o.n, &how)
		if got[o.kind] == nil {
			got[o.kind] = map[object]bool{}
		}
		got[o.kind][o] = true
	}
	for k, n := range want {
		eq(x, len(got[k]), nil, n, "different objects reached: "+k)
	}
}

func main() {
	vk.Main(vk.Spec{
		Property: "C24",
		Rule:     "closure: a state is (object, kind of handle it is held by); from the entry points every call of the interface is made on every state until no new state appears (exploring oldest first and newest first, twice each on one chain value); strangers: one case per handle made elsewhere, for every height, position, hash and combination of stated parts in a range around the chain's objects",
		Bounds: func(tier string) map[string]any {
			return map[string]any{"closure": "unbounded depth (finite state space, explored completely)", "handles made elsewhere": "heights and positions from -2 to 9 and four large ones; hashes of the numbers 0 to 8"}
		},
		Shards: 4,
		Run: func(c *vk.Ctx) {
			for order := 0; order < 4; order++ {
				c.Case("closure", func() string { return fmt.Sprintf("order %d, round %d", order%2, order/2) }, func(t *vk.T) {
					for round := 0; round <= order/2; round++ {
						x := &explorer{c: tinychain.TheTinyChain, t: t, seen: map[string]bool{}}
						x.closure(order % 2)
						t.Step(x.steps)
						t.Outcome(fmt.Sprintf("%d states", len(x.seen)))
					}
					t.Nontrivial()
				})
			}
			heights := []int64{-2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 1 << 31, 1 << 32, 1<<62 + 1, -1 << 63}
			ch := tinychain.TheTinyChain
			// what is identified is answered right; what is not is not answered
			judge := func(t *vk.T, kind string, h any, o object, exists bool, f func() (any, error)) {
				x := &explorer{c: ch, t: t, seen: map[string]bool{}}
				what := fmt.Sprintf("%s by %+v", kind, h)
				if !exists {
					x.none(what, f)
					t.Outcome("identifies nothing")
				} else {
					var got any
					var err error
					if p := vk.Try(func() { got, err = f() }); p != nil {
						t.Fail("%s: panic: %v", what, p)
					}
					x.found(o, got, err, what)
					x.step(x.queue[0])
					t.Outcome("identifies an object")
				}
				t.Step(x.steps)
				t.State(kind, what)
				t.Nontrivial()
			}
			for _, ht := range heights {
				for _, by := range []int{0, 1, 2, 3} {
					h := &other{height: ht, byHeight: by&1 != 0, byHash: by&2 != 0}
					if ht >= 0 && ht < 100 {
						h.hash = ih.HashOfInt(uint64(ht))
					}
					if by&1 == 0 && by&2 == 0 || by&2 != 0 && by&1 == 0 {
						// this chain takes handles by height only: any other must be refused
						h.height = 1
					}
					c.Case("block by a handle made elsewhere", func() string { return fmt.Sprintf("%+v", h) }, func(t *vk.T) {
						judge(t, "block", h, object{"block", int(ht), 0}, by&1 != 0 && ht >= 0 && ht < nBlocks, func() (any, error) { return ch.BlockInterface(h) })
					})
					c.Case("transaction by a handle made elsewhere", func() string { return fmt.Sprintf("%+v", h) }, func(t *vk.T) {
						judge(t, "transaction", h, object{"transaction", int(ht), 0}, by&1 != 0 && ht >= 0 && ht < int64(len(txs)), func() (any, error) { return ch.TransInterface(h) })
					})
					for _, n := range heights {
						for _, how := range []int{0, 1, 2, 3} {
							p := &otherPart{parent: h, index: n, height: 0, byParent: how&1 != 0, byHeight: how&2 != 0}
							ok := by&1 != 0 && how&1 != 0 && ht >= 0 && ht < int64(len(txs)) && n >= 0
							o := object{"input", int(ht), int(n)}
							if how&2 != 0 && ok {
								// consistent height
								in, out := int64(0), int64(0)
								for i := int64(0); i < ht; i++ {
									in += int64(len(txs[i].ins))
									out += int64(len(txs[i].outs))
								}
								p.height = in + n
							}
							c.Case("input by a handle made elsewhere", func() string { return fmt.Sprintf("%+v of %+v", p, h) }, func(t *vk.T) {
								judge(t, "input", p, o, ok && n < int64(len(txs[ht].ins)), func() (any, error) { return ch.TxiInterface(p) })
							})
							q := *p
							if how&2 != 0 && ok {
								out := int64(0)
								for i := int64(0); i < ht; i++ {
									out += int64(len(txs[i].outs))
								}
								q.height = out + n
							}
							c.Case("output by a handle made elsewhere", func() string { return fmt.Sprintf("%+v of %+v", &q, h) }, func(t *vk.T) {
								judge(t, "output", &q, object{"output", int(ht), int(n)}, ok && n < int64(len(txs[ht].outs)), func() (any, error) { return ch.TxoInterface(&q) })
							})
						}
					}
				}
			}
		},
	})
}
