package xchain

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"

	cri "github.com/KitchenMishap/pudding-shed/chainreadinterface"
	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
)

// Reads counts the queries made, for the evidence.
var Reads int

type checker struct {
	v       *View
	w       *World
	r       Route
	upto    int // blocks ingested
	txs     int // their transactions
	passing bool
	held    bool // later blocks may be there in part
	most    int  // the most used address; -1: not yet worked out
	other   int
	hashed  bool // an output's address was asked for its hash
}

func bad(format string, a ...any) { panic(fmt.Errorf(format, a...)) }

// Reported is an error that the view itself reported (as against a wrong answer).
type Reported struct{ error }

func ok[T any](v T, err error) func(what string, a ...any) T {
	return func(what string, a ...any) T {
		Reads++
		if err != nil {
			panic(Reported{fmt.Errorf("%s: %w", fmt.Sprintf(what, a...), err)})
		}
		return v
	}
}

func eq[T comparable](got, want T, what string, a ...any) {
	if got != want {
		bad("%s is %v, want %v", fmt.Sprintf(what, a...), got, want)
	}
}

// where is the innermost function of the repository on the panicking stack.
func where() string {
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/pudding-shed/") && !strings.Contains(l, "zz_verif") && !strings.HasPrefix(l, "\t") {
			return l[strings.Index(l, "/pudding-shed/")+14:]
		}
	}
	return "?"
}

func catch(f func()) (err error) {
	defer func() {
		if x := recover(); x != nil {
			if e, is := x.(error); is {
				err = e
				if _, rt := x.(interface{ RuntimeError() }); rt {
					err = fmt.Errorf("panic: %v at %s", e, where())
				}
				return
			}
			err = fmt.Errorf("panic: %v", x)
		}
	}()
	f()
	return nil
}

func newChecker(v *View, w *World, r Route, blocks int) *checker {
	c := &checker{most: -1, v: v, w: w, r: r, upto: blocks}
	if blocks < len(w.Blocks) {
		c.txs = w.Blocks[blocks].First
	} else {
		c.txs = len(w.Tx)
	}
	return c
}

// Facts compares everything the view says about the first blocks with the chain. While the chain is still being
// ingested (blocks < all), the counts of the newest block are not yet known and are left out.
func Facts(v *View, w *World, r Route, blocks int) error {
	return catch(func() { newChecker(v, w, r, blocks).facts() })
}

// PassingFacts is Facts for a view that is looked at between appends.
func PassingFacts(v *View, w *World, r Route, blocks int) error {
	return catch(func() {
		c := newChecker(v, w, r, blocks)
		c.passing = true
		c.facts()
	})
}

// HeldFacts is PassingFacts for a view in which parts of later blocks may already be there.
func HeldFacts(v *View, w *World, r Route, blocks int) error {
	return catch(func() {
		c := newChecker(v, w, r, blocks)
		c.passing, c.held = true, true
		c.facts()
	})
}

func (c *checker) all() bool { return c.upto == len(c.w.Blocks) }

func (c *checker) facts() {
	if c.all() {
		eq(ok(c.v.C.LatestBlock())("latest block").Height(), int64(c.upto-1), "latest block's height")
		eq(ok(c.v.C.LatestTransaction())("latest transaction").Height(), int64(c.txs-1), "latest transaction's height")
	}
	h := c.v.C.GenesisBlock()
	for b := 0; b < c.upto; b++ {
		f := &c.w.Blocks[b]
		if h.IsInvalid() {
			bad("the chain ends before block %d", b)
		}
		bl := ok(c.v.C.BlockInterface(h))("block %d", b)
		eq(ok(bl.Hash())("hash of block %d", b), f.Hash, "hash of block %d", b)
		eq(bl.Height(), int64(b), "height of block %d", b)
		eq(ints(ok(bl.NonEssentialInts())("integers of block %d", b)), wantInts(f.Ints, c.r.Blk), "integers of block %d", b)
		if c.all() || b < c.upto-1 {
			eq(ok(bl.TransactionCount())("transactions of block %d", b), int64(f.Txs), "transaction count of block %d", b)
		}
		for i := 0; i < f.Txs; i++ {
			th := ok(bl.NthTransaction(int64(i)))("transaction %d of block %d", i, b)
			eq(th.Height(), int64(f.First+i), "height of transaction %d of block %d", i, b)
			c.trans(th)
			c.parents(b, f.First+i)
		}
		if b+1 < c.upto || c.all() {
			h = ok(c.v.C.NextBlock(h))("block after %d", b)
		}
	}
	if c.all() && !h.IsInvalid() {
		bad("the chain goes on after its last block")
	}
	// addresses
	outs := len(c.w.Out)
	if c.txs < len(c.w.Tx) {
		outs = c.w.Tx[c.txs].FirstOut
	}
	for a := 0; a < outs; a++ {
		if c.w.Out[a].Addr == a && c.lookUp(a, outs) {
			c.address(a, outs, a%4)
		}
	}
	if f := c.v.F; f != nil && c.all() {
		for _, x := range []struct {
			name string
			base int64
			n    int
			got  func() (int64, error)
			at   func(i int64) (int64, error)
			want func(i int) int64
		}{
			{"amounts", c.r.BaseOut, len(c.w.Out), f.TxoSatsFile().CountWords, f.TxoSatsFile().ReadWordAt, func(i int) int64 { return c.w.Out[i].Sats }},
			{"input indices", c.r.BaseIn, len(c.w.In), f.TxiVoutFile().CountWords, f.TxiVoutFile().ReadWordAt, func(i int) int64 { return c.w.In[i].Vout }},
			{"first inputs", 0, len(c.w.Tx), f.TransFirstTxiFile().CountWords, f.TransFirstTxiFile().ReadWordAt, func(i int) int64 { return c.r.BaseIn + int64(c.w.Tx[i].FirstIn) }},
			{"first outputs", 0, len(c.w.Tx), f.TransFirstTxoFile().CountWords, f.TransFirstTxoFile().ReadWordAt, func(i int) int64 { return c.r.BaseOut + int64(c.w.Tx[i].FirstOut) }},
		} {
			eq(ok(x.got())("count of %s", x.name), x.base+int64(x.n), "count of %s", x.name)
			for i := 0; i < x.n; i++ {
				eq(ok(x.at(x.base+int64(i)))("%s %d", x.name, i), x.want(i), "%s %d", x.name, i)
			}
		}
		eq(ok(f.TxiTxFile().CountWords())("count of inputs"), c.r.BaseIn+int64(len(c.w.In)), "count of inputs")
		for i := range c.w.In {
			if s := ok(f.TxiTxFile().ReadWordAt(c.r.BaseIn+int64(i)))("source of input %d", i); !c.w.In[i].Sources[s] {
				bad("input %d is said to spend transaction %d; want one of %v", i, s, c.w.In[i].Sources)
			}
		}
	}
}

// AllAddresses makes every view look every address up (slow: a look-up reads a file of 100,000 lists). Otherwise
// each view looks up the most used address and one other in turn, and views between appends only now and then.
var AllAddresses bool

func (c *checker) lookUp(a, outs int) bool {
	if AllAddresses {
		return true
	}
	if c.passing && !c.held && (c.upto+outs)%4 != 0 {
		return false
	}
	if c.most < 0 {
		most, n := 0, 0
		distinct := []int{}
		for k := range c.w.AddrOuts {
			if k >= outs {
				continue
			}
			distinct = append(distinct, k)
			if l := len(c.w.AddrOuts[k]); l > n || l == n && k < most {
				most, n = k, l
			}
		}
		sort.Ints(distinct)
		c.most = most
		c.other = most
		if len(distinct) > 0 {
			c.other = distinct[(outs+c.txs)%len(distinct)]
		}
	}
	return a == c.most || !c.passing && a == c.other
}

func (c *checker) trans(th cri.ITransHandle) {
	n := int(th.Height())
	f := &c.w.Tx[n]
	t := ok(c.v.C.TransInterface(th))("transaction %d", n)
	eq(t.Height(), int64(n), "height of transaction %d", n)
	if !f.Copy { // of transactions with equal hashes, only the first is reachable by it
		eq(ok(t.Hash())("hash of transaction %d", n), f.Id, "hash of transaction %d", n)
	}
	eq(ints(ok(t.NonEssentialInts())("integers of transaction %d", n)), wantInts(f.Ints, c.r.Trn), "integers of transaction %d", n)
	if c.all() || n < c.txs-1 {
		eq(ok(t.TxiCount())("inputs of transaction %d", n), int64(f.Ins), "input count of transaction %d", n)
		eq(ok(t.TxoCount())("outputs of transaction %d", n), int64(f.Outs), "output count of transaction %d", n)
		sats := ok(t.AllTxoSatoshis())("amounts of transaction %d", n)
		eq(len(sats), f.Outs, "number of amounts of transaction %d", n)
		for i := range sats {
			eq(sats[i], c.w.Out[f.FirstOut+i].Sats, "amount %d of transaction %d", i, n)
		}
	}
	for i := 0; i < f.Ins; i++ {
		in := ok(c.v.C.TxiInterface(ok(t.NthTxi(int64(i)))("input %d of transaction %d", i, n)))("input %d of transaction %d", i, n)
		eq(in.TxiHeight(), c.r.BaseIn+int64(f.FirstIn+i), "height of input %d of transaction %d", i, n)
		c.input(in)
	}
	for i := 0; i < f.Outs; i++ {
		out := ok(c.v.C.TxoInterface(ok(t.NthTxo(int64(i)))("output %d of transaction %d", i, n)))("output %d of transaction %d", i, n)
		eq(out.TxoHeight(), c.r.BaseOut+int64(f.FirstOut+i), "height of output %d of transaction %d", i, n)
		c.output(out)
	}
}

// parents checks what the view says about what a transaction, its inputs and its outputs belong to. Views between
// appends are asked only when parts of later blocks may be there (the others would be asked much too often).
func (c *checker) parents(b, n int) {
	p := c.v.P
	if p == nil || !c.held {
		return
	}
	f := &c.w.Tx[n]
	eq(ok(p.ParentBlockOfTrans(int64(n)))("parent block of transaction %d", n), int64(b), "parent block of transaction %d", n)
	for i := 0; i < f.Ins; i++ {
		eq(ok(p.ParentTransOfTxi(c.r.BaseIn+int64(f.FirstIn+i)))("parent of input %d", f.FirstIn+i), int64(n), "parent of input %d", f.FirstIn+i)
	}
	for i := 0; i < f.Outs; i++ {
		eq(ok(p.ParentTransOfTxo(c.r.BaseOut+int64(f.FirstOut+i)))("parent of output %d", f.FirstOut+i), int64(n), "parent of output %d", f.FirstOut+i)
	}
}

func (c *checker) input(in cri.ITxi) {
	n := int(in.TxiHeight() - c.r.BaseIn)
	f := &c.w.In[n]
	src := ok(in.SourceTxo())("source of input %d", n)
	if !src.ParentSpecified() {
		bad("the source of input %d does not say its transaction", n)
	}
	st := src.ParentTrans().Height()
	if !f.Sources[st] {
		bad("input %d is said to spend transaction %d; want one of %v", n, st, f.Sources)
	}
	eq(src.ParentIndex(), f.Vout, "output index spent by input %d", n)
	// and following it leads to that output
	o := ok(c.v.C.TxoInterface(src))("source output of input %d", n)
	eq(o.TxoHeight(), c.r.BaseOut+int64(c.w.Tx[st].FirstOut)+f.Vout, "height of the output spent by input %d", n)
	c.output(o)
}

func (c *checker) output(o cri.ITxo) {
	n := int(o.TxoHeight() - c.r.BaseOut)
	f := &c.w.Out[n]
	eq(ok(o.Satoshis())("amount of output %d", n), f.Sats, "amount of output %d", n)
	ah := ok(o.Address())("address of output %d", n)
	eq(ah.Height(), int64(f.Addr), "address of output %d", n)
	a := ok(c.v.C.AddressInterface(ah))("address of output %d", n)
	// (asking an address for its hash loads a whole file of lists, so not every output every time)
	if AllAddresses || !c.hashed && (n+c.txs)%3 == 0 {
		c.hashed = true
		eq(a.Hash(), c.w.AddrHash[n], "address hash of output %d", n)
	}
}

func (c *checker) address(a int, outs int, way int) {
	var want []int64
	for _, o := range c.w.AddrOuts[a] {
		if o < int64(outs) {
			want = append(want, o)
		}
	}
	ways := []cri.IAddressHandle{&forAddr{height: int64(a), hs: true}, &forAddr{hash: c.w.AddrHash[a], hashS: true}}
	if c.v.H != nil {
		ways = append(ways, ok(c.v.H.AddressHandleByHeight(int64(a)))("address %d by height", a),
			ok(c.v.H.AddressHandleByHash(c.w.AddrHash[a]))("address %d by hash", a))
	}
	for i, h := range ways {
		if way >= 0 && i != way%len(ways) {
			continue
		}
		ad := ok(c.v.C.AddressInterface(h))("address %d", a)
		if n := ok(ad.TxoCount())("outputs of address %d (way %d)", a, i); c.held && n > int64(len(want)) && n <= int64(len(c.w.AddrOuts[a])) {
			// outputs of blocks that were not finished
		} else {
			eq(n, int64(len(want)), "number of outputs of address %d (way %d)", a, i)
		}
		for j := range want {
			o := ok(ad.NthTxo(int64(j)))("output %d of address %d", j, a)
			eq(o.TxoHeight(), c.r.BaseOut+want[j], "output %d of address %d (way %d)", j, a, i)
		}
		eq(ad.Hash(), c.w.AddrHash[a], "hash of address %d (way %d)", a, i)
	}
}

// handles that come from somewhere else
type forAddr struct {
	height    int64
	hash      Hash
	hs, hashS bool
}

func (a *forAddr) Height() int64         { return a.height }
func (a *forAddr) Hash() ih.Sha256       { return a.hash }
func (a *forAddr) HeightSpecified() bool { return a.hs }
func (a *forAddr) HashSpecified() bool   { return a.hashS }

type forObj struct {
	height    int64
	hash      Hash
	hs, hashS bool
}

func (a *forObj) Height() int64               { return a.height }
func (a *forObj) Hash() (ih.Sha256, error)    { return a.hash, nil }
func (a *forObj) HeightSpecified() bool       { return a.hs }
func (a *forObj) HashSpecified() bool         { return a.hashS }
func (a *forObj) IsBlockHandle()              {}
func (a *forObj) IsTransHandle()              {}
func (a *forObj) IsInvalid() bool             { return false }
func (a *forObj) IndicesPath() (int64, int64) { return -1, -1 }
func (a *forObj) IndicesPathSpecified() bool  { return false }

type forPart struct {
	parent cri.ITransHandle
	index  int64
	height int64
	hs     bool
}

func (p *forPart) ParentTrans() cri.ITransHandle      { return p.parent }
func (p *forPart) ParentIndex() int64                 { return p.index }
func (p *forPart) TxiHeight() int64                   { return p.height }
func (p *forPart) TxoHeight() int64                   { return p.height }
func (p *forPart) IndicesPath() (int64, int64, int64) { return -1, -1, -1 }
func (p *forPart) ParentSpecified() bool              { return !p.hs }
func (p *forPart) TxiHeightSpecified() bool           { return p.hs }
func (p *forPart) TxoHeightSpecified() bool           { return p.hs }
func (p *forPart) IndicesPathSpecified() bool         { return false }

// Navigation checks that moving about the fully ingested chain is consistent in every direction.
func Navigation(v *View, w *World, r Route) error {
	return catch(func() { newChecker(v, w, r, len(w.Blocks)).navigation() })
}

func (c *checker) block(h cri.IBlockHandle, n int, how string, a ...any) {
	what := fmt.Sprintf(how, a...)
	if h.IsInvalid() {
		bad("block %d reached by %s is called invalid", n, what)
	}
	if h.HeightSpecified() {
		eq(h.Height(), int64(n), "height of the block reached by %s", what)
	}
	if h.HashSpecified() {
		eq(ok(h.Hash())("hash of the block reached by %s", what), c.w.Blocks[n].Hash, "hash of the block reached by %s", what)
	}
	b := ok(c.v.C.BlockInterface(h))("block reached by %s", what)
	eq(b.Height(), int64(n), "height of the block reached by %s", what)
	eq(ok(b.Hash())("hash of the block reached by %s", what), c.w.Blocks[n].Hash, "hash of the block reached by %s", what)
	eq(ok(b.TransactionCount())("count"), int64(c.w.Blocks[n].Txs), "transaction count of the block reached by %s", what)
	eq(b.IsInvalid(), false, "validity of the block reached by %s", what)
}

func (c *checker) tx(h cri.ITransHandle, n int, how string, a ...any) {
	what := fmt.Sprintf(how, a...)
	if h.IsInvalid() {
		bad("transaction %d reached by %s is called invalid", n, what)
	}
	if h.HeightSpecified() {
		eq(h.Height(), int64(n), "height of the transaction reached by %s", what)
	}
	if h.IndicesPathSpecified() {
		b, i := h.IndicesPath()
		eq([2]int64{b, i}, [2]int64{int64(c.w.Tx[n].Block), int64(c.w.Tx[n].Pos)}, "path of the transaction reached by %s", what)
	}
	t := ok(c.v.C.TransInterface(h))("transaction reached by %s", what)
	eq(t.Height(), int64(n), "height of the transaction reached by %s", what)
	if !c.w.Tx[n].Copy {
		if h.HashSpecified() {
			eq(ok(h.Hash())("hash of the transaction reached by %s", what), c.w.Tx[n].Id, "hash of the transaction reached by %s", what)
		}
		eq(ok(t.Hash())("hash of the transaction reached by %s", what), c.w.Tx[n].Id, "hash of the transaction reached by %s", what)
	}
	eq(ok(t.TxoCount())("outputs"), int64(c.w.Tx[n].Outs), "output count of the transaction reached by %s", what)
	eq(ok(t.TxiCount())("inputs"), int64(c.w.Tx[n].Ins), "input count of the transaction reached by %s", what)
	eq(t.IsInvalid(), false, "validity of the transaction reached by %s", what)
}

// partSays checks what (a handle of) an input or output says of itself: its transaction and place there, its height, its path.
func (c *checker) partSays(parent func() cri.ITransHandle, index func() int64, ps bool, height func() int64, hs bool, path func() (int64, int64, int64), is bool, trans int, i, g int64, what string) {
	f := &c.w.Tx[trans]
	if ps {
		c.tx(parent(), trans, "the parent that %s names", what)
		eq(index(), i, "the index that %s says it has", what)
	}
	if hs {
		eq(height(), g, "the height that %s says it has", what)
	}
	if is {
		x, y, z := path()
		eq([3]int64{x, y, z}, [3]int64{int64(f.Block), int64(f.Pos), i}, "the path that %s says it has", what)
	}
	if !ps && !hs && !is {
		bad("%s does not say what it is", what)
	}
}

func (c *checker) inSays(h cri.ITxiHandle, trans int, i, g int64, what string) {
	c.partSays(h.ParentTrans, h.ParentIndex, h.ParentSpecified(), h.TxiHeight, h.TxiHeightSpecified(), h.IndicesPath, h.IndicesPathSpecified(), trans, i, g, what)
}

func (c *checker) outSays(h cri.ITxoHandle, trans int, i, g int64, what string) {
	c.partSays(h.ParentTrans, h.ParentIndex, h.ParentSpecified(), h.TxoHeight, h.TxoHeightSpecified(), h.IndicesPath, h.IndicesPathSpecified(), trans, i, g, what)
}

func near(h Hash, n int) Hash {
	h[n] ^= 1
	return h
}

func (c *checker) navigation() {
	v, w := c.v, c.w
	nb, nt := len(w.Blocks), len(w.Tx)
	eq(v.C.IsBlockTree(), false, "being a tree")
	// the ends
	if !v.C.InvalidBlock().IsInvalid() || !v.C.InvalidTrans().IsInvalid() {
		bad("the invalid handles are called valid")
	}
	if !v.C.ParentBlock(v.C.GenesisBlock()).IsInvalid() {
		bad("the genesis block has a parent")
	}
	if !v.C.ParentBlock(v.C.InvalidBlock()).IsInvalid() {
		bad("the invalid block has a parent")
	}
	gt := ok(v.C.GenesisTransaction())("genesis transaction")
	if !v.C.PreviousTransaction(gt).IsInvalid() || !v.C.PreviousTransaction(v.C.InvalidTrans()).IsInvalid() {
		bad("a transaction precedes the first")
	}
	c.block(v.C.GenesisBlock(), 0, "genesis")
	c.tx(gt, 0, "genesis")
	lb := ok(v.C.LatestBlock())("latest block")
	c.block(lb, nb-1, "latest")
	lt := ok(v.C.LatestTransaction())("latest transaction")
	c.tx(lt, nt-1, "latest")
	if !ok(v.C.NextBlock(lb))("after the latest").IsInvalid() {
		bad("a block follows the latest")
	}
	if !ok(v.C.NextTransaction(lt))("after the latest").IsInvalid() {
		bad("a transaction follows the latest")
	}
	// blocks
	for b := 0; b < nb; b++ {
		f := &w.Blocks[b]
		ways := []cri.IBlockHandle{&forObj{height: int64(b), hs: true}, &forObj{hash: f.Hash, hashS: true}}
		if v.H != nil {
			ways = append(ways, ok(v.H.BlockHandleByHeight(int64(b)))("by height"), ok(v.H.BlockHandleByHash(f.Hash))("block %d by hash", b))
		}
		own := ok(v.C.BlockInterface(&forObj{height: int64(b), hs: true}))("block %d", b)
		ways = append(ways, own)
		for i, h := range ways {
			c.block(h, b, "block %d, way %d", b, i)
			if !h.HeightSpecified() {
				continue
			}
			if b+1 < nb {
				c.block(ok(v.C.NextBlock(h))("after block %d", b), b+1, "next of block %d, way %d", b, i)
			} else if !ok(v.C.NextBlock(h))("after block %d", b).IsInvalid() {
				bad("a block follows the latest, way %d", i)
			}
			if b > 0 {
				c.block(v.C.ParentBlock(h), b-1, "parent of block %d, way %d", b, i)
			} else if !v.C.ParentBlock(h).IsInvalid() {
				bad("the genesis block has a parent, way %d", i)
			}
		}
		for i := 0; i < f.Txs; i++ {
			c.tx(ok(own.NthTransaction(int64(i)))("transaction %d of block %d", i, b), f.First+i, "transaction %d of block %d", i, b)
			if v.P != nil {
				eq(ok(v.P.ParentBlockOfTrans(int64(f.First+i)))("parent block of transaction %d", f.First+i), int64(b), "parent block of transaction %d", f.First+i)
			}
		}
	}
	// transactions
	first := map[Hash]int{}
	for n := 0; n < nt; n++ {
		f := &w.Tx[n]
		if !f.Copy {
			first[f.Id] = n
		}
		c.tx(&forObj{height: int64(n), hs: true}, n, "height")
		c.tx(&forObj{hash: f.Id, hashS: true}, first[f.Id], "hash of transaction %d", n)
		ways := []cri.ITransHandle{&forObj{height: int64(n), hs: true}}
		if v.H != nil {
			c.tx(ok(v.H.TransactionHandleByHash(f.Id))("transaction %d by hash", n), first[f.Id], "hash of transaction %d", n)
			ways = append(ways, ok(v.H.TransactionHandleByHeight(int64(n)))("by height"))
		}
		t := ok(v.C.TransInterface(ways[0]))("transaction %d", n)
		ways = append(ways, t)
		for i, h := range ways {
			c.tx(h, n, "transaction %d, way %d", n, i)
			if n+1 < nt {
				c.tx(ok(v.C.NextTransaction(h))("after transaction %d", n), n+1, "next of transaction %d, way %d", n, i)
			} else if !ok(v.C.NextTransaction(h))("after transaction %d", n).IsInvalid() {
				bad("a transaction follows the latest, way %d", i)
			}
			if n > 0 {
				c.tx(v.C.PreviousTransaction(h), n-1, "previous of transaction %d, way %d", n, i)
			} else if !v.C.PreviousTransaction(h).IsInvalid() {
				bad("a transaction precedes the first, way %d", i)
			}
		}
		parents := []cri.ITransHandle{&forObj{height: int64(n), hs: true}, t}
		if !f.Copy {
			parents = append(parents, &forObj{hash: f.Id, hashS: true})
		}
		for i := 0; i < f.Ins; i++ {
			g := int64(f.FirstIn + i)
			ways := []cri.ITxiHandle{ok(t.NthTxi(int64(i)))("input %d of transaction %d", i, n), &forPart{height: g, hs: true}}
			for _, p := range parents {
				ways = append(ways, &forPart{parent: p, index: int64(i)})
			}
			if v.H != nil {
				ways = append(ways, ok(v.H.TxiHandleByHeight(g))("input by height"))
			}
			for j, h := range ways {
				in := ok(v.C.TxiInterface(h))("input %d of transaction %d, way %d", i, n, j)
				c.inSays(h, n, int64(i), g, "the handle of an input")
				c.inSays(in, n, int64(i), g, "an input")
				eq(in.TxiHeight(), g, "height of input %d of transaction %d, way %d", i, n, j)
				c.input(in)
			}
			if v.P != nil {
				eq(ok(v.P.ParentTransOfTxi(g))("parent of input %d", g), int64(n), "parent of input %d", g)
			}
		}
		for i := 0; i < f.Outs; i++ {
			g := int64(f.FirstOut + i)
			ways := []cri.ITxoHandle{ok(t.NthTxo(int64(i)))("output %d of transaction %d", i, n), &forPart{height: g, hs: true}}
			for _, p := range parents {
				ways = append(ways, &forPart{parent: p, index: int64(i)})
			}
			if v.H != nil {
				ways = append(ways, ok(v.H.TxoHandleByHeight(g))("output by height"))
			}
			for j, h := range ways {
				o := ok(v.C.TxoInterface(h))("output %d of transaction %d, way %d", i, n, j)
				c.outSays(h, n, int64(i), g, "the handle of an output")
				c.outSays(o, n, int64(i), g, "an output")
				eq(o.TxoHeight(), g, "height of output %d of transaction %d, way %d", i, n, j)
				c.output(o)
			}
			if v.P != nil {
				eq(ok(v.P.ParentTransOfTxo(g))("parent of output %d", g), int64(n), "parent of output %d", g)
			}
		}
	}
	// addresses
	for a := range w.Out {
		if w.Out[a].Addr != a {
			continue
		}
		c.address(a, len(w.Out), -1)
		if v.H != nil {
			s := string(w.Tx[w.Out[a].Trans].Src.Outs[a-w.Tx[w.Out[a].Trans].FirstOut].Script)
			h := ok(v.H.AddressHandleByString(s))("address %d by its text", a)
			eq(h.Height(), int64(a), "address %d reached by its text", a)
			for _, q := range []Hash{w.AddrHash[a]} {
				eq(ok(v.H.AddressHandleByHash(q))("address by hash").Height(), int64(a), "address %d reached by its hash", a)
			}
		}
	}
	c.unknown()
}

// unknown asks for hashes that are not there.
func (c *checker) unknown() {
	v, w := c.v, c.w
	known := map[Hash]int{}
	var blocks, txs, addrs []Hash
	for i := range w.Blocks {
		blocks = append(blocks, w.Blocks[i].Hash)
		known[w.Blocks[i].Hash] |= 1
	}
	for i := range w.Tx {
		txs = append(txs, w.Tx[i].Id)
		known[w.Tx[i].Id] |= 2
	}
	for _, h := range w.AddrHash {
		addrs = append(addrs, h)
		known[h] |= 4
	}
	ask := []Hash{{}}
	var ones Hash
	for i := range ones {
		ones[i] = 0xff
	}
	ask = append(ask, ones)
	for _, l := range [][]Hash{blocks, txs, addrs} {
		for _, h := range l {
			ask = append(ask, h, near(h, 0), near(h, 7), near(h, 15), near(h, 31))
		}
	}
	for _, h := range ask {
		Reads++
		if known[h]&1 == 0 {
			if v.H != nil {
				if g, err := v.H.BlockHandleByHash(h); err == nil {
					bad("the unknown block hash %x leads to block %d", h, g.Height())
				}
			}
			if b, err := v.C.BlockInterface(&forObj{hash: h, hashS: true}); err == nil && !b.IsInvalid() {
				bad("a handle with the unknown block hash %x leads to block %d", h, b.Height())
			}
		}
		if known[h]&2 == 0 {
			if v.H != nil {
				if g, err := v.H.TransactionHandleByHash(h); err == nil {
					bad("the unknown transaction hash %x leads to transaction %d", h, g.Height())
				}
			}
			if t, err := v.C.TransInterface(&forObj{hash: h, hashS: true}); err == nil && !t.IsInvalid() {
				bad("a handle with the unknown transaction hash %x leads to transaction %d", h, t.Height())
			}
			if o, err := v.C.TxoInterface(&forPart{parent: &forObj{hash: h, hashS: true}}); err == nil && o.TxoHeight() >= 0 {
				if s, err := o.Satoshis(); err == nil {
					bad("output 0 of the unknown transaction %x is output %d worth %d", h, o.TxoHeight(), s)
				}
			}
		}
		if known[h]&4 == 0 {
			if v.H != nil {
				if g, err := v.H.AddressHandleByHash(h); err == nil {
					bad("the unknown address hash %x leads to address %d", h, g.Height())
				}
				if g, err := v.H.AddressHandleByString(string(h[:])); err == nil {
					bad("an unknown address text leads to address %d", g.Height())
				}
			}
			a, err := v.C.AddressInterface(&forAddr{hash: h, hashS: true})
			if err == nil {
				if n, err := a.TxoCount(); err == nil && n != 0 {
					bad("the unknown address hash %x has %d outputs", h, n)
				}
			}
		}
	}
}
