// C27: a block holder presents the stream of blocks it is given as a chain.
package main

import (
	"errors"
	"fmt"
	"runtime/debug"
	"time"

	chi "github.com/KitchenMishap/pudding-shed/chainhandleinterface"
	cri "github.com/KitchenMishap/pudding-shed/chainreadinterface"
	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjectschi"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjectscri"
	"github.com/KitchenMishap/pudding-shed/transactionindexing"
	"github.com/KitchenMishap/pudding-shed/zz_verif/btc"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
	"github.com/KitchenMishap/pudding-shed/zz_verif/xchain"
)

// book is a transaction indexer that notes what it is told, and fails at one call.
type book struct {
	calls  int
	failAt int // 0: never
	failed bool
	first  map[int64]int64
	parent map[int64]int64
	hash   map[int64]ih.Sha256
	twice  string
}

func newBook(failAt int) *book {
	return &book{failAt: failAt, first: map[int64]int64{}, parent: map[int64]int64{}, hash: map[int64]ih.Sha256{}}
}

var errBook = errors.New("the indexer's own failure")

func (b *book) call() error {
	b.calls++
	if b.calls == b.failAt {
		b.failed = true
		return errBook
	}
	return nil
}
func (b *book) StoreTransHashToHeight(h *ih.Sha256, n int64) error {
	if err := b.call(); err != nil {
		return err
	}
	if old, ok := b.hash[n]; ok && old != *h {
		b.twice = fmt.Sprintf("transaction %d is given two hashes", n)
	}
	b.hash[n] = *h
	return nil
}
func (b *book) StoreTransHeightToParentBlock(n int64, p int64) error {
	if err := b.call(); err != nil {
		return err
	}
	if old, ok := b.parent[n]; ok && old != p {
		b.twice = fmt.Sprintf("transaction %d is given two blocks", n)
	}
	b.parent[n] = p
	return nil
}
func (b *book) StoreBlockHeightToFirstTrans(n int64, f int64) error {
	if err := b.call(); err != nil {
		return err
	}
	if old, ok := b.first[n]; ok && old != f {
		b.twice = fmt.Sprintf("block %d is given two first transactions", n)
	}
	b.first[n] = f
	return nil
}
func (b *book) RetrieveTransHashToHeight(*ih.Sha256) (int64, error)     { panic("not needed") }
func (b *book) RetrieveTransHeightToParentBlock(n int64) (int64, error) { return b.parent[n], nil }
func (b *book) RetrieveBlockHeightToFirstTrans(n int64) (int64, error)  { return b.first[n], nil }
func (b *book) Close()                                                  {}

// told checks that the indexer knows exactly the first n blocks.
func (b *book) told(w *xchain.World, n int) {
	if b == nil {
		return
	}
	if b.twice != "" {
		bad("%s", b.twice)
	}
	txs := 0
	for i := 0; i < n; i++ {
		f, ok := b.first[int64(i)]
		if !ok || f != int64(w.Blocks[i].First) {
			bad("the indexer is told that block %d begins with transaction %d (%v); want %d", i, f, ok, w.Blocks[i].First)
		}
		txs += w.Blocks[i].Txs
	}
	for i := 0; i < txs; i++ {
		p, ok := b.parent[int64(i)]
		if !ok || p != int64(w.Tx[i].Block) {
			bad("the indexer is told that transaction %d is in block %d (%v); want %d", i, p, ok, w.Tx[i].Block)
		}
		h, ok := b.hash[int64(i)]
		if !ok || h != w.Tx[i].Id {
			bad("the indexer is told that transaction %d is %x (%v); want %x", i, h[:4], ok, w.Tx[i].Id[:4])
		}
	}
	if len(b.first) != n || len(b.parent) != txs || len(b.hash) != txs {
		bad("after %d blocks the indexer has been told of %d blocks, %d parents and %d hashes; want %d, %d and %d", n, len(b.first), len(b.parent), len(b.hash), n, txs, txs)
	}
}

type failure struct{ error }

func bad(format string, a ...any) { panic(failure{fmt.Errorf(format, a...)}) }

func must[T any](v T, err error) func(what string, a ...any) T {
	return func(what string, a ...any) T {
		if err != nil {
			bad("%s: %v", fmt.Sprintf(what, a...), err)
		}
		return v
	}
}

func eq[T comparable](got, want T, what string, a ...any) {
	steps++
	if got != want {
		bad("%s: got %v, want %v", fmt.Sprintf(what, a...), short(got), short(want))
	}
}

func short(v any) any {
	if h, ok := v.([32]byte); ok {
		return fmt.Sprintf("%x", h[:6])
	}
	return v
}

var steps int

func sameInts(got map[string]int64, all map[string]int64, names []string, what string, a ...any) {
	for _, n := range names {
		v, ok := got[n]
		if !ok || v != all[n] {
			bad("%s of %s: got %d (%v), want %d", n, fmt.Sprintf(what, a...), v, ok, all[n])
		}
	}
	for n, v := range got {
		if want, ok := all[n]; ok && v != want { // more than was asked for must be right too
			bad("%s of %s: got %d, want %d", n, fmt.Sprintf(what, a...), v, want)
		}
	}
}

// a handle made elsewhere
type byHash struct {
	h [32]byte
}

func (b byHash) Height() int64               { return -1 }
func (b byHash) Hash() (ih.Sha256, error)    { return b.h, nil }
func (b byHash) HeightSpecified() bool       { return false }
func (b byHash) HashSpecified() bool         { return true }
func (b byHash) IndicesPath() (int64, int64) { return -1, -1 }
func (b byHash) IndicesPathSpecified() bool  { return false }
func (b byHash) IsBlockHandle()              {}
func (b byHash) IsTransHandle()              {}
func (b byHash) IsInvalid() bool             { return false }

type part struct {
	p byHash
	i int64
}

func (p part) ParentTrans() cri.ITransHandle      { return p.p }
func (p part) ParentIndex() int64                 { return p.i }
func (p part) ParentSpecified() bool              { return true }
func (p part) TxiHeight() int64                   { return -1 }
func (p part) TxoHeight() int64                   { return -1 }
func (p part) TxiHeightSpecified() bool           { return false }
func (p part) TxoHeightSpecified() bool           { return false }
func (p part) IndicesPath() (int64, int64, int64) { return -1, -1, -1 }
func (p part) IndicesPathSpecified() bool         { return false }

type byAddr struct{ h [32]byte }

func (b byAddr) Height() int64         { return -1 }
func (b byAddr) Hash() ih.Sha256       { return b.h }
func (b byAddr) HeightSpecified() bool { return false }
func (b byAddr) HashSpecified() bool   { return true }

// walker goes through a holder block by block.
type walker interface {
	genesis()
	next() bool // false: the chain has ended
	look(w *xchain.World, b int)
}

type criWalk struct {
	h  *intrinsicobjectscri.OneBlockHolder
	at cri.IBlockHandle
}

func (c *criWalk) genesis() {
	c.at = c.h.GenesisBlock()
}

func (c *criWalk) next() bool {
	c.at = must(c.h.NextBlock(c.at))("next block")
	return !c.at.IsInvalid()
}

func transSays(h cri.ITransHandle, w *xchain.World, n int, what string) {
	f := &w.Tx[n]
	eq(h.IsInvalid(), false, "%s being invalid", what)
	if h.HeightSpecified() {
		eq(h.Height(), int64(n), "height of %s", what)
	}
	eq(h.HashSpecified(), true, "%s specifying a hash", what)
	eq(must(h.Hash())("hash of %s", what), f.Id, "hash of %s", what)
	if h.IndicesPathSpecified() {
		b, i := h.IndicesPath()
		eq(b, int64(f.Block), "block in the path of %s", what)
		eq(i, int64(f.Pos), "position in the path of %s", what)
	}
}

func (c *criWalk) look(w *xchain.World, b int) {
	f := &w.Blocks[b]
	blockSays := func(h cri.IBlockHandle, what string) {
		eq(h.IsInvalid(), false, "%s being invalid", what)
		if h.HeightSpecified() {
			eq(h.Height(), int64(b), "height of %s", what)
		}
		eq(h.HashSpecified(), true, "%s specifying a hash", what)
		eq(must(h.Hash())("hash of %s", what), f.Hash, "hash of %s", what)
	}
	blockSays(c.at, "the handle")
	for _, bh := range []cri.IBlockHandle{c.at, byHash{f.Hash}} {
		bl := must(c.h.BlockInterface(bh))("block %d", b)
		blockSays(bl, "the block")
		eq(must(bl.TransactionCount())("count"), int64(f.Txs), "transactions of block %d", b)
		sameInts(*must(bl.NonEssentialInts())("integers"), f.Ints, xchain.HolderBlk, "block %d", b)
		for i := 0; i < f.Txs; i++ {
			c.trans(w, must(bl.NthTransaction(int64(i)))("transaction %d", i), f.First+i)
		}
	}
	// what isn't in this block isn't found
	here := map[[32]byte]bool{}
	for i := 0; i < f.Txs; i++ {
		here[w.Tx[f.First+i].Id] = true
	}
	ask := []([32]byte){{}, f.Hash}
	for n := range w.Tx {
		ask = append(ask, w.Tx[n].Id)
	}
	for _, h := range ask {
		if here[h] {
			continue
		}
		steps++
		if t, err := c.h.TransInterface(byHash{h}); err == nil && !t.IsInvalid() {
			bad("a transaction that isn't in block %d is found there", b)
		}
		if _, err := c.h.TxoInterface(part{byHash{h}, 0}); err == nil {
			bad("an output that isn't in block %d is found there", b)
		}
		if _, err := c.h.TxiInterface(part{byHash{h}, 0}); err == nil {
			bad("an input that isn't in block %d is found there", b)
		}
	}
	for n := range w.Blocks {
		if n != b {
			if err := vk.Try(func() {
				if bl, err := c.h.BlockInterface(byHash{w.Blocks[n].Hash}); err == nil && !bl.IsInvalid() {
					bad("block %d is given out while block %d is held", n, b)
				}
			}); err != nil {
				if _, mine := err.(failure); mine {
					panic(err)
				}
			}
		}
	}
}

func (c *criWalk) trans(w *xchain.World, h cri.ITransHandle, n int) {
	f := &w.Tx[n]
	transSays(h, w, n, fmt.Sprintf("the handle of transaction %d", n))
	for _, th := range []cri.ITransHandle{h, byHash{f.Id}} {
		t := must(c.h.TransInterface(th))("transaction %d", n)
		transSays(t, w, n, fmt.Sprintf("transaction %d", n))
		sameInts(*must(t.NonEssentialInts())("integers"), f.Ints, xchain.HolderTrn, "transaction %d", n)
		eq(must(t.TxiCount())("inputs"), int64(f.Ins), "inputs of transaction %d", n)
		eq(must(t.TxoCount())("outputs"), int64(f.Outs), "outputs of transaction %d", n)
		all := must(t.AllTxoSatoshis())("amounts")
		eq(len(all), f.Outs, "amounts of transaction %d", n)
		for i := 0; i < f.Ins; i++ {
			g := f.FirstIn + i
			ih := must(t.NthTxi(int64(i)))("input %d", i)
			ins := []cri.ITxiHandle{ih}
			for _, q := range []cri.ITxiHandle{ih, part{byHash{f.Id}, int64(i)}} {
				in := must(c.h.TxiInterface(q))("input %d of transaction %d", i, n)
				ins = append(ins, in)
				src := must(in.SourceTxo())("source of input %d", g)
				eq(src.ParentSpecified(), true, "the source of input %d naming its transaction", g)
				sp := src.ParentTrans()
				eq(must(sp.Hash())("hash"), w.In[g].SrcHash, "the transaction that input %d spends from", g)
				eq(sp.IsInvalid(), false, "the transaction that input %d spends from being invalid", g)
				eq(src.ParentIndex(), w.In[g].Vout, "the output index that input %d spends", g)
				if src.TxoHeightSpecified() || src.IndicesPathSpecified() {
					bad("the source of input %d claims to know more than its transaction and index", g)
				}
			}
			for _, in := range ins {
				eq(in.ParentSpecified(), true, "input %d naming its transaction", g)
				eq(must(in.ParentTrans().Hash())("hash"), f.Id, "the transaction of input %d", g)
				eq(in.ParentTrans().IsInvalid(), false, "the transaction of input %d being invalid", g)
				eq(in.ParentIndex(), int64(i), "the index of input %d", g)
				if in.TxiHeightSpecified() {
					eq(in.TxiHeight(), int64(g), "the height of input %d", g)
				}
				if in.IndicesPathSpecified() {
					x, y, z := in.IndicesPath()
					eq([3]int64{x, y, z}, [3]int64{int64(f.Block), int64(f.Pos), int64(i)}, "the path of input %d", g)
				}
			}
		}
		for i := 0; i < f.Outs; i++ {
			g := f.FirstOut + i
			eq(all[i], w.Out[g].Sats, "amount %d of transaction %d among all", i, n)
			oh := must(t.NthTxo(int64(i)))("output %d", i)
			outs := []cri.ITxoHandle{oh}
			for _, q := range []cri.ITxoHandle{oh, part{byHash{f.Id}, int64(i)}} {
				o := must(c.h.TxoInterface(q))("output %d of transaction %d", i, n)
				outs = append(outs, o)
				eq(must(o.Satoshis())("amount"), w.Out[g].Sats, "amount of output %d", g)
				ah := must(o.Address())("address")
				for _, a := range []cri.IAddressHandle{ah, byAddr{w.AddrHash[g]}} {
					eq(a.HashSpecified(), true, "the address of output %d naming its hash", g)
					eq(a.Hash(), w.AddrHash[g], "the address of output %d", g)
					ad := must(c.h.AddressInterface(a))("address of output %d", g)
					eq(ad.Hash(), w.AddrHash[g], "the address of output %d", g)
					if ad.HeightSpecified() || a.HeightSpecified() {
						bad("the address of output %d claims to know its height", g)
					}
				}
			}
			for _, o := range outs {
				eq(o.ParentSpecified(), true, "output %d naming its transaction", g)
				eq(must(o.ParentTrans().Hash())("hash"), f.Id, "the transaction of output %d", g)
				eq(o.ParentTrans().IsInvalid(), false, "the transaction of output %d being invalid", g)
				eq(o.ParentIndex(), int64(i), "the index of output %d", g)
				if o.TxoHeightSpecified() {
					eq(o.TxoHeight(), int64(g), "the height of output %d", g)
				}
				if o.IndicesPathSpecified() {
					x, y, z := o.IndicesPath()
					eq([3]int64{x, y, z}, [3]int64{int64(f.Block), int64(f.Pos), int64(i)}, "the path of output %d", g)
				}
			}
		}
	}
}

type chiWalk struct {
	h    *intrinsicobjectschi.OneBlockHolder
	at   chi.BlockHandle
	seen []chi.BlockHandle
	trs  []chi.TransactionHandle // one of each earlier block

	// receivers that are used again and again, as the store's are
	br *chi.BlockReceiver
	tr *chi.BitcoinCoreTransactionReceiver
	ir *chi.TxiReceiver
	or *chi.TxoReceiver
}

func (c *chiWalk) genesis() {
	c.at = must(c.h.GenesisBlock())("genesis")
	c.br, c.tr, c.ir, c.or = chi.NewBlockReceiver(), chi.NewBitcoinCoreTransactionReceiver(), chi.NewTxiReceiver(), chi.NewTxoReceiver()
}

func (c *chiWalk) next() bool {
	c.at = must(c.h.NextBlock(c.at))("next block")
	return !c.h.IsBlockHandleInvalid(c.at)
}

func (c *chiWalk) look(w *xchain.World, b int) {
	f := &w.Blocks[b]
	eq(c.h.IsBlockHandleInvalid(c.at), false, "the handle of block %d being invalid", b)
	for _, s := range c.seen {
		if s == c.at {
			bad("two blocks have the same handle")
		}
	}
	for _, br := range []*chi.BlockReceiver{chi.NewBlockReceiver(), c.br} {
		must(0, c.h.GetBlockInfo(c.at, br))("block %d", b)
		eq(br.BlockHeight, int64(b), "height of block %d", b)
		eq(br.BlockHash, f.Hash, "hash of block %d", b)
		sameInts(br.FieldMap, f.Ints, xchain.HolderBlk, "block %d", b)
		eq(len(br.TransactionHandles), f.Txs, "transactions of block %d", b)
		for i, th := range br.TransactionHandles {
			n := f.First + i
			tf := &w.Tx[n]
			for j := 0; j < i; j++ {
				if br.TransactionHandles[j] == th {
					bad("two transactions have the same handle")
				}
			}
			for _, tr := range []*chi.BitcoinCoreTransactionReceiver{chi.NewBitcoinCoreTransactionReceiver(), c.tr} {
				must(0, c.h.GetTransactionInfo(th, tr))("transaction %d", n)
				eq(tr.ParentBlockHandle, c.at, "block of transaction %d", n)
				eq(tr.TransactionHash, tf.Id, "hash of transaction %d", n)
				sameInts(tr.FieldMap, tf.Ints, xchain.HolderTrn, "transaction %d", n)
				eq(len(tr.TxiHandles), tf.Ins, "inputs of transaction %d", n)
				eq(len(tr.TxoHandles), tf.Outs, "outputs of transaction %d", n)
				for k, hh := range tr.TxiHandles {
					g := tf.FirstIn + k
					for _, ir := range []*chi.TxiReceiver{chi.NewTxiReceiver(), c.ir} {
						must(0, c.h.GetTxiInfo(hh, ir))("input %d", g)
						eq(ir.ParentTransactionHandle, th, "transaction of input %d", g)
						eq(ir.IncomingTxid, w.In[g].SrcHash, "the transaction that input %d spends from", g)
						eq(ir.IncomingVout, w.In[g].Vout, "the output index that input %d spends", g)
					}
				}
				for k, hh := range tr.TxoHandles {
					g := tf.FirstOut + k
					for _, or := range []*chi.TxoReceiver{chi.NewTxoReceiver(), c.or} {
						must(0, c.h.GetTxoInfo(hh, or))("output %d", g)
						eq(or.ParentTransactionHandle, th, "transaction of output %d", g)
						eq(or.SatoshisValue, w.Out[g].Sats, "amount of output %d", g)
						eq(string(or.ScriptPubBytes), string(tf.Src.Outs[k].Script), "script of output %d", g)
					}
				}
			}
		}
	}
	// what isn't held isn't given out
	for _, s := range append([]chi.BlockHandle{c.h.InvalidBlockHandle()}, c.seen...) {
		if c.h.GetBlockInfo(s, chi.NewBlockReceiver()) == nil {
			bad("another block is given out while block %d is held", b)
		}
	}
	for _, s := range c.trs {
		if c.h.GetTransactionInfo(s, chi.NewBitcoinCoreTransactionReceiver()) == nil ||
			c.h.GetTxiInfo(chi.TxiHandle{TH: s}, chi.NewTxiReceiver()) == nil || c.h.GetTxoInfo(chi.TxoHandle{TH: s}, chi.NewTxoReceiver()) == nil {
			bad("part of another block is given out while block %d is held", b)
		}
	}
	c.seen = append(c.seen, c.at)
	c.trs = append(c.trs, c.br.TransactionHandles...)
	if len(c.trs) > 40 {
		c.trs = c.trs[20:]
	}
}

type setting struct {
	iface string
	json  bool
	index bool
}

func (s setting) String() string {
	return fmt.Sprintf("%s json %v indexer %v", s.iface, s.json, s.index)
}

var settings []setting

func init() {
	for i := 0; i < 8; i++ {
		settings = append(settings, setting{[]string{"cri", "chi"}[i&1], i&2 != 0, i&4 == 0})
	}
}

// open makes a holder that is fed the blocks (and then the end, unless open-ended).
func (s setting) open(blocks []*intrinsicobjects.Block, ind transactionindexing.ITransactionIndexer) (walker, func()) {
	var in chan *intrinsicobjects.Block
	var wk walker
	if s.iface == "cri" {
		h := intrinsicobjectscri.CreateOneBlockHolder(ind)
		in, wk = h.InChan, &criWalk{h: h}
	} else {
		h := intrinsicobjectschi.CreateOneBlockHolder(ind)
		in, wk = h.InChan, &chiWalk{h: h}
	}
	stop := make(chan bool)
	go func() {
		defer close(in)
		for _, b := range blocks {
			select {
			case in <- b:
			case <-stop:
				return
			}
		}
	}()
	return wk, func() { close(stop) }
}

func (s setting) indexer(failAt int) (*book, transactionindexing.ITransactionIndexer) {
	if !s.index {
		return nil, nil
	}
	b := newBook(failAt)
	return b, b
}

func walk(c *vk.Ctx, group string, desc func() string, s setting, deep bool, mk func() []*btc.Block) {
	c.CaseLimit(group, 60*time.Second, func() string { return desc() + " | " + s.String() }, func(t *vk.T) {
		blocks := mk()
		w := xchain.Describe(blocks)
		steps = 0
		bk, ind := s.indexer(0)
		wk, stop := s.open(xchain.Parse(blocks, s.json), ind)
		defer stop()
		err := vk.Try(func() {
			wk.genesis()
			for b := range blocks {
				bk.told(w, b+1)
				if deep || b == len(blocks)-1 || b > 0 && b%5 == 0 {
					wk.look(w, b)
				}
				more := wk.next()
				if more != (b+1 < len(blocks)) {
					bad("after block %d of %d: is there another: %v", b, len(blocks), more)
				}
			}
			bk.told(w, len(blocks))
		})
		if err != nil {
			t.Fail("%v", err)
		}
		t.Step(steps)
		t.State(group, len(blocks), len(w.Tx), len(w.In), len(w.Out), s)
		t.Outcome("walked to the end")
		if len(w.In) > 0 {
			t.Nontrivial()
		}
	})
}

// disorder feeds the holder a stream in which something is out of place; it must not be passed off as a chain.
func disorder(c *vk.Ctx, desc string, s setting, blocks []*btc.Block, order []int) {
	c.Case("disorder", func() string { return desc + " | " + s.String() }, func(t *vk.T) {
		parsed := xchain.Parse(blocks, s.json)
		var stream []*intrinsicobjects.Block
		goodUpTo := 0 // how many of the blocks come as they should
		for i, n := range order {
			stream = append(stream, parsed[n])
			if n == i && goodUpTo == i {
				goodUpTo++
			}
		}
		_, ind := s.indexer(0)
		wk, stop := s.open(stream, ind)
		defer stop()
		got := 0
		refused := vk.Try(func() {
			wk.genesis()
			got++
			for wk.next() {
				got++
			}
		})
		if got > goodUpTo {
			t.Fail("the stream %v: %d blocks are passed on, though only %d are in place", order, got, goodUpTo)
		}
		if refused == nil && goodUpTo < len(stream) {
			t.Fail("the stream %v ends quietly after %d blocks", order, got)
		}
		if got != goodUpTo {
			t.Fail("the stream %v: only %d blocks are passed on, of %d in place", order, got, goodUpTo)
		}
		t.Step(got)
		t.State("disorder", len(order), goodUpTo, s)
		t.Outcome("refused")
		t.Nontrivial()
	})
}

// indexerFails makes each of the indexer's calls fail.
func indexerFails(c *vk.Ctx, seq []int, s setting) {
	c.Case("indexer fails", func() string { return xchain.Name(seq) + " | " + s.String() }, func(t *vk.T) {
		blocks := xchain.Of(seq)
		w := xchain.Describe(blocks)
		for at := 1; ; at++ {
			bk, ind := s.indexer(at)
			wk, stop := s.open(xchain.Parse(blocks, s.json), ind)
			passed := 0
			err := vk.Try(func() {
				wk.genesis()
				passed++
				for wk.next() {
					passed++
				}
			})
			stop()
			if !bk.failed {
				if err != nil {
					t.Fail("%v", err)
				}
				break
			}
			if err == nil {
				t.Fail("the indexer's call %d fails, but the walk goes on to the end", at)
			}
			// what was passed on before is on the indexer's book
			for b := 0; b < passed; b++ {
				if f, ok := bk.first[int64(b)]; !ok || f != int64(w.Blocks[b].First) {
					t.Fail("the indexer's call %d fails: block %d was passed on before the indexer knew of it", at, b)
				}
				for i := 0; i < w.Blocks[b].Txs; i++ {
					if _, ok := bk.hash[int64(w.Blocks[b].First+i)]; !ok {
						t.Fail("the indexer's call %d fails: block %d was passed on before the indexer knew of its transactions", at, b)
					}
				}
			}
			t.Step(1)
			t.Outcome("failure passed on")
			t.Nontrivial()
		}
		t.State("indexer", seq, s)
	})
}

// timed is a chain of coinbase-only blocks with the given times.
func timed(times []uint32) []*btc.Block {
	b := xchain.NewBuilder()
	for i, at := range times {
		if i == 0 {
			continue // (the genesis block's time is what it is)
		}
		b.Do(0)
		b.Last().Time = at
	}
	b.Relink()
	return b.Blocks
}

func main() {
	vk.Main(vk.Spec{
		Property: "C27",
		Rule:     "a block holder fed a stream of parsed blocks presents exactly that chain: every object reached, by every handle, has the source's facts and describes itself truly; the indexer is told everything before a block is passed on; disorder and failures are refused",
		Bounds: func(tier string) map[string]any {
			return map[string]any{
				"chains":   "genesis followed by every sequence of up to 4 (thorough: 5) of 7 steps, through both interfaces, both formats, with and without an indexer; length 5 (6) through two of the eight",
				"size":     "70 and 300 (thorough: 3000) blocks; 300 and 70000 outputs, 300 transactions in a block",
				"disorder": "every stream of up to 4 (thorough: 5) of the first 5 blocks other than a beginning of the chain, and every removal, repetition and exchange in 12 blocks",
				"times":    "every sequence of two times over 13 (thorough: 16) blocks after genesis, every order of three times over 6 (8)",
				"failures": "each call of the indexer, for all chains of 3 (4) steps",
			}
		},
		Assumptions: []string{
			"the holder's documented restrictions: each block visited once, in order; backward moves, heights, and the address's outputs aren't offered",
			"transaction hashes are unique within a block",
		},
		CaseLimit: 60 * time.Second, ThoroughBudget: 14 * time.Minute, MemLimitGB: 3,
		Run: func(c *vk.Ctx) {
			debug.SetGCPercent(400)
			depth := vk.Pick(c, 4, 5)
			n := 0
			for d := 0; d <= depth+1; d++ {
				vk.Seqs(len(xchain.Ops), d, func(seq []int) {
					q := append([]int(nil), seq...)
					n++
					for si, s := range settings {
						if d > depth && (si+n)%4 != 0 {
							continue
						}
						walk(c, "chains", func() string { return xchain.Name(q) }, s, true, func() []*btc.Block { return xchain.Of(q) })
					}
				})
			}
			for _, s := range settings {
				for _, nb := range []int{70, vk.Pick(c, 300, 3000)} {
					walk(c, "long", func() string { return fmt.Sprintf("%d blocks", nb) }, s, false, func() []*btc.Block {
						var q []int
						for i := 0; i < nb; i++ {
							q = append(q, i%2, 3+i%3)
						}
						return xchain.Of(q)
					})
				}
				for _, sh := range [][2]int{{300, 1}, {300, 300}, {70000, 70000}} {
					walk(c, "wide", func() string { return fmt.Sprintf("%d outputs, %d to a transaction", sh[0], sh[1]) }, s, true, func() []*btc.Block {
						b := xchain.NewBuilder()
						b.Do(0)
						for done := 0; done < sh[0]; {
							var outs []btc.Out
							for i := 0; i < sh[1]; i++ {
								outs = append(outs, btc.Out{Value: int64(done), Script: xchain.Script(done % 50)})
								done++
							}
							b.Spend(b.Take(1, true), outs...)
						}
						b.Do(1)
						b.Spend(b.Take(260, false), btc.Out{Value: 3, Script: b.Fresh()}) // more inputs than a byte counts
						b.Relink()
						return b.Blocks
					})
				}
			}
			// times
			for _, m := range []struct{ vals, blocks int }{{2, vk.Pick(c, 13, 16)}, {3, vk.Pick(c, 6, 8)}} {
				for l := m.blocks; l <= m.blocks; l++ {
					vk.Seqs(m.vals, l, func(seq []int) {
						times := []uint32{0}
						for _, v := range seq {
							times = append(times, []uint32{1231006505 - 700, 1231006505 + 900, 1231006505 + 5000000}[v])
						}
						n++
						s := settings[n%2*1+n/2%2*4] // (the formats give the same times)
						walk(c, "times", func() string { return fmt.Sprint(times[1:]) }, s, false, func() []*btc.Block { return timed(times) })
					})
				}
			}
			// disorder
			five := xchain.Of([]int{0, 3, 1, 2, 4, 0, 5})
			if len(five) != 5 {
				panic(fmt.Sprint("the harness's chain has ", len(five), " blocks"))
			}
			for l := 2; l <= vk.Pick(c, 4, 5); l++ {
				vk.Seqs(5, l, func(seq []int) {
					order := append([]int(nil), seq...)
					if order[0] != 0 {
						return // what comes first is taken for the genesis block if its hash looks like it
					}
					straight := true
					for i := range order {
						straight = straight && order[i] == i
					}
					if straight {
						return
					}
					for _, s := range settings {
						disorder(c, fmt.Sprint(order), s, five, order)
					}
				})
			}
			twelve := timed(make([]uint32, 12))
			for a := 1; a < 12; a++ {
				for b := a; b < 12; b++ {
					var without, twice, swapped []int
					for i := 0; i < 12; i++ {
						if i != a {
							without = append(without, i)
						}
						twice = append(twice, i)
						if i == b {
							twice = append(twice, a)
						}
						swapped = append(swapped, i)
					}
					swapped[a], swapped[b] = b, a
					for _, s := range settings[:2] {
						if b == a && a < 11 {
							disorder(c, fmt.Sprint("without ", a), s, twelve, without)
						}
						disorder(c, fmt.Sprint(a, " again after ", b), s, twelve, twice)
						if a != b {
							disorder(c, fmt.Sprint("exchanged ", a, b), s, twelve, swapped)
						}
					}
				}
			}
			for first := 1; first < 5; first++ { // not beginning with the genesis block
				for _, s := range settings {
					disorder(c, fmt.Sprint("from ", first), s, five, []int{first, (first + 1) % 5})
				}
			}
			// failures
			for d := 0; d <= vk.Pick(c, 3, 4); d++ {
				vk.Seqs(len(xchain.Ops), d, func(seq []int) {
					q := append([]int(nil), seq...)
					n++
					for _, s := range settings[:2] {
						s.json = n%2 == 0
						indexerFails(c, q, s)
					}
				})
			}
		},
	})
}
