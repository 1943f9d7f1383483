package xchain

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	chi "github.com/KitchenMishap/pudding-shed/chainhandleinterface"
	cri "github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/chainstorage"
	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjectschi"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjectscri"
	"github.com/KitchenMishap/pudding-shed/transactionindexing"
	"github.com/KitchenMishap/pudding-shed/zz_verif/btc"
)

// Route is one way of ingesting a chain.
type Route struct {
	Iface     string // cri or chi
	Holder    string // intrinsic (blocks parsed from binary), json (blocks parsed from JSON) or model
	Ids       string // model through cri: hash, path or height
	Direct    bool   // the chain store indexes transactions itself (otherwise it is delegated)
	Blk, Trn  []string
	Ram       bool // hash look-ups in memory while ingesting
	Adaptive  bool // which index builder
	SyncEvery int  // sync the store after every so many blocks
	Reopen    int  // close the store after every so many blocks, and open it again to go on
	Ask       bool // ask the delegated transaction indexer for everything it was told, after every block
	// the inputs and outputs are numbered from here: the store is made as if so many were already there
	BaseIn, BaseOut int64
}

func (r Route) String() string {
	return fmt.Sprintf("%s through %s ids %s direct %v ints %v %v ram %v adaptive %v sync %d reopen %d", r.Holder, r.Iface, r.Ids, r.Direct, r.Blk, r.Trn, r.Ram, r.Adaptive, r.SyncEvery, r.Reopen)
}

var BlkInts = []string{"version", "time", "mediantime", "nonce", "difficulty", "strippedsize", "size", "weight"}
var TrnInts = []string{"version", "size", "vsize", "weight", "locktime"}

// the integers the parsed blocks supply
var HolderBlk = []string{"time", "mediantime", "difficulty", "strippedsize", "size", "weight"}
var HolderTrn = []string{"size", "vsize", "weight"}

// Parse has the code under test parse the blocks of a chain.
func Parse(blocks []*btc.Block, json bool) []*intrinsicobjects.Block { return parse(blocks, json) }

func parse(blocks []*btc.Block, json bool) []*intrinsicobjects.Block {
	var r []*intrinsicobjects.Block
	for i, b := range blocks {
		o := &intrinsicobjects.Block{}
		if json {
			if err := intrinsicobjects.ParseJsonBlock(b.JSON(i, b.Time), o); err != nil {
				panic(err)
			}
		} else {
			intrinsicobjects.ParseBinaryBlock(b.Binary(), o)
		}
		r = append(r, o)
	}
	return r
}

func feed(blocks []*btc.Block, json bool, ch chan *intrinsicobjects.Block) {
	go func() {
		for _, b := range parse(blocks, json) {
			ch <- b
		}
		close(ch)
	}()
}

func (r Route) cri(w *World, ind transactionindexing.ITransactionIndexer) cri.IBlockChain {
	if r.Holder == "model" {
		return &Model{W: w, Ids: r.Ids}
	}
	h := intrinsicobjectscri.CreateOneBlockHolder(ind)
	feed(w.source(), r.Holder == "json", h.InChan)
	return h
}

func (r Route) chi(w *World, ind transactionindexing.ITransactionIndexer) chi.IBlockChain {
	if r.Holder == "model" {
		return (&Model{W: w, Ids: r.Ids}).Chi()
	}
	h := intrinsicobjectschi.CreateOneBlockHolder(ind)
	feed(w.source(), r.Holder == "json", h.InChan)
	return h
}

func (w *World) source() []*btc.Block {
	var r []*btc.Block
	for i := range w.Blocks {
		r = append(r, w.Blocks[i].Src)
	}
	return r
}

func wrap(err error, what string) error {
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	return nil
}

// Hashes stores the hashes of the chain in dir (the first phase).
func (r Route) Hashes(w *World, dir string) error { return r.hashes(w, dir, false) }

// HashesSynced syncs the hash lists before they are closed.
func (r Route) HashesSynced(w *World, dir string) error { return r.hashes(w, dir, true) }

func (r Route) hashes(w *World, dir string, sync bool) error {
	cc := chainstorage.NewConcreteHashesChainCreator(dir)
	if err := cc.Create(); err != nil {
		return wrap(err, "creating the hash lists")
	}
	hc, err := cc.Open()
	if err != nil {
		return wrap(err, "opening the hash lists")
	}
	if r.Iface == "cri" {
		c := r.cri(w, nil)
		n := int64(0)
		for h := c.GenesisBlock(); !h.IsInvalid(); n++ {
			if err = hc.AppendHashesCri(c, h, n); err != nil {
				return wrap(err, "storing hashes")
			}
			if h, err = c.NextBlock(h); err != nil {
				return wrap(err, "next block")
			}
		}
	} else {
		c := r.chi(w, nil)
		h, err := c.GenesisBlock()
		if err != nil {
			return wrap(err, "genesis")
		}
		for !c.IsBlockHandleInvalid(h) {
			if err = hc.AppendHashesChi(c, h); err != nil {
				return wrap(err, "storing hashes")
			}
			if h, err = c.NextBlock(h); err != nil {
				return wrap(err, "next block")
			}
		}
	}
	if sync {
		if err = hc.Sync(); err != nil {
			return wrap(err, "syncing the hash lists")
		}
	}
	b, t, a, err := hc.CountHashes()
	if err != nil || b != int64(len(w.Blocks)) || t != int64(len(w.Tx)) || a != int64(len(w.Out)) {
		return fmt.Errorf("the hash lists count %d %d %d hashes (%v); want %d %d %d", b, t, a, err, len(w.Blocks), len(w.Tx), len(w.Out))
	}
	hc.Close()
	return nil
}

// CheckHashes compares the stored hash lists with the chain.
func CheckHashes(w *World, dir string) error {
	for _, f := range []struct {
		name string
		n    int
		at   func(i int) Hash
	}{
		{"Blocks", len(w.Blocks), func(i int) Hash { return w.Blocks[i].Hash }},
		{"Transactions", len(w.Tx), func(i int) Hash { return w.Tx[i].Id }},
		{"Addresses", len(w.AddrHash), func(i int) Hash { return w.AddrHash[i] }},
	} {
		raw, err := os.ReadFile(filepath.Join(dir, f.name, "Hashes", "Hashes.hsh"))
		if err != nil {
			return err
		}
		if len(raw) != 32*f.n {
			return fmt.Errorf("%s: the hash list has %d bytes for %d hashes", f.name, len(raw), f.n)
		}
		for i := 0; i < f.n; i++ {
			if Hash(raw[32*i:]) != f.at(i) {
				return fmt.Errorf("%s: hash %d is %x, want %x", f.name, i, raw[32*i:32*i+32], f.at(i))
			}
		}
	}
	return nil
}

// Index indexes the stored hashes (the second phase).
func (r Route) Index(w *World, dir string, threads int) error {
	bits, bins, inBin := int64(16), int64(4), int64(2)
	if len(w.Out) > 2000 {
		bins, inBin = int64(len(w.Out)/40)*2, 22
	}
	if len(w.Out) > 60000 {
		bits = 24
	}
	for i, name := range []string{"Addresses", "Transactions", "Blocks"} {
		p := indexedhashes3.NewHashStoreParams(bits, int64(4+i), 2, bins+int64(2*i), inBin, 8)
		var err error
		if r.Adaptive {
			_, pl, e := indexedhashes3.NewHashStoreCreatorAndPreloaderAdaptive(dir, name+"/Hashes", p, 1)
			if err = e; err == nil {
				err = pl.IndexTheHashes(threads)
			}
		} else {
			ba := indexedhashes3.NewBinsArray(1, p.BytesPerBinEntry(), 3)
			_, pl, e := indexedhashes3.NewHashStoreCreatorAndPreloader(dir, name+"/Hashes", p, 1, ba)
			if err = e; err == nil {
				err = pl.IndexTheHashes(threads)
			}
		}
		if err != nil {
			return wrap(err, "indexing "+name)
		}
	}
	return nil
}

// Store creates and opens the chain store (the hashes having been indexed).
func (r Route) Store(dir string) (chainstorage.IAppendableChain, transactionindexing.ITransactionIndexer, error) {
	cr, err := r.Creator(dir, false)
	if err != nil {
		return nil, nil, wrap(err, "chain creator")
	}
	if err = cr.CreateFromHashStores(); err != nil {
		return nil, nil, wrap(err, "creating the chain store")
	}
	if r.Direct {
		ac, err := cr.Open()
		return ac, nil, wrap(err, "opening the chain store")
	}
	ac, ind, err := cr.OpenWithIndexer()
	return ac, ind, wrap(err, "opening the chain store")
}

func (r Route) Creator(dir string, ram bool) (*chainstorage.ConcreteAppendableChainCreator, error) {
	return chainstorage.NewConcreteAppendableChainCreator(dir, r.Blk, r.Trn, !r.Direct, ram, r.Ram)
}

// delegate does for the model what the holders of parsed blocks do: it reports the block's transactions.
func delegate(w *World, n int, ind transactionindexing.ITransactionIndexer) error {
	b := &w.Blocks[n]
	if err := ind.StoreBlockHeightToFirstTrans(int64(n), int64(b.First)); err != nil {
		return err
	}
	for i := 0; i < b.Txs; i++ {
		h := int64(b.First + i)
		if err := ind.StoreTransHeightToParentBlock(h, int64(n)); err != nil {
			return err
		}
		id := ih.Sha256(w.Tx[h].Id)
		if err := ind.StoreTransHashToHeight(&id, h); err != nil {
			return err
		}
	}
	return nil
}

// Append gathers the chain into an open store (the third phase); each is called after each block.
func (r Route) Append(w *World, ac chainstorage.IAppendableChain, ind transactionindexing.ITransactionIndexer, each func(blocks int) error) error {
	if each == nil {
		each = func(int) error { return nil }
	}
	if r.Direct {
		ind = nil
	}
	n := 0
	step := func() error {
		n++
		if r.SyncEvery > 0 && n%r.SyncEvery == 0 {
			if err := ac.Sync(); err != nil {
				return wrap(err, "sync")
			}
		}
		return each(n)
	}
	if r.Iface == "cri" {
		c := r.cri(w, ind)
		var err error
		for h := c.GenesisBlock(); !h.IsInvalid(); {
			if r.Holder == "model" && ind != nil {
				if err = delegate(w, n, ind); err != nil {
					return wrap(err, "delegated indexing")
				}
			}
			var b cri.IBlock
			if b, err = c.BlockInterface(h); err != nil {
				return wrap(err, "block interface")
			}
			if err = ac.AppendBlock(c, b); err != nil {
				return wrap(err, "appending a block")
			}
			if err = step(); err != nil {
				return err
			}
			if h, err = c.NextBlock(h); err != nil {
				return wrap(err, "next block")
			}
		}
		return nil
	}
	c := r.chi(w, ind)
	h, err := c.GenesisBlock()
	if err != nil {
		return err
	}
	for !c.IsBlockHandleInvalid(h) {
		if r.Holder == "model" && ind != nil {
			if err = delegate(w, n, ind); err != nil {
				return wrap(err, "delegated indexing")
			}
		}
		if err = ac.AppendBlockChi(c, h); err != nil {
			return wrap(err, "appending a block")
		}
		if err = step(); err != nil {
			return err
		}
		if h, err = c.NextBlock(h); err != nil {
			return wrap(err, "next block")
		}
	}
	return nil
}

// Ingest runs all three phases and returns the open store.
func (r Route) Ingest(w *World, dir string, each func(ac chainstorage.IAppendableChain, blocks int) error) (chainstorage.IAppendableChain, error) {
	if err := r.Hashes(w, dir); err != nil {
		return nil, err
	}
	if err := CheckHashes(w, dir); err != nil {
		return nil, err
	}
	if err := r.Index(w, dir, 1+len(w.Blocks)%2); err != nil {
		return nil, err
	}
	ac, ind, err := r.Store(dir)
	if err != nil {
		return nil, err
	}
	now, nowInd := &current{ac}, &currentIndexer{ind}
	reopen := func() error {
		now.Close()
		cr, err := r.Creator(dir, false)
		if err != nil {
			return wrap(err, "chain creator")
		}
		if r.Direct {
			now.IAppendableChain, err = cr.Open()
		} else {
			now.IAppendableChain, nowInd.ITransactionIndexer, err = cr.OpenWithIndexer()
		}
		return wrap(err, "opening the chain store again")
	}
	if r.BaseIn+r.BaseOut > 0 {
		now.Close()
		if err := r.stretch(w, dir); err != nil {
			return nil, err
		}
		if err := reopen(); err != nil {
			return nil, err
		}
	}
	if ind != nil {
		ind = nowInd
	}
	err = r.Append(w, now, ind, func(n int) error {
		if r.Reopen > 0 && n%r.Reopen == 0 && n < len(w.Blocks) {
			if err := reopen(); err != nil {
				return err
			}
		}
		if r.Ask && ind != nil {
			if err := indexed(w, n, ind); err != nil {
				return err
			}
		}
		if each == nil {
			return nil
		}
		return each(now.IAppendableChain, n)
	})
	return now.IAppendableChain, err
}

// stretch makes the files of an empty store as long as those of so many inputs and outputs, all holes. How wide their
// words are is seen from the same chain stored elsewhere.
func (r Route) stretch(w *World, dir string) error {
	other := filepath.Join(dir, "narrow")
	n := r
	n.BaseIn, n.BaseOut, n.Ask = 0, 0, false
	ac, err := n.Ingest(w, other, nil)
	if err != nil {
		return err
	}
	ac.Close()
	for _, x := range []struct {
		name  string
		count int
		base  int64
	}{
		{"TransactionInputs/tx", len(w.In), r.BaseIn}, {"TransactionInputs/vout", len(w.In), r.BaseIn}, {"Parents/parenttransoftxi", len(w.In), r.BaseIn},
		{"TransactionOutputs/value", len(w.Out), r.BaseOut}, {"TransactionOutputs/address", len(w.Out), r.BaseOut}, {"TransactionOutputs/spenttotxi", len(w.Out), r.BaseOut}, {"Parents/parenttransoftxo", len(w.Out), r.BaseOut},
	} {
		st, err := os.Stat(filepath.Join(other, x.name+".int"))
		if err != nil {
			return err
		}
		if x.count == 0 {
			continue
		}
		if err := os.Truncate(filepath.Join(dir, x.name+".int"), st.Size()/int64(x.count)*x.base); err != nil {
			return err
		}
	}
	return os.RemoveAll(other)
}

// indexed compares what the transaction indexer answers for the first blocks with the model.
func indexed(w *World, blocks int, ind transactionindexing.ITransactionIndexer) error {
	for n := 0; n < blocks; n++ {
		b := &w.Blocks[n]
		first, err := ind.RetrieveBlockHeightToFirstTrans(int64(n))
		if err != nil || first != int64(b.First) {
			return fmt.Errorf("the transaction indexer says that block %d starts with transaction %d (%v), it is %d", n, first, err, b.First)
		}
		for i := b.First; i < b.First+b.Txs; i++ {
			Reads += 2
			parent, err := ind.RetrieveTransHeightToParentBlock(int64(i))
			if err != nil || parent != int64(n) {
				return fmt.Errorf("the transaction indexer says that transaction %d is in block %d (%v), it is in %d", i, parent, err, n)
			}
			if w.Tx[i].Copy {
				continue
			}
			id := ih.Sha256(w.Tx[i].Id)
			if h, err := ind.RetrieveTransHashToHeight(&id); err != nil || h != int64(i) {
				return fmt.Errorf("the transaction indexer says that the hash of transaction %d is at %d (%v)", i, h, err)
			}
		}
	}
	return nil
}

// what the store is that is open now
type current struct{ chainstorage.IAppendableChain }
type currentIndexer struct {
	transactionindexing.ITransactionIndexer
}

// View is a read-only view of a stored chain.
type View struct {
	C cri.IBlockChain
	H cri.IHandleCreator
	P chainstorage.IParents
	F chainstorage.IPrivilegedFiles
}

func Open(r Route, dir string) (*View, error) {
	cr, err := r.Creator(dir, false)
	if err != nil {
		return nil, err
	}
	c, h, p, f, err := cr.OpenReadOnly()
	if err != nil {
		return nil, err
	}
	return &View{c, h, p, f}, nil
}

// OpenInRam opens the view that is held in memory; the confirmation it asks for is given.
func OpenInRam(r Route, dir string) (*View, error) {
	in := filepath.Join(dir, "stdin")
	if err := os.WriteFile(in, []byte("128GB\n"), 0644); err != nil {
		return nil, err
	}
	f, err := os.Open(in)
	if err != nil {
		return nil, err
	}
	old := os.Stdin
	os.Stdin = f
	cr, err := r.Creator(dir, true)
	os.Stdin = old
	f.Close()
	os.Remove(in)
	if err != nil {
		return nil, err
	}
	c, h, p, pf, err := cr.OpenReadOnly()
	if err != nil {
		return nil, err
	}
	return &View{c, h, p, pf}, nil
}

// Live is the view the store itself offers.
func Live(ac chainstorage.IAppendableChain) *View {
	c := ac.GetAsChainReadInterface()
	v := &View{C: c}
	v.H, _ = c.(cri.IHandleCreator)
	v.P, _ = c.(chainstorage.IParents)
	v.F, _ = c.(chainstorage.IPrivilegedFiles)
	return v
}

func ints(m *map[string]int64) string {
	var r []string
	for k, v := range *m {
		r = append(r, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func wantInts(all map[string]int64, names []string) string {
	m := map[string]int64{}
	for _, n := range names {
		m[n] = all[n]
	}
	return ints(&m)
}
