package xchain

import (
	"encoding/binary"
	"errors"

	chi "github.com/KitchenMishap/pudding-shed/chainhandleinterface"
	cri "github.com/KitchenMishap/pudding-shed/chainreadinterface"
	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
)

// Model is an independent source chain: it implements both of the interfaces chains are ingested through, straight
// from the facts, and supplies every optional integer. Ids says how it identifies transactions: "hash" (by hash
// only), "path" (block height and position too) or "height" (every height is specified).
type Model struct {
	W   *World
	Ids string
	// Omit, when set, makes the source not supply an optional integer
	Omit map[string]bool
}

var _ cri.IBlockChain = (*Model)(nil)
var _ chi.IBlockChain = chiModel{}

type mBlock struct {
	m *Model
	n int
}
type mTrans struct {
	m    *Model
	n    int // height
	hash Hash
	bare bool // names the transaction by hash only
}
type mIn struct {
	m *Model
	n int
}
type mOut struct {
	m   *Model
	n   int
	src *InFact // set: the output named by this input
}
type mAddr struct {
	m *Model
	n int
}

func (b *mBlock) Height() int64            { return int64(b.n) }
func (b *mBlock) Hash() (ih.Sha256, error) { return b.m.W.Blocks[b.n].Hash, nil }
func (b *mBlock) HeightSpecified() bool    { return b.m.Ids == "height" }
func (b *mBlock) HashSpecified() bool      { return true }
func (b *mBlock) IsBlockHandle()           {}
func (b *mBlock) IsInvalid() bool          { return b.n < 0 }
func (b *mBlock) TransactionCount() (int64, error) {
	return int64(b.m.W.Blocks[b.n].Txs), nil
}
func (b *mBlock) NthTransaction(n int64) (cri.ITransHandle, error) {
	return b.m.trans(b.m.W.Blocks[b.n].First + int(n)), nil
}
func (m *Model) ints(src map[string]int64) *map[string]int64 {
	r := map[string]int64{}
	for k, v := range src {
		if !m.Omit[k] {
			r[k] = v
		}
	}
	return &r
}
func (b *mBlock) NonEssentialInts() (*map[string]int64, error) {
	return b.m.ints(b.m.W.Blocks[b.n].Ints), nil
}

func (m *Model) trans(n int) *mTrans { return &mTrans{m: m, n: n, hash: m.W.Tx[n].Id} }

func (t *mTrans) Height() int64            { return int64(t.n) }
func (t *mTrans) Hash() (ih.Sha256, error) { return t.hash, nil }
func (t *mTrans) IndicesPath() (int64, int64) {
	return int64(t.m.W.Tx[t.n].Block), int64(t.m.W.Tx[t.n].Pos)
}
func (t *mTrans) HeightSpecified() bool      { return t.m.Ids == "height" && !t.bare }
func (t *mTrans) HashSpecified() bool        { return true }
func (t *mTrans) IndicesPathSpecified() bool { return t.m.Ids == "path" && !t.bare }
func (t *mTrans) IsTransHandle()             {}
func (t *mTrans) IsInvalid() bool            { return t.n < 0 }
func (t *mTrans) f() *TxFact                 { return &t.m.W.Tx[t.n] }
func (t *mTrans) TxiCount() (int64, error)   { return int64(t.f().Ins), nil }
func (t *mTrans) TxoCount() (int64, error)   { return int64(t.f().Outs), nil }
func (t *mTrans) NthTxi(n int64) (cri.ITxiHandle, error) {
	return &mIn{t.m, t.f().FirstIn + int(n)}, nil
}
func (t *mTrans) NthTxo(n int64) (cri.ITxoHandle, error) {
	return &mOut{m: t.m, n: t.f().FirstOut + int(n)}, nil
}
func (t *mTrans) AllTxoSatoshis() ([]int64, error) {
	r := []int64{}
	for i := 0; i < t.f().Outs; i++ {
		r = append(r, t.m.W.Out[t.f().FirstOut+i].Sats)
	}
	return r, nil
}
func (t *mTrans) NonEssentialInts() (*map[string]int64, error) { return t.m.ints(t.f().Ints), nil }

func (i *mIn) f() *InFact                    { return &i.m.W.In[i.n] }
func (i *mIn) ParentTrans() cri.ITransHandle { return i.m.trans(i.f().Trans) }
func (i *mIn) ParentIndex() int64            { return int64(i.n - i.m.W.Tx[i.f().Trans].FirstIn) }
func (i *mIn) TxiHeight() int64              { return int64(i.n) }
func (i *mIn) IndicesPath() (int64, int64, int64) {
	t := i.m.W.Tx[i.f().Trans]
	return int64(t.Block), int64(t.Pos), i.ParentIndex()
}
func (i *mIn) ParentSpecified() bool      { return true }
func (i *mIn) TxiHeightSpecified() bool   { return i.m.Ids == "height" }
func (i *mIn) IndicesPathSpecified() bool { return i.m.Ids == "path" }
func (i *mIn) SourceTxo() (cri.ITxoHandle, error) {
	return &mOut{m: i.m, n: -1, src: i.f()}, nil
}

func (o *mOut) ParentTrans() cri.ITransHandle {
	if o.src == nil {
		return o.m.trans(o.m.W.Out[o.n].Trans)
	}
	first := -1
	for s := range o.src.Sources {
		if first < 0 || int(s) < first {
			first = int(s)
		}
	}
	return o.m.trans(first)
}
func (o *mOut) ParentIndex() int64 {
	if o.src != nil {
		return o.src.Vout
	}
	return int64(o.n - o.m.W.Tx[o.m.W.Out[o.n].Trans].FirstOut)
}
func (o *mOut) TxoHeight() int64 {
	if o.src != nil {
		panic("the source does not say")
	}
	return int64(o.n)
}
func (o *mOut) IndicesPath() (int64, int64, int64) { panic("not needed") }
func (o *mOut) ParentSpecified() bool              { return true }
func (o *mOut) TxoHeightSpecified() bool           { return o.src == nil && o.m.Ids == "height" }
func (o *mOut) IndicesPathSpecified() bool         { return false }
func (o *mOut) Satoshis() (int64, error)           { return o.m.W.Out[o.n].Sats, nil }
func (o *mOut) Address() (cri.IAddressHandle, error) {
	return &mAddr{o.m, o.m.W.Out[o.n].Addr}, nil
}

func (a *mAddr) Height() int64            { return int64(a.n) }
func (a *mAddr) Hash() ih.Sha256          { return a.m.W.AddrHash[a.n] }
func (a *mAddr) HeightSpecified() bool    { return a.m.Ids == "height" }
func (a *mAddr) HashSpecified() bool      { return true }
func (a *mAddr) TxoCount() (int64, error) { return int64(len(a.m.W.AddrOuts[a.n])), nil }
func (a *mAddr) NthTxo(n int64) (cri.ITxoHandle, error) {
	return &mOut{m: a.m, n: int(a.m.W.AddrOuts[a.n][n])}, nil
}

func (m *Model) InvalidBlock() cri.IBlockHandle { return &mBlock{m, -1} }
func (m *Model) InvalidTrans() cri.ITransHandle { return &mTrans{m: m, n: -1} }
func (m *Model) GenesisBlock() cri.IBlockHandle { return &mBlock{m, 0} }
func (m *Model) ParentBlock(b cri.IBlockHandle) cri.IBlockHandle {
	return &mBlock{m, b.(*mBlock).n - 1}
}
func (m *Model) GenesisTransaction() (cri.ITransHandle, error) { return m.trans(0), nil }
func (m *Model) PreviousTransaction(t cri.ITransHandle) cri.ITransHandle {
	return m.trans(t.(*mTrans).n - 1)
}
func (m *Model) IsBlockTree() bool                                     { return false }
func (m *Model) BlockInterface(b cri.IBlockHandle) (cri.IBlock, error) { return b.(*mBlock), nil }
func (m *Model) TransInterface(t cri.ITransHandle) (cri.ITransaction, error) {
	return t.(*mTrans), nil
}
func (m *Model) TxiInterface(i cri.ITxiHandle) (cri.ITxi, error)             { return i.(*mIn), nil }
func (m *Model) TxoInterface(o cri.ITxoHandle) (cri.ITxo, error)             { return o.(*mOut), nil }
func (m *Model) AddressInterface(a cri.IAddressHandle) (cri.IAddress, error) { return a.(*mAddr), nil }
func (m *Model) LatestBlock() (cri.IBlockHandle, error) {
	return &mBlock{m, len(m.W.Blocks) - 1}, nil
}
func (m *Model) NextBlock(b cri.IBlockHandle) (cri.IBlockHandle, error) {
	if n := b.(*mBlock).n + 1; n < len(m.W.Blocks) {
		return &mBlock{m, n}, nil
	}
	return m.InvalidBlock(), nil
}
func (m *Model) LatestTransaction() (cri.ITransHandle, error) { return m.trans(len(m.W.Tx) - 1), nil }
func (m *Model) NextTransaction(t cri.ITransHandle) (cri.ITransHandle, error) {
	if n := t.(*mTrans).n + 1; n < len(m.W.Tx) {
		return m.trans(n), nil
	}
	return m.InvalidTrans(), nil
}

// Chi is the same chain through the handles interface.
func (m *Model) Chi() chi.IBlockChain { return chiModel{m} }

type chiModel struct{ m *Model }

func h4(n int) (b [4]byte) { binary.BigEndian.PutUint32(b[:], uint32(n+7)); return }
func n4(b [4]byte) int     { return int(binary.BigEndian.Uint32(b[:])) - 7 }

func (c chiModel) IsBlockHandleInvalid(h chi.BlockHandle) bool {
	return n4(h.Bytes) >= len(c.m.W.Blocks)
}
func (c chiModel) GenesisBlock() (chi.BlockHandle, error) { return chi.BlockHandle{Bytes: h4(0)}, nil }
func (c chiModel) NextBlock(h chi.BlockHandle) (chi.BlockHandle, error) {
	return chi.BlockHandle{Bytes: h4(n4(h.Bytes) + 1)}, nil
}
func (c chiModel) GetBlockInfo(h chi.BlockHandle, r chi.IBlockReceiver) error {
	n := n4(h.Bytes)
	if n < 0 || n >= len(c.m.W.Blocks) {
		return errors.New("no such block")
	}
	r.ResetReceiver()
	f := &c.m.W.Blocks[n]
	r.ReceiveBlockHeight(int64(n))
	r.ReceiveBlockHash(f.Hash)
	for k, v := range *c.m.ints(f.Ints) {
		r.ReceiveIntField(k, v)
	}
	for i := 0; i < f.Txs; i++ {
		r.ReceiveTransactionHandleToAppend(chi.TransactionHandle{BH: h, TSH: chi.TransactionSubHandle{Bytes: h4(i)}})
	}
	return nil
}
func (c chiModel) tx(h chi.TransactionHandle) *TxFact {
	return &c.m.W.Tx[c.m.W.Blocks[n4(h.BH.Bytes)].First+n4(h.TSH.Bytes)]
}
func (c chiModel) GetTransactionInfo(h chi.TransactionHandle, r chi.IBitcoinCoreTransactionReceiver) error {
	r.ResetReceiver()
	f := c.tx(h)
	r.ReceiveParentBlockHandle(h.BH)
	r.ReceiveTransactionHash(f.Id)
	for k, v := range *c.m.ints(f.Ints) {
		r.ReceiveIntField(k, v)
	}
	ins := f.Ins
	if f.Pos == 0 {
		ins = 1 // the interface's coinbase transactions have an input
	}
	for i := 0; i < ins; i++ {
		r.ReceiveTxiHandleToAppend(chi.TxiHandle{TH: h, TXISH: chi.TxiSubHandle{Bytes: h4(i)}})
	}
	for i := 0; i < f.Outs; i++ {
		r.ReceiveTxoHandleToAppend(chi.TxoHandle{TH: h, TXOSH: chi.TxoSubHandle{Bytes: h4(i)}})
	}
	return nil
}
func (c chiModel) GetTxiInfo(h chi.TxiHandle, r chi.ITxiReceiver) error {
	f := c.tx(h.TH)
	r.ReceiveParentTransactionHandle(h.TH)
	if f.Pos == 0 {
		r.ReceiveIncomingTxid(Hash{})
		r.ReceiveIncomingVout(0xffffffff)
		return nil
	}
	in := &c.m.W.In[f.FirstIn+n4(h.TXISH.Bytes)]
	r.ReceiveIncomingTxid(in.SrcHash)
	r.ReceiveIncomingVout(in.Vout)
	return nil
}
func (c chiModel) GetTxoInfo(h chi.TxoHandle, r chi.ITxoReceiver) error {
	r.ResetReceiver()
	f := c.tx(h.TH)
	n := n4(h.TXOSH.Bytes)
	r.ReceiveParentTransactionHandle(h.TH)
	r.ReceiveSatoshisValue(c.m.W.Out[f.FirstOut+n].Sats)
	for _, b := range f.Src.Outs[n].Script {
		r.ReceiveScriptPubByteToAppend(b)
	}
	return nil
}
