// Package xchain builds small block chains, knows independently every fact that should be stored about them, and
// drives the code under test to ingest them through its several routes.
package xchain

import (
	"crypto/sha256"
	"fmt"
	"math"
	"sort"

	"github.com/KitchenMishap/pudding-shed/zz_verif/btc"
)

type Hash = [32]byte

type TxFact struct {
	Id                           Hash
	Copy                         bool // an earlier transaction has the same hash
	Block, Pos                   int
	FirstIn, Ins, FirstOut, Outs int
	Ints                         map[string]int64
	Src                          *btc.Tx
}

type InFact struct {
	Trans   int
	Sources map[int64]bool // heights of the transactions the input may be said to spend (several only for repeated hashes)
	SrcHash Hash
	Vout    int64
}

type OutFact struct {
	Trans int
	Sats  int64
	Addr  int // height of its address
}

type BlockFact struct {
	Hash       Hash
	First, Txs int
	Ints       map[string]int64
	Src        *btc.Block
}

// World is everything that should be readable about an ingested chain.
type World struct {
	Blocks   []BlockFact
	Tx       []TxFact
	In       []InFact
	Out      []OutFact
	AddrHash []Hash          // one per output (an address's height is that of its first output)
	AddrOuts map[int][]int64 // address height -> heights of its outputs
}

func median(times []uint32) uint32 {
	if len(times) > 11 {
		times = times[len(times)-11:]
	}
	s := append([]uint32(nil), times...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	return s[len(s)/2]
}

// Describe derives the facts of a chain.
func Describe(blocks []*btc.Block) *World {
	w := &World{AddrOuts: map[int][]int64{}}
	byId := map[Hash][]int{}
	addr := map[Hash]int{}
	var times []uint32
	for bi, b := range blocks {
		times = append(times, b.Time)
		w.Blocks = append(w.Blocks, BlockFact{Hash: b.Hash(), First: len(w.Tx), Txs: len(b.Txs), Src: b, Ints: map[string]int64{
			"version": int64(b.Version), "time": int64(b.Time), "mediantime": int64(median(times)), "nonce": int64(b.Nonce),
			"difficulty": int64(math.Round(btc.Difficulty(b.NBits))), "strippedsize": int64(b.Stripped()), "size": int64(b.Size()), "weight": int64(b.Weight()),
		}})
		for ti, t := range b.Txs {
			id, h := t.Id(), len(w.Tx)
			f := TxFact{Id: id, Copy: len(byId[id]) > 0, Block: bi, Pos: ti, FirstIn: len(w.In), FirstOut: len(w.Out), Outs: len(t.Outs), Src: t, Ints: map[string]int64{
				"version": int64(t.Version), "size": int64(t.Size()), "vsize": int64(t.VSize()), "weight": int64(t.Weight()), "locktime": int64(t.LockTime),
			}}
			if ti > 0 {
				f.Ins = len(t.Ins)
				for i := range t.Ins {
					in := InFact{Trans: h, Sources: map[int64]bool{}, Vout: int64(t.Ins[i].Vout), SrcHash: t.Ins[i].Prev}
					for _, s := range byId[t.Ins[i].Prev] {
						in.Sources[int64(s)] = true
					}
					if len(in.Sources) == 0 {
						panic("the harness made an input that spends nothing")
					}
					w.In = append(w.In, in)
				}
			}
			for i := range t.Outs {
				ah := Hash(sha256.Sum256(t.Outs[i].Script))
				a, ok := addr[ah]
				if !ok {
					a = len(w.Out)
					addr[ah] = a
				}
				w.AddrHash = append(w.AddrHash, ah)
				w.AddrOuts[a] = append(w.AddrOuts[a], int64(len(w.Out)))
				w.Out = append(w.Out, OutFact{Trans: h, Sats: t.Outs[i].Value, Addr: a})
			}
			byId[id] = append(byId[id], h)
			w.Tx = append(w.Tx, f)
		}
	}
	return w
}

// Script is the locking script of the n-th named address.
func Script(n int) []byte { return btc.Bytes(20+n%7, 1000+n) }

// Builder makes chains step by step; every step is valid on every chain.
type Builder struct {
	Blocks  []*btc.Block
	unspent []btc.In // outputs that can still be spent, oldest first
	fresh   int
	tag     int
}

func NewBuilder() *Builder {
	b := &Builder{}
	g := btc.Genesis()
	b.Blocks = append(b.Blocks, g)
	b.spendable(g.Txs[0])
	return b
}

func (b *Builder) Last() *btc.Block { return b.Blocks[len(b.Blocks)-1] }

func (b *Builder) spendable(t *btc.Tx) {
	id := t.Id()
	for i := range t.Outs {
		b.unspent = append(b.unspent, btc.In{Prev: id, Vout: uint32(i), Seq: 0xffffffff})
	}
}

// Fresh is a script never used before.
func (b *Builder) Fresh() []byte { b.fresh++; return Script(100 + b.fresh) }

func (b *Builder) Block(coinbase *btc.Tx) {
	b.tag++
	n := len(b.Blocks)
	bl := &btc.Block{Version: uint32(n), Merkle: btc.Tagged("merkle", n, b.tag), NBits: 0x1d00ffff - uint32(n%3)*0x01000000,
		// times wander, as they may
		Time: 1231006505 + uint32(n*600) - uint32((n*n%7)*900), Nonce: uint32(n)*2654435761 + uint32(b.tag), Txs: []*btc.Tx{coinbase}}
	bl.Prev = b.Last().Hash()
	b.Blocks = append(b.Blocks, bl)
	b.spendable(coinbase)
}

// Relink recomputes the previous-hash links (needed only if a finished block was changed).
func (b *Builder) Relink() {
	for i := 1; i < len(b.Blocks); i++ {
		b.Blocks[i].Prev = b.Blocks[i-1].Hash()
	}
}

func (b *Builder) Coinbase(outs ...btc.Out) *btc.Tx {
	b.tag++
	return btc.Coinbase(b.tag, outs...)
}

// Take removes n spendable outputs, from the oldest or the newest end.
func (b *Builder) Take(n int, newest bool) []btc.In {
	if n > len(b.unspent) {
		n = len(b.unspent)
	}
	var r []btc.In
	if newest {
		r = append(r, b.unspent[len(b.unspent)-n:]...)
		b.unspent = b.unspent[:len(b.unspent)-n]
	} else {
		r = append(r, b.unspent[:n]...)
		b.unspent = b.unspent[n:]
	}
	return r
}

func (b *Builder) Spend(ins []btc.In, outs ...btc.Out) *btc.Tx {
	b.tag++
	t := &btc.Tx{Version: uint32(1 + b.tag%2), LockTime: uint32(b.tag * 77), Outs: outs}
	for i, in := range ins {
		in.Script = btc.Bytes(b.tag%5, i)
		t.Ins = append(t.Ins, in)
	}
	if b.tag%3 == 0 {
		t.SegWit = true
		for i := range t.Ins {
			t.Ins[i].Witness = [][]byte{btc.Bytes(10+b.tag, i)}
		}
	}
	bl := b.Last()
	bl.Txs = append(bl.Txs, t)
	b.spendable(t)
	return t
}

// Ops are the steps chains are built from.
var Ops = []string{"block:A", "block:B,A", "block:same coinbase again", "spend oldest>fresh", "spend newest>A,A", "spend two oldest>B,fresh,A(0)", "block:no outputs"}

func (b *Builder) Do(op int) {
	a, bb := Script(0), Script(1)
	v := int64(len(b.Blocks))*100000007 + int64(b.tag)
	switch op {
	case 0:
		b.Block(b.Coinbase(btc.Out{Value: 5000000000, Script: a}))
	case 1:
		b.Block(b.Coinbase(btc.Out{Value: v, Script: bb}, btc.Out{Value: 1, Script: a}))
	case 2:
		b.Block(b.Last().Txs[0])
	case 3:
		b.Spend(b.Take(1, false), btc.Out{Value: v, Script: b.Fresh()})
	case 4:
		b.Spend(b.Take(1, true), btc.Out{Value: v, Script: a}, btc.Out{Value: 2100000000000000, Script: a})
	case 5:
		b.Spend(b.Take(2, false), btc.Out{Value: v, Script: bb}, btc.Out{Value: 546, Script: b.Fresh()}, btc.Out{Value: 0, Script: a})
	case 6:
		b.Block(b.Coinbase())
	}
}

// Of builds the chain of a sequence of steps.
func Of(seq []int) []*btc.Block {
	b := NewBuilder()
	for _, op := range seq {
		b.Do(op)
	}
	b.Relink()
	return b.Blocks
}

func Name(seq []int) string {
	s := "genesis"
	for _, op := range seq {
		s += fmt.Sprintf("; %s", Ops[op])
	}
	return s
}
