// C12: binary blocks are parsed exactly as serialised.
package main

import (
	"bytes"
	"fmt"
	"math"
	"time"

	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"github.com/KitchenMishap/pudding-shed/zz_verif/btc"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

// compare says where the parsed block departs from the model block.
func compare(got *intrinsicobjects.Block, want *btc.Block) string {
	type f struct {
		name string
		a, b any
	}
	for _, x := range []f{
		{"block hash", [32]byte(got.BlockHash), want.Hash()},
		{"version", got.Version, want.Version},
		{"previous hash", [32]byte(got.PrevHash), want.Prev},
		{"merkle root", [32]byte(got.MerkleRoot), want.Merkle},
		{"time", got.Time, want.Time},
		{"nbits", got.NBits, want.NBits},
		{"nonce", got.Nonce, want.Nonce},
		{"size", got.Size, want.Size()},
		{"stripped size", got.StrippedSize, want.Stripped()},
		{"weight", got.Weight, want.Weight()},
		{"transactions", len(got.Transactions), len(want.Txs)},
	} {
		if x.a != x.b {
			return fmt.Sprintf("%s is %v, should be %v", x.name, x.a, x.b)
		}
	}
	if a, b := got.Difficulty, btc.Difficulty(want.NBits); math.Abs(a-b) > 1e-12*b {
		return fmt.Sprintf("difficulty is %v, should be %v", a, b)
	}
	for n, w := range want.Txs {
		g := &got.Transactions[n]
		for _, x := range []f{
			{"identifier", [32]byte(g.TxId), w.Id()},
			{"version", g.Version, w.Version},
			{"segwit mark", g.IsSegWit, w.SegWit},
			{"inputs", g.TxiCount(), int64(len(w.Ins))},
			{"outputs", g.TxoCount(), int64(len(w.Outs))},
			{"size", g.Size, w.Size()},
			{"stripped size", g.StrippedSize, w.Stripped()},
			{"weight", g.Weight, w.Weight()},
			{"virtual size", g.VSize, w.VSize()},
		} {
			if x.a != x.b {
				return fmt.Sprintf("transaction %d: %s is %v, should be %v", n, x.name, x.a, x.b)
			}
		}
		for i := range w.Ins {
			ti := g.GetTxi(got.Storage, int64(i))
			if [32]byte(ti.TxId) != w.Ins[i].Prev || ti.VOut != int64(w.Ins[i].Vout) {
				return fmt.Sprintf("transaction %d: input %d spends %x:%d, should be %x:%d", n, i, ti.TxId, ti.VOut, w.Ins[i].Prev, w.Ins[i].Vout)
			}
		}
		for i := range w.Outs {
			to := g.GetTxo(got.Storage, int64(i))
			if to.Value != w.Outs[i].Value {
				return fmt.Sprintf("transaction %d: output %d has value %d, should be %d", n, i, to.Value, w.Outs[i].Value)
			}
			s := got.Storage.Scripts[to.ScriptPubKeyStart : to.ScriptPubKeyStart+to.ScriptPubKeyLen]
			if !bytes.Equal(s, w.Outs[i].Script) {
				return fmt.Sprintf("transaction %d: output %d has a script of %d bytes %.40x, should be %d bytes %.40x", n, i, len(s), s, len(w.Outs[i].Script), w.Outs[i].Script)
			}
		}
	}
	return ""
}

func check(c *vk.Ctx, group string, desc func() string, make func() *btc.Block) {
	c.Case(group, desc, func(t *vk.T) {
		m := make()
		bin := m.Binary()
		keep := append([]byte{}, bin...)
		var b intrinsicobjects.Block
		intrinsicobjects.ParseBinaryBlock(bin, &b)
		t.Step(1)
		t.State(desc())
		if msg := compare(&b, m); msg != "" {
			t.Fail("%s", msg)
		}
		if !bytes.Equal(bin, keep) {
			t.Fail("parsing changed its input")
		}
		// what was parsed does not depend on the input buffer any more
		for i := range bin {
			bin[i] ^= 0xff
		}
		if msg := compare(&b, m); msg != "" {
			t.Fail("after the input buffer is reused: %s", msg)
		}
		t.Nontrivial()
	})
}

// txs is the alphabet of transactions for the shape exploration.
var txs = []struct {
	name string
	tx   func(pos int) *btc.Tx
}{
	{"plain 1-1", func(p int) *btc.Tx { return shape(p, 1, 1, nil) }},
	{"plain 2-1", func(p int) *btc.Tx { return shape(p, 2, 1, nil) }},
	{"plain 1-3", func(p int) *btc.Tx { return shape(p, 1, 3, nil) }},
	{"segwit 1-1 w0", func(p int) *btc.Tx { return shape(p, 1, 1, [][]int{{}}) }},
	{"segwit 1-2 w1", func(p int) *btc.Tx { return shape(p, 1, 2, [][]int{{5}}) }},
	{"segwit 2-1 w2,0", func(p int) *btc.Tx { return shape(p, 2, 1, [][]int{{72, 33}, {}}) }},
	{"segwit 2-2 w0,3", func(p int) *btc.Tx { return shape(p, 2, 2, [][]int{{}, {0, 0, 1}}) }},
	{"segwit 3-1 w1,2,1", func(p int) *btc.Tx { return shape(p, 3, 1, [][]int{{64}, {1, 254}, {253}}) }},
	{"segwit coinbase", func(p int) *btc.Tx {
		t := btc.Coinbase(p, btc.Out{Value: 625000000, Script: btc.Bytes(22, p)}, btc.Out{Script: btc.Bytes(38, p+1)})
		t.SegWit, t.Ins[0].Witness = true, [][]byte{make([]byte, 32)}
		return t
	}},
	{"coinbase", func(p int) *btc.Tx { return btc.Coinbase(p, btc.Out{Value: 5000000000, Script: btc.Bytes(67, p)}) }},
	{"no outputs script", func(p int) *btc.Tx {
		t := shape(p, 1, 2, nil)
		t.Outs[0].Script = nil
		t.Outs[1].Script = nil
		return t
	}},
}

func shape(p, ins, outs int, wit [][]int) *btc.Tx {
	t := &btc.Tx{Version: uint32(p + 1), LockTime: uint32(p*1000 + 7), SegWit: wit != nil}
	for i := 0; i < ins; i++ {
		in := btc.In{Prev: btc.Tagged("prev", p, i), Vout: uint32(i * 3), Script: btc.Bytes(i*50+p, i), Seq: uint32(0xfffffffe - i)}
		if wit != nil {
			for j, n := range wit[i] {
				in.Witness = append(in.Witness, btc.Bytes(n, j+p))
			}
		}
		t.Ins = append(t.Ins, in)
	}
	for i := 0; i < outs; i++ {
		t.Outs = append(t.Outs, btc.Out{Value: int64(i+1)*1e8 + int64(p), Script: btc.Bytes(25+i*p, i+p)})
	}
	return t
}

func block(ts ...*btc.Tx) *btc.Block {
	return &btc.Block{Version: 0x20000000, Prev: btc.Tagged("prev"), Merkle: btc.Tagged("merkle", len(ts)), Time: 1700000000, NBits: 0x17034219, Nonce: 0xdeadbeef, Txs: ts}
}

func main() {
	vk.Main(vk.Spec{
		Property:  "C12",
		CaseLimit: 60 * time.Second,
		Rule:      "every sequence of transaction shapes up to the bound; every boundary of the length encoding for every counted or length-prefixed field, alone and for pairs of fields; every pair of corner values of the integer fields; every pair of blocks parsed into the same object",
		Bounds: func(tier string) map[string]any {
			return map[string]any{"transactions of free shape": "0..3 (quick) 0..5 (thorough) from 11 shapes", "length boundaries": "0,1,252..256,65534..65537 (thorough also 131072)", "corner integers": "0,1,127,128,255,256,65535,65536,2^31-1,2^31,2^32-1 and for amounts up to 2^63-1"}
		},
		Assumptions: []string{"well-formed blocks: at least one input per transaction, canonical length encodings, difficulty bits with a positive target"},
		Run: func(c *vk.Ctx) {
			// the genesis block
			check(c, "shapes", func() string { return "genesis block" }, btc.Genesis)
			for n := 0; n <= vk.Pick(c, 3, 5); n++ {
				vk.Seqs(len(txs), n, func(seq []int) {
					seq = append([]int{}, seq...)
					check(c, "shapes", func() string { return fmt.Sprintf("shapes %v", names(seq)) }, func() *btc.Block { return of(seq) })
				})
			}
			// length encodings
			lens := []int{0, 1, 252, 253, 254, 255, 256, 65534, 65535, 65536, 65537}
			if c.Thorough() {
				lens = append(lens, 2, 127, 128, 257, 511, 512, 32767, 32768, 131071, 131072)
			}
			const fields = 7
			fieldNames := []string{"input script length", "output script length", "witness item length", "witness item count", "input count", "output count", "transaction count"}
			set := func(b *btc.Block, field, n int) {
				t := b.Txs[0]
				switch field {
				case 0:
					t.Ins[0].Script = btc.Bytes(n, 1)
				case 1:
					t.Outs[0].Script = btc.Bytes(n, 2)
				case 2:
					t.SegWit = true
					t.Ins[0].Witness = append(t.Ins[0].Witness, btc.Bytes(n, 3))
				case 3:
					t.SegWit = true
					for len(t.Ins[0].Witness) < n {
						t.Ins[0].Witness = append(t.Ins[0].Witness, btc.Bytes(len(t.Ins[0].Witness)%3, n))
					}
				case 4:
					for i := len(t.Ins); i < n; i++ {
						t.Ins = append(t.Ins, btc.In{Prev: btc.Tagged(i), Vout: uint32(i), Seq: uint32(i)})
					}
				case 5:
					for i := len(t.Outs); i < n; i++ {
						t.Outs = append(t.Outs, btc.Out{Value: int64(i), Script: btc.Bytes(i%5, i)})
					}
				case 6:
					for i := len(b.Txs); i < n; i++ {
						b.Txs = append(b.Txs, shape(i%7, 1+i%2, 1, nil))
					}
				}
			}
			for f := 0; f < fields; f++ {
				for _, n := range lens {
					for _, tail := range []bool{false, true} {
						check(c, "lengths", func() string {
							return fmt.Sprintf("%s %d, followed by another transaction: %v", fieldNames[f], n, tail)
						}, func() *btc.Block {
							b := block(shape(1, 1, 1, nil))
							set(b, f, n)
							if tail {
								b.Txs = append(b.Txs, txs[6].tx(2))
							}
							return b
						})
					}
				}
			}
			pair := []int{0, 252, 253, 255, 256, 65535, 65536}
			for f := 0; f < fields; f++ {
				for g := f + 1; g < fields; g++ {
					for _, n := range pair {
						for _, m := range pair {
							if n > 300 && m > 300 && f >= 2 && !c.Thorough() {
								continue
							}
							check(c, "length pairs", func() string { return fmt.Sprintf("%s %d with %s %d", fieldNames[f], n, fieldNames[g], m) }, func() *btc.Block {
								b := block(shape(1, 1, 1, nil), txs[5].tx(1))
								set(b, f, n)
								set(b, g, m)
								return b
							})
						}
					}
				}
			}
			// integer fields
			ints := []uint32{0, 1, 127, 128, 255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}
			bits := []uint32{0x1d00ffff, 0x1d00fffe, 0x1d000001, 0x1c7fffff, 0x1b0404cb, 0x1a05db8b, 0x17034219, 0x170d1f8c, 0x207fffff, 0x1e0fffff, 0x03123456, 0x04123456, 0x1703ffff, 0x160fffff}
			names := []string{"block version", "time", "nonce", "transaction version", "lock time", "sequence", "output index"}
			setInt := func(b *btc.Block, f int, v uint32) {
				t := b.Txs[len(b.Txs)-1]
				switch f {
				case 0:
					b.Version = v
				case 1:
					b.Time = v
				case 2:
					b.Nonce = v
				case 3:
					t.Version = v
				case 4:
					t.LockTime = v
				case 5:
					t.Ins[0].Seq = v
				case 6:
					t.Ins[0].Vout = v
				}
			}
			for kind := range []int{0, 1} {
				mk := func() *btc.Block { return block(txs[9].tx(0), txs[kind*4].tx(1)) }
				for f := range names {
					for g := f; g < len(names); g++ {
						for _, v := range ints {
							for _, w := range ints {
								if f == g && v != w {
									continue
								}
								check(c, "integers", func() string {
									return fmt.Sprintf("%s %d, %s %d, transaction %s", names[f], v, names[g], w, txs[kind*4].name)
								}, func() *btc.Block {
									b := mk()
									setInt(b, f, v)
									setInt(b, g, w)
									return b
								})
							}
						}
					}
				}
			}
			for _, n := range bits {
				check(c, "integers", func() string { return fmt.Sprintf("difficulty bits %08x", n) }, func() *btc.Block { b := block(txs[9].tx(0)); b.NBits = n; return b })
			}
			for sh := uint(0); sh < 63; sh++ {
				for d := int64(-1); d <= 1; d++ {
					v := int64(1)<<sh + d
					check(c, "amounts", func() string { return fmt.Sprintf("amount %d", v) }, func() *btc.Block {
						t := shape(1, 1, 2, nil)
						t.Outs[0].Value, t.Outs[1].Value = v, 2100000000000000-v%1000
						return block(t)
					})
				}
			}
			// one object, several blocks
			reuse := [][]int{{}, {9}, {8, 4, 7}, {0, 1, 2, 3}, {5}, {10, 6, 2}, {1, 1, 1, 1, 1, 1}}
			vk.Seqs(len(reuse), vk.Pick(c, 3, 4), func(seq []int) {
				seq = append([]int{}, seq...)
				c.Case("reuse", func() string { return fmt.Sprintf("the same object for blocks %v", seq) }, func(t *vk.T) {
					var b intrinsicobjects.Block
					for i, k := range seq {
						m := of(reuse[k])
						m.Nonce = uint32(i)
						intrinsicobjects.ParseBinaryBlock(m.Binary(), &b)
						t.Step(1)
						t.State(seq[:i+1])
						if msg := compare(&b, m); msg != "" {
							t.Fail("block %d: %s", i, msg)
						}
					}
					t.Nontrivial()
				})
			})
		},
	})
}

func of(seq []int) *btc.Block {
	b := block()
	for i, k := range seq {
		b.Txs = append(b.Txs, txs[k].tx(i))
	}
	return b
}

func names(seq []int) (r []string) {
	for _, k := range seq {
		r = append(r, txs[k].name)
	}
	return
}
