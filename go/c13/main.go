// C13: the JSON and binary forms of the same block give the same facts; malformed JSON is an error.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"github.com/KitchenMishap/pudding-shed/zz_verif/btc"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

type block = intrinsicobjects.Block

// facts lists every field both forms carry.
func facts(b *block) []string {
	var r []string
	add := func(f string, a ...any) { r = append(r, fmt.Sprintf(f, a...)) }
	add("hash %x", b.BlockHash)
	add("version %d", b.Version)
	add("previous %x", b.PrevHash)
	add("merkle %x", b.MerkleRoot)
	add("time %d", b.Time)
	add("nbits %08x", b.NBits)
	add("nonce %d", b.Nonce)
	add("size %d", b.Size)
	add("stripped %d", b.StrippedSize)
	add("weight %d", b.Weight)
	// the chain stores the difficulty rounded
	add("difficulty %d", int64(math.Round(b.Difficulty)))
	add("transactions %d", len(b.Transactions))
	for n := range b.Transactions {
		t := &b.Transactions[n]
		add("tx %d id %x version %d segwit %v size %d stripped %d weight %d vsize %d ins %d outs %d", n, t.TxId, t.Version, t.IsSegWit, t.Size, t.StrippedSize, t.Weight, t.VSize, t.TxiCount(), t.TxoCount())
		for i := int64(0); i < t.TxiCount(); i++ {
			in := t.GetTxi(b.Storage, i)
			if n == 0 {
				in.VOut = 0 // a coinbase input has no source; its JSON form carries no index
			}
			add("tx %d in %d: %x:%d", n, i, in.TxId, in.VOut)
		}
		for i := int64(0); i < t.TxoCount(); i++ {
			o := t.GetTxo(b.Storage, i)
			add("tx %d out %d: %d to %x", n, i, o.Value, b.Storage.Scripts[o.ScriptPubKeyStart:o.ScriptPubKeyStart+o.ScriptPubKeyLen])
		}
	}
	return r
}

func differ(a, b *block) string {
	fa, fb := facts(a), facts(b)
	for i := range fa {
		if i >= len(fb) || fa[i] != fb[i] {
			o := "nothing"
			if i < len(fb) {
				o = fb[i]
			}
			return fmt.Sprintf("JSON gives %.300s; binary gives %.300s", fa[i], o)
		}
	}
	if len(fa) != len(fb) {
		return "different numbers of facts"
	}
	return ""
}

func same(c *vk.Ctx, group string, desc func() string, height int, mk func() *btc.Block) {
	c.Case(group, desc, func(t *vk.T) {
		m := mk()
		var a, b block
		if err := intrinsicobjects.ParseJsonBlock(m.JSON(height, m.Time-600), &a); err != nil {
			t.Fail("valid JSON rejected: %v", err)
		}
		intrinsicobjects.ParseBinaryBlock(m.Binary(), &b)
		t.Step(2)
		t.State(desc())
		if d := differ(&a, &b); d != "" {
			t.Fail("%s", d)
		}
		// and both agree with the model on the amounts
		for n, w := range m.Txs {
			for i := range w.Outs {
				if v := a.Transactions[n].GetTxo(a.Storage, int64(i)).Value; v != w.Outs[i].Value {
					t.Fail("transaction %d output %d: JSON value %s became %d", n, i, btc.Amount(w.Outs[i].Value), v)
				}
			}
		}
		t.Nontrivial()
	})
}

func shape(p, ins, outs int, wit [][]int) *btc.Tx {
	t := &btc.Tx{Version: uint32(p + 1), LockTime: uint32(p*1000 + 7), SegWit: wit != nil}
	for i := 0; i < ins; i++ {
		in := btc.In{Prev: btc.Tagged("prev", p, i), Vout: uint32(i * 3), Script: btc.Bytes(i*50+p, i), Seq: uint32(0xfffffffe - i)}
		if wit != nil {
			for j, n := range wit[i] {
				in.Witness = append(in.Witness, btc.Bytes(n, j+p))
			}
		}
		t.Ins = append(t.Ins, in)
	}
	for i := 0; i < outs; i++ {
		t.Outs = append(t.Outs, btc.Out{Value: int64(i+1)*123456789 + int64(p), Script: btc.Bytes(25+i*p, i+p)})
	}
	return t
}

var coinbases = []func(p int) *btc.Tx{
	func(p int) *btc.Tx { return btc.Coinbase(p, btc.Out{Value: 5000000000, Script: btc.Bytes(67, p)}) },
	func(p int) *btc.Tx {
		t := btc.Coinbase(p, btc.Out{Value: 625000001, Script: btc.Bytes(22, p)}, btc.Out{Script: btc.Bytes(38, p+1)})
		t.SegWit, t.Ins[0].Witness = true, [][]byte{make([]byte, 32)}
		return t
	},
}

var shapes = []func(p int) *btc.Tx{
	func(p int) *btc.Tx { return shape(p, 1, 1, nil) },
	func(p int) *btc.Tx { return shape(p, 2, 3, nil) },
	func(p int) *btc.Tx { return shape(p, 1, 2, [][]int{{0}}) },
	func(p int) *btc.Tx { return shape(p, 2, 1, [][]int{{72, 33}, {}}) },
	func(p int) *btc.Tx { return shape(p, 3, 2, [][]int{{64}, {1, 254}, {253}}) },
	func(p int) *btc.Tx { t := shape(p, 1, 2, nil); t.Outs[0].Script, t.Outs[0].Value = nil, 0; return t },
	func(p int) *btc.Tx { return shape(p, 1, 1, [][]int{{}}) },
}

func of(seq []int) *btc.Block {
	b := &btc.Block{Version: 0x20000000, Prev: btc.Tagged("prev"), Merkle: btc.Tagged("merkle", seq), Time: 1700000000, NBits: 0x17034219, Nonce: 0xdeadbeef}
	for i, k := range seq {
		if i == 0 {
			b.Txs = append(b.Txs, coinbases[k%len(coinbases)](i))
		} else {
			b.Txs = append(b.Txs, shapes[k](i))
		}
	}
	return b
}

// amounts parses many amounts at once, written the way the node and other tools write them.
func amounts(c *vk.Ctx, name string, vals func() []int64) {
	c.Case("amounts", func() string { return "amounts " + name }, func(t *vk.T) {
		vs := vals()
		for style := 0; style < 3; style++ {
			var s strings.Builder
			fmt.Fprintf(&s, `{"txid":"%064x","version":1,"size":100,"vsize":100,"weight":400,"locktime":0,"vin":[],"vout":[`, 1)
			for i, v := range vs {
				if i > 0 {
					s.WriteByte(',')
				}
				a := btc.Amount(v)
				switch style {
				case 1: // no trailing zeroes
					a = strings.TrimRight(strings.TrimRight(a, "0"), ".")
				case 2: // exponent
					a = fmt.Sprintf("%de-8", v)
				}
				fmt.Fprintf(&s, `{"value":%s,"n":%d,"scriptPubKey":{"hex":"51"}}`, a, i)
			}
			s.WriteString("]}")
			var tr intrinsicobjects.Transaction
			st := intrinsicobjects.NewMultiTransactionStorage()
			if err := intrinsicobjects.ParseJsonTransaction([]byte(s.String()), &tr, st); err != nil {
				t.Fail("valid JSON rejected: %v", err)
			}
			t.Step(len(vs))
			for i, v := range vs {
				if got := tr.GetTxo(st, int64(i)).Value; got != v {
					t.Fail("amount %s (style %d) became %d satoshis", btc.Amount(v), style, got)
				}
			}
		}
		t.State(name)
		t.Nontrivial()
	})
}

// mustReject: the parser reports an error for a document that is not well-formed JSON.
func malformed(c *vk.Ctx, group string, desc func() string, doc func() []byte) {
	c.Case(group, desc, func(t *vk.T) {
		d := doc()
		var b block
		err := intrinsicobjects.ParseJsonBlock(d, &b)
		t.Step(1)
		t.State(desc())
		if !json.Valid(d) && err == nil {
			t.Fail("malformed JSON accepted")
		}
		if err != nil {
			t.Outcome("rejected")
			t.Nontrivial()
		} else {
			t.Outcome("still valid")
		}
	})
}

func main() {
	money := int64(2100000000000000)
	vk.Main(vk.Spec{
		Property:  "C13",
		CaseLimit: 60 * time.Second,
		Rule:      "every sequence of transaction shapes up to the bound rendered to both forms; every pair of integer corner values; all difficulty bits of a range; all amounts in windows at every digit and rounding boundary up to the money supply; every truncation, deletion and replacement of a byte of a JSON document; every damaged field",
		Bounds: func(tier string) map[string]any {
			return map[string]any{"transactions after the coinbase": "0..3 (quick) 0..5 (thorough) from 7 shapes", "amount window": "2000 (quick) 200000 (thorough) around each boundary", "difficulty bits": "0x17020000..0x17040000 (quick); all mantissas of 13 exponents in steps of 1 to 64 (thorough)"}
		},
		Assumptions: []string{"documents as the node writes them; hash fields hold hexadecimal digits"},
		Run: func(c *vk.Ctx) {
			same(c, "shapes", func() string { return "genesis block" }, 0, btc.Genesis)
			for n := 0; n <= vk.Pick(c, 3, 5); n++ {
				vk.Seqs(len(shapes), n, func(seq []int) {
					for cb := range coinbases {
						all := append([]int{cb}, seq...)
						same(c, "shapes", func() string { return fmt.Sprintf("coinbase and shapes %v", all) }, 5, func() *btc.Block { return of(all) })
					}
				})
			}
			// many transactions, inputs, outputs, long scripts
			for _, n := range []int{252, 253, 254, 65535, 65536} {
				for f := 0; f < 4; f++ {
					same(c, "sizes", func() string { return fmt.Sprintf("field %d of size %d", f, n) }, 5, func() *btc.Block {
						b := of([]int{0, 0})
						t := b.Txs[1]
						switch f {
						case 0:
							t.Outs[0].Script = btc.Bytes(n, 2)
						case 1:
							for i := len(t.Ins); i < n; i++ {
								t.Ins = append(t.Ins, btc.In{Prev: btc.Tagged(i), Vout: uint32(i)})
							}
						case 2:
							for i := len(t.Outs); i < n; i++ {
								t.Outs = append(t.Outs, btc.Out{Value: int64(i), Script: btc.Bytes(i%3, i)})
							}
						case 3:
							for i := len(b.Txs); i < n && i < 3000; i++ {
								b.Txs = append(b.Txs, shapes[i%len(shapes)](i%9))
							}
						}
						return b
					})
				}
			}
			// integers
			ints := []uint32{0, 1, 127, 128, 255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}
			fields := []string{"block version", "time", "nonce", "transaction version", "lock time", "sequence", "output index"}
			set := func(b *btc.Block, f int, v uint32) {
				t := b.Txs[len(b.Txs)-1]
				switch f {
				case 0:
					b.Version = v
				case 1:
					b.Time = v
				case 2:
					b.Nonce = v
				case 3:
					t.Version = v
				case 4:
					t.LockTime = v
				case 5:
					t.Ins[0].Seq = v
				case 6:
					t.Ins[0].Vout = v
				}
			}
			for f := range fields {
				for g := f; g < len(fields); g++ {
					for _, v := range ints {
						for _, w := range ints {
							if f == g && v != w {
								continue
							}
							same(c, "integers", func() string { return fmt.Sprintf("%s %d, %s %d", fields[f], v, fields[g], w) }, 5, func() *btc.Block {
								b := of([]int{int(v) % 2, int(w) % 5})
								set(b, f, v)
								set(b, g, w)
								return b
							})
						}
					}
				}
			}
			// difficulty
			diff := func(from, to, step uint32) {
				for lo := from; lo < to; lo += 4096 * step {
					c.Case("difficulty", func() string { return fmt.Sprintf("difficulty bits from %08x in steps of %d", lo, step) }, func(t *vk.T) {
						m := of([]int{0})
						var a, b block
						for n := lo; n < lo+4096*step && n < to; n += step {
							if n&0xffffff == 0 || n&0x800000 != 0 {
								continue
							}
							m.NBits = n
							if err := intrinsicobjects.ParseJsonBlock(m.JSON(5, 1), &a); err != nil {
								t.Fail("bits %08x: valid JSON rejected: %v", n, err)
							}
							intrinsicobjects.ParseBinaryBlock(m.Binary(), &b)
							t.Step(2)
							if x, y := int64(math.Round(a.Difficulty)), int64(math.Round(b.Difficulty)); x != y || a.NBits != b.NBits || a.NBits != n {
								t.Fail("bits %08x: stored difficulty from JSON is %d (nbits %08x), from binary %d (nbits %08x)", n, x, a.NBits, y, b.NBits)
							}
							if want := int64(math.Round(btc.Difficulty(n))); int64(math.Round(b.Difficulty)) != want {
								t.Fail("bits %08x: difficulty is %v, should be %d", n, b.Difficulty, want)
							}
						}
						t.State(lo)
						t.Nontrivial()
					})
				}
			}
			diff(0x17020000, 0x17040000, 1)
			diff(0x1d00fff0, 0x1d010000, 1)
			diff(0x1b0404c0, 0x1b0404d0, 1)
			if c.Thorough() {
				for e := uint32(0x16); e <= 0x20; e++ {
					diff(e<<24+0x8000, e<<24+0x800000, 16)
				}
				diff(0x17008000, 0x17100000, 1)
				diff(0x16400000, 0x16800000, 4)
			}
			// amounts
			win := vk.Pick(c, int64(1000), int64(100000))
			chunk := func(name string, from, to int64) {
				if from < 0 {
					from = 0
				}
				if to > money {
					to = money
				}
				for lo := from; lo <= to; lo += 5000 {
					amounts(c, fmt.Sprintf("%s from %d", name, lo), func() (vs []int64) {
						for v := lo; v < lo+5000 && v <= to; v++ {
							vs = append(vs, v)
						}
						return
					})
				}
			}
			chunk("smallest", 0, 20*win)
			for p := int64(10); p <= money; p *= 10 {
				for d := int64(1); d <= 9; d++ {
					chunk(fmt.Sprintf("around %d", d*p), d*p-win/2, d*p+win/2)
				}
			}
			for sh := 1; sh < 51; sh++ {
				chunk(fmt.Sprintf("around 2^%d", sh), 1<<sh-win, 1<<sh+win)
			}
			chunk("money supply", money-20*win, money)
			for h, v := 0, int64(5000000000); v > 0; h, v = h+1, v/2 {
				chunk(fmt.Sprintf("subsidy %d", h), v-win/4, v+win/4)
			}
			// malformed documents
			doc := of([]int{1, 3}).JSON(5, 9)
			small := of([]int{0}).JSON(5, 9)
			for _, d := range [][]byte{doc, small} {
				body := bytes.TrimRight(d, "\n")
				for n := 0; n < len(body); n++ {
					malformed(c, "truncated", func() string { return fmt.Sprintf("document of %d bytes cut to %d", len(body), n) }, func() []byte { return body[:n] })
				}
				for n := 0; n < len(body); n++ {
					malformed(c, "byte deleted", func() string { return fmt.Sprintf("document of %d bytes without byte %d", len(body), n) }, func() []byte {
						return append(append([]byte{}, body[:n]...), body[n+1:]...)
					})
					for _, r := range []byte{0, '"', '{', '}', ',', ':', 'x', 0xff, '\\', ' ', '-'} {
						if !c.Thorough() && n > 900 && strings.IndexByte(`"{}[]:,`, body[n]) < 0 {
							continue
						}
						malformed(c, "byte replaced", func() string { return fmt.Sprintf("document of %d bytes with byte %d = %q", len(body), n, r) }, func() []byte {
							x := append([]byte{}, body...)
							x[n] = r
							return x
						})
					}
				}
				for _, tail := range []string{"x", "{}", "]", "null", "\x00", ",", body2(body)} {
					malformed(c, "trailing", func() string { return fmt.Sprintf("document followed by %.20q", tail) }, func() []byte { return append(append([]byte{}, body...), tail...) })
				}
			}
			// damaged fields: each is a value the node would never write, and which cannot stand for a block
			good := string(of([]int{1, 3}).JSON(5, 9))
			h := func(s string) string { i := strings.Index(good, s); return good[i : i+len(s)+64] }
			hash, prev, merkle, txid := h(`"hash":"`), h(`"previousblockhash":"`), h(`"merkleroot":"`), h(`"txid":"`)
			in := strings.LastIndex(good, `"vin":[{"txid":"`)
			vin := good[in : in+len(`"vin":[{"txid":"`)+64]
			type damage struct{ name, from, to string }
			ds := []damage{{"bits missing", `"bits":"17034219",`, ``}, {"bits not hexadecimal", `"bits":"17034219"`, `"bits":"1703421g"`}, {"bits too long", `"bits":"17034219"`, `"bits":"1703421900"`}, {"bits a number", `"bits":"17034219"`, `"bits":17034219`},
				{"version a string", `"version":536870912`, `"version":"536870912"`}, {"version fractional", `"version":536870912`, `"version":1.5`}, {"time a string", `"time":1700000000`, `"time":"1700000000"`}, {"nonce null text", `"nonce":3735928559`, `"nonce":{}`},
				{"transactions an object", `"tx":[`, `"tx":{},"ty":[`}, {"transactions as identifiers", `"tx":[`, `"tx":["` + strings.Repeat("0", 64) + `",`}, {"amount a string", `"value":6.25000001`, `"value":"6.25000001"`}, {"amount an object", `"value":6.25000001`, `"value":{}`},
				{"document an array", `{"hash"`, `[{"hash"`}}
			for _, f := range []struct{ name, s string }{{"block hash", hash}, {"previous hash", prev}, {"merkle root", merkle}, {"transaction identifier", txid}, {"input identifier", vin}} {
				for _, n := range []int{1, 2, 63, 62} {
					ds = append(ds, damage{fmt.Sprintf("%s of %d digits", f.name, n), f.s, f.s[:len(f.s)-64+n]})
				}
				ds = append(ds, damage{f.name + " of 65 digits", f.s, f.s + "0"}, damage{f.name + " of 66 digits", f.s, f.s + "00"}, damage{f.name + " of 128 digits", f.s, f.s + strings.Repeat("0", 64)})
			}
			si := strings.Index(good, `"type":"nonstandard"`)
			spk := good[strings.LastIndex(good[:si], `"hex":"`):si]
			ds = append(ds, damage{"script of an odd number of digits", spk, spk[:7] + "0" + spk[7:]}, damage{"script not hexadecimal", spk, spk[:7] + "zz" + spk[7:]})
			for _, d := range ds {
				c.Case("damaged field", func() string { return "damaged field: " + d.name }, func(t *vk.T) {
					doc := strings.Replace(good, d.from, d.to, 1)
					if doc == good {
						panic("the damage does not apply: " + d.name)
					}
					var b block
					err := intrinsicobjects.ParseJsonBlock([]byte(doc), &b)
					t.Step(1)
					t.State(d.name)
					if err == nil {
						t.Fail("accepted")
					}
					// the object is still good for the next block
					m := of([]int{0, 4})
					var b2 block
					if err := intrinsicobjects.ParseJsonBlock(m.JSON(5, 9), &b); err != nil {
						t.Fail("a good block after a bad one was rejected: %v", err)
					}
					intrinsicobjects.ParseBinaryBlock(m.Binary(), &b2)
					if x := differ(&b, &b2); x != "" {
						t.Fail("a good block after a bad one: %s", x)
					}
					t.Nontrivial()
				})
			}
			// one object, several blocks, alternating forms
			reuse := [][]int{{0}, {1, 2, 3}, {0, 0, 1, 4, 5}, {1, 6}}
			vk.Seqs(2*len(reuse), vk.Pick(c, 3, 4), func(seq []int) {
				seq = append([]int{}, seq...)
				c.Case("reuse", func() string { return fmt.Sprintf("the same object for %v", seq) }, func(t *vk.T) {
					var b block
					for i, k := range seq {
						m := of(reuse[k/2])
						m.Nonce = uint32(i)
						if k%2 == 0 {
							intrinsicobjects.ParseBinaryBlock(m.Binary(), &b)
						} else {
							height := 5
							if i == 2 {
								height, m.Prev = 0, btc.Hash{} // no previous hash in the document
							}
							if err := intrinsicobjects.ParseJsonBlock(m.JSON(height, 9), &b); err != nil {
								t.Fail("rejected: %v", err)
							}
						}
						var fresh block
						intrinsicobjects.ParseBinaryBlock(m.Binary(), &fresh)
						t.Step(1)
						t.State(seq[:i+1])
						if d := differ(&b, &fresh); d != "" {
							t.Fail("block %d: reused object (JSON: %v) against fresh: %s", i, k%2 == 1, d)
						}
					}
					t.Nontrivial()
				})
			})
		},
	})
}

func body2(b []byte) string { return string(b) }
