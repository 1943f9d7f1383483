// Package btc is an independent model of Bitcoin blocks: it builds blocks and renders them in the node's binary and
// JSON forms, and derives every fact the code under test is supposed to extract from them.
package btc

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"strconv"
	"strings"
)

type Hash = [32]byte

type In struct {
	Prev    Hash
	Vout    uint32
	Script  []byte
	Seq     uint32
	Witness [][]byte
}

type Out struct {
	Value  int64
	Script []byte
}

type Tx struct {
	Version  uint32
	Ins      []In
	Outs     []Out
	LockTime uint32
	SegWit   bool // serialised with marker, flag and witnesses
}

type Block struct {
	Version uint32
	Prev    Hash
	Merkle  Hash
	Time    uint32
	NBits   uint32
	Nonce   uint32
	Txs     []*Tx
}

func u32(b []byte, v uint32) []byte { return binary.LittleEndian.AppendUint32(b, v) }

// Compact appends a CompactSize.
func Compact(b []byte, v int) []byte {
	switch {
	case v <= 0xfc:
		return append(b, byte(v))
	case v <= 0xffff:
		return append(b, 0xfd, byte(v), byte(v>>8))
	default:
		return u32(append(b, 0xfe), uint32(v))
	}
}

func (t *Tx) Append(b []byte, witness bool) []byte {
	b = u32(b, t.Version)
	witness = witness && t.SegWit
	if witness {
		b = append(b, 0, 1)
	}
	b = Compact(b, len(t.Ins))
	for i := range t.Ins {
		in := &t.Ins[i]
		b = append(b, in.Prev[:]...)
		b = u32(b, in.Vout)
		b = Compact(b, len(in.Script))
		b = append(b, in.Script...)
		b = u32(b, in.Seq)
	}
	b = Compact(b, len(t.Outs))
	for i := range t.Outs {
		o := &t.Outs[i]
		b = binary.LittleEndian.AppendUint64(b, uint64(o.Value))
		b = Compact(b, len(o.Script))
		b = append(b, o.Script...)
	}
	if witness {
		for i := range t.Ins {
			b = Compact(b, len(t.Ins[i].Witness))
			for _, w := range t.Ins[i].Witness {
				b = Compact(b, len(w))
				b = append(b, w...)
			}
		}
	}
	return u32(b, t.LockTime)
}

func Double(b []byte) Hash {
	h := sha256.Sum256(b)
	return sha256.Sum256(h[:])
}

func (t *Tx) Id() Hash      { return Double(t.Append(nil, false)) }
func (t *Tx) Size() int     { return len(t.Append(nil, true)) }
func (t *Tx) Stripped() int { return len(t.Append(nil, false)) }
func (t *Tx) Weight() int   { return 3*t.Stripped() + t.Size() }
func (t *Tx) VSize() int    { return (t.Weight() + 3) / 4 }

func (b *Block) Header() []byte {
	r := u32(nil, b.Version)
	r = append(r, b.Prev[:]...)
	r = append(r, b.Merkle[:]...)
	r = u32(r, b.Time)
	r = u32(r, b.NBits)
	return u32(r, b.Nonce)
}
func (b *Block) Hash() Hash { return Double(b.Header()) }
func (b *Block) bin(witness bool) []byte {
	r := Compact(b.Header(), len(b.Txs))
	for _, t := range b.Txs {
		r = t.Append(r, witness)
	}
	return r
}
func (b *Block) Binary() []byte { return b.bin(true) }
func (b *Block) Stripped() int  { return len(b.bin(false)) }
func (b *Block) Size() int      { return len(b.bin(true)) }
func (b *Block) Weight() int    { return 3*b.Stripped() + b.Size() }

// Difficulty the way the node computes it.
func Difficulty(nbits uint32) float64 {
	shift := int(nbits >> 24)
	d := float64(0x0000ffff) / float64(nbits&0x00ffffff)
	for ; shift < 29; shift++ {
		d *= 256
	}
	for ; shift > 29; shift-- {
		d /= 256
	}
	return d
}

// Hex is a hash as the node prints it: byte-reversed.
func Hex(h Hash) string {
	for i := 0; i < 16; i++ {
		h[i], h[31-i] = h[31-i], h[i]
	}
	return hex.EncodeToString(h[:])
}

// Amount is a value in satoshis as the node prints it.
func Amount(v int64) string {
	sign := ""
	if v < 0 {
		sign, v = "-", -v
	}
	return fmt.Sprintf("%s%d.%08d", sign, v/100000000, v%100000000)
}

// JSON renders the block as the node's REST interface does (verbosity 2).
func (b *Block) JSON(height int, median uint32) []byte {
	var s strings.Builder
	fmt.Fprintf(&s, `{"hash":"%s","confirmations":%d,"height":%d,"version":%d,"versionHex":"%08x","merkleroot":"%s","time":%d,"mediantime":%d,"nonce":%d,"bits":"%08x","difficulty":%s,"chainwork":"%064x","nTx":%d`,
		Hex(b.Hash()), 7, height, int32(b.Version), b.Version, Hex(b.Merkle), b.Time, median, b.Nonce, b.NBits, Float(Difficulty(b.NBits)), 1, len(b.Txs))
	if height > 0 {
		fmt.Fprintf(&s, `,"previousblockhash":"%s"`, Hex(b.Prev))
	}
	fmt.Fprintf(&s, `,"strippedsize":%d,"size":%d,"weight":%d,"tx":[`, b.Stripped(), b.Size(), b.Weight())
	for i, t := range b.Txs {
		if i > 0 {
			s.WriteString(",")
		}
		t.json(&s, i == 0)
	}
	s.WriteString("]}\n")
	return []byte(s.String())
}

// Float is a floating point number as the node prints it: 16 significant digits.
func Float(f float64) string {
	r := strconv.FormatFloat(f, 'g', 16, 64)
	if e := math.Floor(math.Log10(f)); e >= -5 && e < 16 {
		r = strconv.FormatFloat(f, 'f', 15-int(e), 64)
		if strings.Contains(r, ".") {
			r = strings.TrimRight(strings.TrimRight(r, "0"), ".")
		}
	}
	return r
}

func (t *Tx) JSON(coinbase bool) []byte {
	var s strings.Builder
	t.json(&s, coinbase)
	return []byte(s.String())
}

func (t *Tx) json(s *strings.Builder, coinbase bool) {
	full := t.Append(nil, true)
	fmt.Fprintf(s, `{"txid":"%s","hash":"%s","version":%d,"size":%d,"vsize":%d,"weight":%d,"locktime":%d,"vin":[`,
		Hex(t.Id()), Hex(Double(full)), t.Version, t.Size(), t.VSize(), t.Weight(), t.LockTime)
	for i := range t.Ins {
		in := &t.Ins[i]
		if i > 0 {
			s.WriteString(",")
		}
		if coinbase {
			fmt.Fprintf(s, `{"coinbase":"%x"`, in.Script)
		} else {
			fmt.Fprintf(s, `{"txid":"%s","vout":%d,"scriptSig":{"asm":"","hex":"%x"}`, Hex(in.Prev), in.Vout, in.Script)
		}
		if t.SegWit && len(in.Witness) > 0 {
			s.WriteString(`,"txinwitness":[`)
			for j, w := range in.Witness {
				if j > 0 {
					s.WriteString(",")
				}
				fmt.Fprintf(s, `"%x"`, w)
			}
			s.WriteString("]")
		}
		fmt.Fprintf(s, `,"sequence":%d}`, in.Seq)
	}
	s.WriteString(`],"vout":[`)
	for i := range t.Outs {
		o := &t.Outs[i]
		if i > 0 {
			s.WriteString(",")
		}
		fmt.Fprintf(s, `{"value":%s,"n":%d,"scriptPubKey":{"asm":"","desc":"raw(%x)#x","hex":"%x","type":"nonstandard"}}`, Amount(o.Value), i, o.Script, o.Script)
	}
	fmt.Fprintf(s, `],"hex":"%x"}`, full)
}

// Bytes makes n bytes that depend on tag.
func Bytes(n int, tag int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + tag*31 + i>>8)
	}
	return b
}

// Tagged makes a hash from a tag.
func Tagged(tag ...any) Hash { return sha256.Sum256([]byte(fmt.Sprint(tag...))) }

// Coinbase makes a coinbase transaction.
func Coinbase(tag int, outs ...Out) *Tx {
	return &Tx{Version: 1, Ins: []In{{Vout: 0xffffffff, Script: binary.LittleEndian.AppendUint32([]byte{4}, uint32(tag)), Seq: 0xffffffff}}, Outs: outs}
}

// Genesis is the real genesis block.
func Genesis() *Block {
	spk, _ := hex.DecodeString("4104678afdb0fe5548271967f1a67130b7105cd6a828e03909a67962e0ea1f61deb649f6bc3f4cef38c4f35504e51ec112de5c384df7ba0b8d578a4c702b6bf11d5fac")
	sig, _ := hex.DecodeString("04ffff001d0104455468652054696d65732030332f4a616e2f32303039204368616e63656c6c6f72206f6e206272696e6b206f66207365636f6e64206261696c6f757420666f722062616e6b73")
	t := &Tx{Version: 1, Ins: []In{{Vout: 0xffffffff, Script: sig, Seq: 0xffffffff}}, Outs: []Out{{Value: 5000000000, Script: spk}}}
	b := &Block{Version: 1, Merkle: t.Id(), Time: 1231006505, NBits: 0x1d00ffff, Nonce: 2083236893, Txs: []*Tx{t}}
	if Hex(b.Hash()) != "000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f" {
		panic("the model does not reproduce the genesis block")
	}
	return b
}
