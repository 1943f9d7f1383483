// C22: hash text and byte conversions are exact inverses.
package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/KitchenMishap/pudding-shed/corereader2"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

type hash = [32]byte

const lower, upper = "0123456789abcdef", "0123456789ABCDEF"

// display is the text of a hash as the node prints it: the bytes in reverse, two hexadecimal digits each.
// digits chooses lower or upper case for each of the 64 places.
func display(h hash, up func(place int) bool) string {
	var b strings.Builder
	for i := 31; i >= 0; i-- {
		for k, n := range []byte{h[i] >> 4, h[i] & 15} {
			place := (31-i)*2 + k
			if up(place) {
				b.WriteByte(upper[n])
			} else {
				b.WriteByte(lower[n])
			}
		}
	}
	return b.String()
}

var cases = []struct {
	name string
	up   func(int) bool
}{
	{"lower case", func(int) bool { return false }},
	{"upper case", func(int) bool { return true }},
	{"alternating case", func(p int) bool { return p%2 == 0 }},
	{"one upper case half", func(p int) bool { return p >= 32 }},
}

// both converts one hash each way by every function there is.
func both(t *vk.T, h hash) {
	text := display(h, cases[0].up)
	in := indexedhashes.Sha256(h)
	if got := indexedhashes.HashSha256ToHexString(&in); got != text {
		t.Fail("HashSha256ToHexString(%x) = %q, want %q", h, got, text)
	}
	if hash(in) != h {
		t.Fail("HashSha256ToHexString changes its input %x", h)
	}
	raw := append([]byte{}, h[:]...)
	if got := corereader2.ToHexHash(raw); got != text {
		t.Fail("ToHexHash(%x) = %q, want %q", h, got, text)
	}
	if f := indexedhashes.VerifBinToHex; f != nil {
		b := h
		if got := f(&b); got != text || b != h {
			t.Fail("hashBinToHexString(%x) = %q, want %q", h, got, text)
		}
	}
	for _, k := range cases {
		text := display(h, k.up)
		out := indexedhashes.Sha256{1, 2, 3, 31: 9}
		if err := indexedhashes.HashHexToSha256(text, &out); err != nil || hash(out) != h {
			t.Fail("HashHexToSha256(%q) (%s) = %x, %v, want %x", text, k.name, out, err, h)
		}
		if f := indexedhashes.VerifHexToBin; f != nil {
			if got, err := f(text); err != nil || got != h {
				t.Fail("hashHexToBin(%q) (%s) = %x, %v, want %x", text, k.name, got, err, h)
			}
		}
		t.Step(2)
	}
	t.Step(3)
}

func fills() []hash {
	var out []hash
	for _, f := range []byte{0x00, 0xff, 0x0f, 0xa5} {
		var h hash
		for i := range h {
			h[i] = f
		}
		out = append(out, h)
	}
	var h hash
	for i := range h {
		h[i] = byte(i*37 + 11)
	}
	return append(out, h)
}

func values(c *vk.Ctx) {
	for p := 0; p < 32; p++ {
		for fi, f := range fills() {
			p, fi, f := p, fi, f
			c.Case("values", func() string { return fmt.Sprintf("every value of byte %d, other bytes %x", p, f) }, func(t *vk.T) {
				for v := 0; v < 256; v++ {
					h := f
					h[p] = byte(v)
					both(t, h)
				}
				t.State("values", p, fi)
				t.Nontrivial()
			})
		}
	}
	// Two bytes at a time: no place interferes with another.
	vals := []byte{0x00, 0x09, 0x0a, 0x0f, 0x10, 0x90, 0xa0, 0xf0, 0xff, 0x99, 0xaa, 0xbc, 0xde}
	if !c.Thorough() {
		vals = []byte{0x00, 0x9a, 0xa9, 0xff, 0xf0}
	}
	for p := 0; p < 32; p++ {
		for q := p + 1; q < 32; q++ {
			p, q := p, q
			c.Case("pairs", func() string { return fmt.Sprintf("values of bytes %d and %d", p, q) }, func(t *vk.T) {
				for _, f := range fills()[3:] {
					for _, v := range vals {
						for _, w := range vals {
							h := f
							h[p], h[q] = v, w
							both(t, h)
						}
					}
				}
				t.State("pairs", p, q)
				t.Nontrivial()
			})
		}
	}
}

// digits: every digit in either case at every place, next to every other.
func digits(c *vk.Ctx) {
	all := "0123456789abcdefABCDEF"
	for p := 0; p < 64; p++ {
		p := p
		c.Case("digits", func() string { return fmt.Sprintf("every digit at place %d and its neighbour", p) }, func(t *vk.T) {
			for _, base := range []string{strings.Repeat("0", 64), strings.Repeat("f", 64), strings.Repeat("5A", 32)} {
				for i := range all {
					for j := range all {
						b := []byte(base)
						b[p], b[(p+1)%64] = all[i], all[j]
						var want hash
						for k, ch := range b {
							n := strings.IndexByte(lower, ch)
							if n < 0 {
								n = strings.IndexByte(upper, ch)
							}
							want[31-k/2] = want[31-k/2]<<4 | byte(n)
						}
						var out indexedhashes.Sha256
						if err := indexedhashes.HashHexToSha256(string(b), &out); err != nil || hash(out) != want {
							t.Fail("HashHexToSha256(%q) = %x, %v, want %x", b, out, err, want)
						}
						if got := indexedhashes.HashSha256ToHexString(&out); got != strings.ToLower(string(b)) {
							t.Fail("%q comes back as %q", b, got)
						}
						if f := indexedhashes.VerifHexToBin; f != nil {
							if got, err := f(string(b)); err != nil || got != want {
								t.Fail("hashHexToBin(%q) = %x, %v, want %x", b, got, err, want)
							}
						}
						t.Step(3)
					}
				}
			}
			t.State("digits", p)
			t.Nontrivial()
		})
	}
}

// lengths: any other length is an error, wherever text of a hash is taken in.
func lengths(c *vk.Ctx) {
	texts := map[string]string{}
	for n := 0; n <= 260; n++ {
		texts[fmt.Sprintf("%d digits", n)] = strings.Repeat("1", n)
	}
	for _, n := range []int{62, 63, 65, 66, 128, 1 << 16, 1 << 20} {
		texts[fmt.Sprintf("%d letters", n)] = strings.Repeat("fE", n)[:n]
	}
	texts["64 letters of two bytes"] = strings.Repeat("é", 64)
	texts["63 digits and a letter of two bytes"] = strings.Repeat("1", 63) + "é"
	texts["0x and 64 digits"] = "0x" + strings.Repeat("1", 64)
	texts["64 digits and a line feed"] = strings.Repeat("1", 64) + "\n"
	texts["64 digits and a zero byte"] = strings.Repeat("1", 64) + "\x00"
	names := make([]string, 0)
	for n := range texts {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		n, text := n, texts[n]
		c.Case("lengths", func() string { return "text of " + n }, func(t *vk.T) {
			wrong := len(text) != 64
			var out indexedhashes.Sha256
			if err := indexedhashes.HashHexToSha256(text, &out); (err != nil) != wrong {
				t.Fail("HashHexToSha256 of text of %s: error %v", n, err)
			}
			if f := indexedhashes.VerifHexToBin; f != nil {
				var err error
				if p := vk.Try(func() { _, err = f(text) }); p != nil {
					t.FailKey("hashHexToBin length", "hashHexToBin of text of %s panics: %v", n, p)
				} else if (err != nil) != wrong {
					t.FailKey("hashHexToBin length", "hashHexToBin of text of %s: error %v", n, err)
				}
			}
			t.Step(2)
			// The same in a block from the node: in each of its hashes.
			good := strings.Repeat("2", 64)
			q, _ := json.Marshal(text)
			g, _ := json.Marshal(good)
			for which := 0; which < 5; which++ {
				f := [5]string{string(g), string(g), string(g), string(g), string(g)}
				f[which] = string(q)
				block := fmt.Sprintf(`{"hash":%s,"previousblockhash":%s,"merkleroot":%s,"version":1,"weight":1,"size":1,"strippedsize":1,"time":1,"bits":"1d00ffff","difficulty":1,"nonce":1,"tx":[{"txid":%s,"version":1,"locktime":0,"size":1,"vsize":1,"weight":1,"vin":[{"txid":%s,"vout":0,"sequence":1}],"vout":[{"value":1.0,"n":0,"scriptPubKey":{"hex":"51","type":"nonstandard"}}]}]}`,
					f[0], f[1], f[2], f[3], f[4])
				b := intrinsicobjects.Block{}
				err := intrinsicobjects.ParseJsonBlock([]byte(block), &b)
				// A block may have no hash before it, and an input may spend no transaction's output.
				w := wrong && !(text == "" && (which == 1 || which == 4))
				if (err != nil) != w {
					t.Fail("a block with text of %s as its %s: error %v", n, []string{"hash", "previous hash", "merkle root", "txid", "spent txid"}[which], err)
				}
				t.Step(1)
			}
			t.Outcome(fmt.Sprintf("rejected: %v", wrong))
			t.State("lengths", n)
			if wrong {
				t.Nontrivial()
			}
		})
	}
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// ---------------------------------------------------------------- hashes of things

func ofBytes(t *vk.T, in []byte) {
	want := sha256.Sum256(in)
	keep := append([]byte{}, in...)
	if got := indexedhashes.HashOfBytes(in); hash(got) != want {
		t.Fail("HashOfBytes of %d bytes %x = %x, want %x", len(in), in, got, want)
	}
	if string(in) != string(keep) {
		t.Fail("HashOfBytes changes its input")
	}
	if got := indexedhashes.HashOfString(string(in)); hash(got) != want {
		t.Fail("HashOfString of %q = %x, want %x", in, got, want)
	}
	t.Step(2)
}

func digests(c *vk.Ctx) {
	for first := -2; first < 256; first++ {
		first := first
		c.Case("short strings", func() string { return fmt.Sprintf("all strings of up to two bytes beginning with %d", first) }, func(t *vk.T) {
			switch {
			case first == -2:
				ofBytes(t, nil)
				ofBytes(t, []byte{})
			case first == -1:
				for i := 0; i < 256; i++ {
					ofBytes(t, []byte{byte(i)})
				}
			default:
				for i := 0; i < 256; i++ {
					ofBytes(t, []byte{byte(first), byte(i)})
				}
			}
			t.State("short", first)
			t.Nontrivial()
		})
	}
	for n := 3; n <= vk.Pick(c, 520, 4200); n++ {
		n := n
		c.Case("long strings", func() string { return fmt.Sprintf("strings of %d bytes", n) }, func(t *vk.T) {
			for _, pat := range []func(int) byte{
				func(i int) byte { return 0 }, func(i int) byte { return 0xff }, func(i int) byte { return byte(i) }, func(i int) byte { return byte(i * i >> 3) },
				func(i int) byte { return "\xc3\xa9"[i%2] },
			} {
				b := make([]byte, n)
				for i := range b {
					b[i] = pat(i)
				}
				ofBytes(t, b)
				b[n-1] ^= 1
				ofBytes(t, b)
			}
			t.State("long", n)
			t.Nontrivial()
		})
	}
	ints := map[uint64]bool{}
	for s := 0; s < 64; s++ {
		for d := uint64(0); d < 5; d++ {
			ints[1<<s+d-2] = true
		}
	}
	for p := 0; p < 8; p++ {
		for v := uint64(0); v < 256; v++ {
			ints[v<<(8*p)] = true
			ints[^(v << (8 * p))] = true
		}
	}
	for i := uint64(0); i < 3000; i++ {
		ints[i] = true
	}
	c.Case("integers", func() string { return fmt.Sprintf("%d integers", len(ints)) }, func(t *vk.T) {
		seen := map[hash]uint64{}
		for i := range ints {
			var b [8]byte
			for k := range b {
				b[k] = byte(i >> (8 * k))
			}
			want := sha256.Sum256(b[:])
			got := hash(indexedhashes.HashOfInt(i))
			if got != want {
				t.Fail("HashOfInt(%d) = %x, want %x", i, got, want)
			}
			if j, ok := seen[got]; ok {
				t.Fail("%d and %d have the same hash", i, j)
			}
			seen[got] = i
			t.Step(1)
		}
		t.State("integers")
		t.Nontrivial()
	})
	c.Case("known", func() string { return "published digests" }, func(t *vk.T) {
		// Display order of these is reversed from the digest's usual print.
		for in, want := range map[string]string{
			"":    "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855",
			"abc": "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad",
		} {
			h := hash(indexedhashes.HashOfString(in))
			if got := fmt.Sprintf("%x", h[:]); got != want {
				t.Fail("digest of %q is %s, want %s", in, got, want)
			}
			t.Step(1)
		}
		t.State("known")
	})
}

func run(c *vk.Ctx) {
	values(c)
	digits(c)
	lengths(c)
	digests(c)
}

func main() {
	vk.Main(vk.Spec{
		Property: "C22",
		Rule:     "text of a hash is its bytes in reverse as 64 hexadecimal digits of either case, both ways, and text of any other length is an error, also inside a block from the node; hashes of strings and integers are SHA-256 digests",
		Bounds: func(tier string) map[string]any {
			n := 520
			if tier == "thorough" {
				n = 4200
			}
			return map[string]any{
				"values":  "every value of every byte in five backgrounds, pairs of bytes, four mixtures of case",
				"digits":  "every pair of digits at every place",
				"lengths": "0..260 and larger, letters of several bytes",
				"digests": fmt.Sprintf("all strings of up to two bytes, lengths up to %d, every byte value at every place of an integer", n),
			}
		},
		Assumptions: []string{"text of the right length consists of hexadecimal digits", "the digests of Go's crypto/sha256 are right (two published ones are compared)"},
		Shards:      8, CaseLimit: 60 * time.Second, QuickBudget: 200 * time.Second, ThoroughBudget: 900 * time.Second, MemLimitGB: 3,
		Run: run,
	})
}
