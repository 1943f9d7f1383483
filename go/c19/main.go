// C19: a baked forest answers exactly for the hashes baked into it.
package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"time"

	wcb "github.com/KitchenMishap/pudding-shed/weddingcakeback"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

type hash = [32]byte

// ---------------------------------------------------------------- single trees

// words lists all strings of length n over the alphabet.
func words(alphabet []byte, n int) [][]byte {
	out := [][]byte{{}}
	for i := 0; i < n; i++ {
		var next [][]byte
		for _, w := range out {
			for _, a := range alphabet {
				next = append(next, append(append([]byte{}, w...), a))
			}
		}
		out = next
	}
	return out
}

// subsets calls f with every subset of 0..n-1 whose size is between lo and hi.
func subsets(n, lo, hi int, f func(s []int)) {
	var cur []int
	var rec func(from int)
	rec = func(from int) {
		if len(cur) >= lo {
			f(append([]int{}, cur...))
		}
		if len(cur) == hi {
			return
		}
		for i := from; i < n; i++ {
			cur = append(cur, i)
			rec(i + 1)
			cur = cur[:len(cur)-1]
		}
	}
	rec(0)
}

func inputOf(members [][]byte) []wcb.SingleTreeHash {
	in := make([]wcb.SingleTreeHash, len(members))
	for i, m := range members {
		in[i] = wcb.SingleTreeHash{Hash: append([]byte{}, m...), PresentationIndex: wcb.SingleTreePiType(i + 1)}
	}
	return in
}

func checkTree(t *vk.T, members [][]byte, prefix, length, reassurance byte, universe [][]byte) {
	in := inputOf(members)
	tree := wcb.GenerateSingleTree(in, prefix, length, reassurance)
	for i, m := range members {
		if !bytes.Equal(in[i].Hash, m) || in[i].PresentationIndex != wcb.SingleTreePiType(i+1) {
			t.Fail("building the tree changed its input at %d", i)
		}
	}
	want := map[string]int{}
	for i, m := range members {
		want[string(m)] = i + 1
	}
	for _, u := range universe {
		got := int(tree.LookupHash(append([]byte{}, u...)))
		if got != want[string(u)] {
			t.Fail("tree of %x (hash length %d, prefix %d, reassurance %d): look-up of %x gives %d, want %d",
				members, length, prefix, reassurance, u, got, want[string(u)])
		}
		t.Step(1)
	}
	leaves := 0
	tree.VisitAllLeaves(func(l *wcb.SingleTreeLeafNode) {
		leaves++
		if want[string(l.Hash)] != int(l.PresentationIndex) {
			t.Fail("tree of %x: a leaf pairs %x with %d", members, l.Hash, l.PresentationIndex)
		}
	})
	if leaves != len(members) {
		t.Fail("tree of %d hashes has %d leaves", len(members), leaves)
	}
	t.State("tree", length, prefix, len(members), leaves, tree.CountNodes())
}

func flips(h []byte, from int) [][]byte {
	var out [][]byte
	for i := from; i < len(h); i++ {
		for _, x := range []byte{0x01, 0x80} {
			g := append([]byte{}, h...)
			g[i] ^= x
			out = append(out, g)
		}
	}
	return out
}

func trees(c *vk.Ctx) {
	alphabet := []byte{0x00, 0x01, 0xff}
	for length := 1; length <= 3; length++ {
		for prefix := 0; prefix < length; prefix++ {
			all := words(alphabet, length-prefix)
			pre := bytes.Repeat([]byte{0x5a}, prefix)
			for i := range all {
				all[i] = append(append([]byte{}, pre...), all[i]...)
			}
			hi := vk.Pick(c, 4, 5)
			if len(all) <= 9 {
				hi = len(all)
			}
			// one case per first element keeps the cases short
			for first := -1; first < len(all); first++ {
				first := first
				c.Case("trees", func() string {
					return fmt.Sprintf("single trees of hash length %d, prefix %d: all sets of up to %d hashes whose lowest is number %d, all orders of up to 4", length, prefix, hi, first)
				}, func(t *vk.T) {
					one := func(s []int) {
						members := make([][]byte, len(s))
						orders := func(p []int) {
							for i := range p {
								members[i] = all[s[p[i]]]
							}
							checkTree(t, members, byte(prefix), byte(length), byte(min(1, length-prefix)), all)
						}
						if len(s) <= vk.Pick(c, 3, 4) {
							vk.Perms(len(s), orders)
						} else {
							id := make([]int, len(s))
							for i := range id {
								id[i] = i
							}
							orders(id)
						}
						t.Nontrivial()
					}
					if first < 0 {
						one(nil)
						return
					}
					subsets(len(all)-first-1, 0, hi-1, func(s []int) {
						set := []int{first}
						for _, x := range s {
							set = append(set, first+1+x)
						}
						one(set)
					})
				})
			}
		}
	}
	for _, length := range []int{4, 8, 20, 31, 32, 33, 63, 64} {
		for _, prefix := range []int{0, 1, 2, 3} {
			c.Case("long trees", func() string {
				return fmt.Sprintf("single trees of hash length %d, prefix %d: chains differing in one byte, doubled chains, every byte value", length, prefix)
			}, func(t *vk.T) {
				base := make([]byte, length)
				for i := range base {
					base[i] = byte(7 * i)
				}
				chain := [][]byte{base}
				for i := prefix; i < length; i++ {
					g := append([]byte{}, base...)
					g[i] ^= 0x10
					chain = append(chain, g)
				}
				universe := append(flips(base, prefix), chain...)
				for n := 0; n <= len(chain); n++ {
					checkTree(t, chain[:n], byte(prefix), byte(length), byte(n%(length-prefix)), universe)
					checkTree(t, chain[len(chain)-n:], byte(prefix), byte(length), 0, universe)
				}
				for _, n := range []int{2, 5, 6, 244, 245, 255, 256} {
					var set, uni [][]byte
					for v := 0; v < 256; v++ {
						g := append([]byte{}, base...)
						g[length-1] = byte(v)
						uni = append(uni, g)
						if v < n {
							set = append(set, g)
						}
					}
					checkTree(t, set, byte(prefix), byte(length), 1, uni)
				}
				t.Nontrivial()
			})
		}
	}
}

// ---------------------------------------------------------------- forests

// source is the tier being baked: it presents hashes from a given first index on.
type source struct {
	dest   byte
	first  int64
	hashes []hash
	seen   int
	next   wcb.TierReadable
}

func (s *source) GetIndicesCount() uint64 {
	if s.dest <= 1 {
		return 1
	}
	return 1 << (8 * uint(s.dest-1))
}
func (s *source) GetHashesAtIndex(index uint64, offset wcb.GlobalPiType) []wcb.SingleTreeHash {
	var out []wcb.SingleTreeHash
	for i, h := range s.hashes {
		own := uint64(0)
		if s.dest == 2 {
			own = uint64(h[0])
		}
		if own == index {
			out = append(out, wcb.SingleTreeHash{Hash: append([]byte{}, h[:]...),
				PresentationIndex: wcb.SingleTreePiType(s.first + int64(i) + 1)})
		}
	}
	return out
}
func (s *source) GetNextTierPrefixBytesCount() byte { return s.dest }
func (s *source) GetNextTierIndex() byte            { return s.dest }
func (s *source) AppendHashesFile(f *os.File) error {
	defer f.Close()
	for _, h := range s.hashes {
		if _, err := f.Write(h[:]); err != nil {
			return err
		}
	}
	return nil
}
func (s *source) GetFirstPresentationIndex() wcb.GlobalPiType { return wcb.GlobalPiType(s.first) }
func (s *source) MakeEmptyAfterBaking() error                 { s.seen++; return nil }
func (s *source) SetNextTier(n wcb.TierReadable)              { s.next = n }

type forestCase struct {
	dest        byte
	reassurance byte
	first       int64
	batches     [][]hash // baked one after the other into the same tier
}

func jumpIndex(h hash, dest byte) uint64 {
	x := uint64(0)
	for i := byte(0); i < dest; i++ {
		x = x<<8 | uint64(h[i])
	}
	return x
}

func checkForests(t *vk.T, fc forestCase, absent []hash) {
	dir := t.Dir()
	cfg := wcb.NewCakeConfig(32, fc.reassurance)
	cfg.TierBelowConfigs[fc.dest].MaxDonutForests = 255
	first := fc.first
	var baked []hash
	for n, b := range fc.batches {
		src := &source{dest: fc.dest, first: first, hashes: b}
		if err := wcb.NewDonutForestWrite(src, cfg).Write(dir); err != nil {
			t.Fail("baking batch %d: %v", n, err)
		}
		if src.seen != 1 {
			t.Fail("baking batch %d emptied its source %d times", n, src.seen)
		}
		first += int64(len(b))
		baked = append(baked, b...)
		t.Step(1)
		if src.next == nil {
			t.Fail("baking batch %d gave the source no next tier", n)
		}
		// the tier the bake handed over, then the tier as opened afresh
		checkTier(t, src.next, nil, fc, baked, absent, n)
		if err := src.next.CloseThis(); err != nil {
			t.Fail("closing the tier handed over by batch %d: %v", n, err)
		}
	}
	tier := wcb.NewTierBelow(dir, fc.dest, cfg)
	if !tier.ExistsOnDisk() {
		t.Fail("the baked tier is said not to exist")
	}
	if err := tier.Open(); err != nil {
		t.Fail("opening the baked tier: %v", err)
	}
	checkTier(t, tier, tier, fc, baked, absent, len(fc.batches)-1)
	if err := tier.CloseThis(); err != nil {
		t.Fail("closing the baked tier: %v", err)
	}
	st := []any{"forest", fc.dest, fc.reassurance, len(fc.batches), len(baked)}
	if es, err := os.ReadDir(filepath.Join(dir, fmt.Sprintf("Tier%d", fc.dest))); err == nil {
		for _, e := range es {
			if i, err := e.Info(); err == nil {
				st = append(st, e.Name(), i.Size())
			}
		}
	}
	t.State(st...)
	t.Nontrivial()
}

func checkTier(t *vk.T, r wcb.TierReadable, tier *wcb.TierBelow, fc forestCase, baked, absent []hash, batch int) {
	where := func() string {
		return fmt.Sprintf("tier %d, reassurance %d, first index %d, %d batches, %d hashes", fc.dest, fc.reassurance, fc.first, batch+1, len(baked))
	}
	at := map[hash]int64{}
	for i, h := range baked {
		at[h] = fc.first + int64(i)
	}
	for i, h := range baked {
		got, ok, err := r.TryIndexOfHash(append([]byte{}, h[:]...))
		if err != nil || !ok || int64(got) != at[h] {
			t.Fail("%s: look-up of baked hash %x gives %d %v %v, want %d", where(), h, got, ok, err, at[h])
		}
		var back hash
		ok, err = r.TryGetHashAtIndex(wcb.GlobalPiType(fc.first+int64(i)), back[:])
		if err != nil || !ok || back != h {
			t.Fail("%s: hash at %d is %x %v %v, want %x", where(), fc.first+int64(i), back, ok, err, h)
		}
		t.Step(2)
	}
	for _, i := range []int64{fc.first - 1, fc.first + int64(len(baked)), -1, fc.first + int64(len(baked)) + 65536} {
		var back hash
		if ok, err := r.TryGetHashAtIndex(wcb.GlobalPiType(i), back[:]); ok || err != nil {
			t.Fail("%s: index %d is said to hold %x (%v)", where(), i, back, err)
		}
	}
	for _, h := range absent {
		if _, here := at[h]; here {
			continue
		}
		got, ok, err := r.TryIndexOfHash(append([]byte{}, h[:]...))
		if err != nil || ok {
			t.Fail("%s: hash %x was not baked but is found at %d (%v)", where(), h, got, err)
		}
		t.Step(1)
	}
	if tier == nil {
		return
	}
	// what the tier would hand on to the next bake
	want := map[uint64]map[hash]int64{}
	for h, i := range at {
		j := jumpIndex(h, fc.dest)
		if want[j] == nil {
			want[j] = map[hash]int64{}
		}
		want[j][h] = i
	}
	for j := uint64(0); j < tier.GetIndicesCount(); j++ {
		got := tier.GetHashesAtIndex(j, tier.GetFirstPresentationIndex())
		if len(got) != len(want[j]) {
			t.Fail("%s: tree %d hands on %d hashes, want %d", where(), j, len(got), len(want[j]))
		}
		dup := map[hash]bool{}
		for _, g := range got {
			h := hash(g.Hash)
			if i, ok := want[j][h]; !ok || int64(g.PresentationIndex) != i+1 || dup[h] {
				t.Fail("%s: tree %d hands on %x at %d", where(), j, h, int64(g.PresentationIndex)-1)
			}
			dup[h] = true
		}
	}
	if int64(tier.GetFirstPresentationIndex()) != fc.first {
		t.Fail("%s: the tier states first index %d", where(), tier.GetFirstPresentationIndex())
	}
	var buf bytes.Buffer
	f, err := os.Open(filepath.Join(tier.TierFolder, "Hashes.hsh"))
	vk.Must(err)
	_, _ = io.Copy(&buf, f)
	f.Close()
	if buf.Len() != 32*len(baked) {
		t.Fail("%s: hashes file of %d bytes", where(), buf.Len())
	}
}

// the alphabet: hashes agreeing in all but a few positions, the early ones being
// those that choose the tree.
func alphabet() []hash {
	var out []hash
	for _, b0 := range []byte{0x00, 0x01, 0xff} {
		for _, b1 := range []byte{0x00, 0xff} {
			for _, bl := range []byte{0x00, 0x01} {
				var h hash
				for i := range h {
					h[i] = 0x33
				}
				h[0], h[1], h[31] = b0, b1, bl
				out = append(out, h)
			}
		}
	}
	return out
}

func neighbours(hs []hash) []hash {
	var out []hash
	for _, h := range hs {
		for i := range h {
			for _, x := range []byte{0x01, 0xff} {
				g := h
				g[i] ^= x
				out = append(out, g)
			}
		}
	}
	return append(out, hash{}, hash(bytes.Repeat([]byte{0xff}, 32)))
}

func spread(n, seed int) []hash {
	// well spread, deterministic, distinct
	out := make([]hash, n)
	x := uint64(seed)*0x9e3779b97f4a7c15 + 1
	for i := range out {
		for j := 0; j < 32; j += 8 {
			x += 0x9e3779b97f4a7c15
			z := x
			z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
			z = (z ^ z>>27) * 0x94d049bb133111eb
			z ^= z >> 31
			for k := 0; k < 8; k++ {
				out[i][j+k] = byte(z >> (8 * k))
			}
		}
	}
	return out
}

type named struct {
	name string
	set  []hash
}

// shapes are sets that need particular node encodings or depths.
func shapes(c *vk.Ctx) []named {
	var out []named
	base := hash{}
	for i := range base {
		base[i] = byte(11 * i)
	}
	// n children of one node: every encoding threshold
	for _, n := range []int{2, 3, 4, 5, 6, 7, 8, 9, 63, 64, 65, 127, 128, 129, 191, 192, 193, 243, 244, 245, 246, 254, 255, 256} {
		for _, pos := range []int{0, 1, 2, 31} {
			var s []hash
			for v := 0; v < n; v++ {
				h := base
				h[pos] = byte(255 - v*255/max(1, n-1))
				s = append(s, h)
			}
			out = append(out, named{fmt.Sprintf("%d values of byte %d", n, pos), s})
		}
	}
	// two levels, with nodes of k children for many different k: more groups than the design allows per level
	for _, pos := range [][2]int{{2, 3}, {0, 1}, {1, 0}, {31, 30}} {
		for _, ks := range [][]int{{2, 3, 4, 5}, {6, 7}, {5, 6, 244, 245}, {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16},
			{240, 241, 242, 243, 244, 245, 246, 256}, {1, 2, 6, 20, 40, 60, 80, 100, 120, 140, 160, 180, 200, 220, 245, 256}} {
			var s []hash
			for i, k := range ks {
				for v := 0; v < k; v++ {
					h := base
					h[pos[0]] = byte(i * 15)
					h[pos[1]] = byte(v)
					s = append(s, h)
				}
			}
			// outer byte must be the first choice; if the inner one spreads better the tree is the other way round, which is as good
			out = append(out, named{fmt.Sprintf("children %v at bytes %v", ks, pos), s})
			var rev []hash
			for i := range s {
				rev = append(rev, s[len(s)-1-i])
			}
			out = append(out, named{fmt.Sprintf("children %v at bytes %v, reversed", ks, pos), rev})
		}
	}
	// chains: one more level per hash
	for n := 1; n <= 33; n++ {
		s := []hash{base}
		for i := 0; i < n-1; i++ {
			h := base
			h[31-i] ^= 0x40
			s = append(s, h)
		}
		out = append(out, named{fmt.Sprintf("chain of %d", n), s})
	}
	for _, n := range []int{10, 300, 2000} {
		out = append(out, named{fmt.Sprintf("%d spread hashes", n), spread(n, n)})
	}
	if c.Thorough() {
		out = append(out, named{"65535 spread hashes", spread(65535, 5)})
	}
	return out
}

func forests(c *vk.Ctx) {
	al := alphabet()
	firsts := []int64{0, 1, 65535, 1<<24 - 2, 1<<32 - 2, 1<<40 + 1}
	reas := []byte{0, 1, 2, 31, 32}
	hi := vk.Pick(c, 3, 4)
	k := 0
	for _, dest := range []byte{0, 1} {
		for _, r := range reas {
			subsets(len(al), 0, hi, func(s []int) {
				if len(s) == 0 {
					return
				}
				k++
				// quick: every set once per tier with the reassurance count rotating, every set of up to 2 with each
				if !c.Thorough() && len(s) == 3 && (k+int(r))%len(reas) != 0 {
					return
				}
				first := firsts[k%len(firsts)]
				c.Case("small sets", func() string {
					return fmt.Sprintf("tier %d, reassurance %d, first index %d, hashes %v of the alphabet in all orders", dest, r, first, s)
				}, func(t *vk.T) {
					orders := 0
					vk.Perms(len(s), func(p []int) {
						orders++
						if len(s) > 2 && orders != 1 && orders != 4 && orders != 6 && !c.Thorough() || orders > 6 {
							return
						}
						var b []hash
						for _, i := range p {
							b = append(b, al[s[i]])
						}
						checkForests(t, forestCase{dest, r, first, [][]hash{b}}, append(neighbours(b), al...))
					})
				})
			})
		}
	}
	// the same sets split into two batches at every point: two forests in a tier
	for _, dest := range []byte{0, 1} {
		subsets(len(al), 2, vk.Pick(c, 2, 3), func(s []int) {
			for _, r := range []byte{0, 32} {
				c.Case("two forests", func() string {
					return fmt.Sprintf("tier %d, reassurance %d, hashes %v of the alphabet in two batches, all splits and orders", dest, r, s)
				}, func(t *vk.T) {
					vk.Perms(len(s), func(p []int) {
						var b []hash
						for _, i := range p {
							b = append(b, al[s[i]])
						}
						for cut := 1; cut < len(b); cut++ {
							checkForests(t, forestCase{dest, r, firsts[(cut+len(b))%2*4+1], [][]hash{b[:cut], b[cut:]}}, append(neighbours(b), al...))
						}
					})
				})
			}
		})
	}
	for i, sh := range shapes(c) {
		for _, dest := range []byte{0, 1} {
			for _, r := range vk.Pick(c, []byte{reas[i%5]}, reas) {
				c.Case("shapes", func() string {
					return fmt.Sprintf("tier %d, reassurance %d: %s", dest, r, sh.name)
				}, func(t *vk.T) {
					absent := neighbours(sh.set[:min(len(sh.set), 40)])
					checkForests(t, forestCase{dest, r, 9, [][]hash{sh.set}}, absent)
					if len(sh.set) > 1 && len(sh.set) < 10000 {
						m := len(sh.set) / 2
						checkForests(t, forestCase{dest, r, 9, [][]hash{sh.set[:m], sh.set[m:], al}}, absent)
						checkForests(t, forestCase{dest, r, 9, [][]hash{al, sh.set}}, absent)
					}
				})
			}
		}
	}
	// the third tier has 65536 trees; a handful of bakes
	big := [][][]hash{{al}, {al[:5], al[5:]}, {spread(300, 3), al}, {shapes(c)[len(shapes(c))-4].set, spread(40, 2)}}
	for i, b := range big {
		for _, r := range vk.Pick(c, []byte{reas[i%5]}, reas) {
			c.CaseLimit("third tier", 120*time.Second, func() string {
				return fmt.Sprintf("tier 2, reassurance %d, set %d", r, i)
			}, func(t *vk.T) {
				var all []hash
				for _, x := range b {
					all = append(all, x...)
				}
				checkForests(t, forestCase{2, r, 3, b}, append(neighbours(all[:min(len(all), 60)]), al...))
			})
		}
	}
}

func main() {
	vk.Main(vk.Spec{
		Property: "C19",
		Rule:     "a baked hash set in which a look-up by hash or index, of members and near misses, differs from the set",
		Assumptions: []string{"hashes in one forest are distinct (duplicates are refused by the tree builder)",
			"forests hold 32-byte hashes (the only length their hashes file supports); single trees any length from 1 to 64",
			"hashes given to a single tree agree in the prefix bytes"},
		Bounds: func(tier string) map[string]any {
			return map[string]any{
				"single_trees": "alphabet {00,01,ff}, hash lengths 1..3, every prefix: all sets of up to 4 (thorough 5; all sets where the universe has at most 9), all orders of up to 3 (thorough 4), whole universe looked up; lengths 4..64: chains and every encoding threshold",
				"forests":      "12-hash alphabet: all sets of up to 3 (thorough 4) hashes in tiers 0 and 1, orders, reassurance 0,1,2,31,32, first index 0 to 2^40+1; two-forest splits; encoding thresholds, many-group levels, chains of 1..33 levels, tier 2 samples",
				"queries":      "every member both ways, every member with one byte changed at each of 32 positions, out-of-range indices, the trees' hand-over lists",
			}
		},
		QuickBudget:    240 * time.Second,
		ThoroughBudget: 40 * time.Minute,
		MemLimitGB:     3,
		Run: func(c *vk.Ctx) {
			trees(c)
			forests(c)
		},
	})
}
