// C05: a hash store finds every stored hash and only stored hashes.
package main

import (
	"fmt"
	"os"
	"path/filepath"

	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

type cfg struct {
	kind           string // "concrete", "memory", "basic"
	bits, nb, cpc  int64
	memLookup, app bool
}

func (c cfg) String() string {
	if c.kind != "concrete" {
		return c.kind
	}
	return fmt.Sprintf("key bits=%d entry bytes=%d chunk=%d memLookup=%v appendOptimised=%v", c.bits, c.nb, c.cpc, c.memLookup, c.app)
}

type sut struct {
	t     *vk.T
	c     cfg
	dir   string
	cr    ih.HashStoreCreator
	s     ih.HashReadWriter
	model []ih.Sha256
	where map[ih.Sha256]int64
}

func creator(c cfg, dir string) ih.HashStoreCreator {
	if c.kind == "memory" {
		cr, err := ih.NewConcreteHashStoreCreatorMemory("store", dir)
		vk.Must(err)
		return cr
	}
	cr, err := ih.NewConcreteHashStoreCreator("store", dir, c.bits, c.nb, c.cpc, c.memLookup, c.app)
	vk.Must(err)
	return cr
}

func (s *sut) check(err error, what string) {
	if err != nil {
		s.t.Fail("%s: %v", what, err)
	}
}

func newSut(t *vk.T, c cfg) *sut {
	s := &sut{t: t, c: c, dir: filepath.Join(t.Dir(), "a", "b"), where: map[ih.Sha256]int64{}}
	s.cr = creator(c, s.dir)
	if s.cr.HashStoreExists() {
		t.Fail("exists before creation")
	}
	s.check(s.cr.CreateHashStore(), "create")
	if !s.cr.HashStoreExists() {
		t.Fail("does not exist after creation")
	}
	t.Defer(func() {
		if s.s != nil {
			s.s.Close()
		}
	})
	s.open()
	return s
}

func (s *sut) open() {
	var err error
	s.s, err = s.cr.OpenHashStore()
	s.check(err, "open")
}

// hash number n of partial-key group g: groups differ in the low bits of the first byte.
func hash(g, n int) (h ih.Sha256) {
	for i := range h {
		h[i] = byte(n*(2*i+1) + i)
	}
	switch n % 4 { // near-duplicates of each other in the last, a middle, and the ninth byte
	case 1:
		h = hash(g, n-1)
		h[31] ^= 1
		return
	case 2:
		h = hash(g, n-2)
		h[16] ^= 0x80
		return
	case 3:
		h = hash(g, n-3)
		h[8] ^= 0x40
		return
	}
	for i := 0; i < 8; i++ {
		h[i] = byte(g * (i + 1)) // the whole 64-bit key equal within a group
	}
	h[30] = byte(n >> 8)
	h[29] = byte(n)
	if g == 0 && n == 0 {
		h = ih.Sha256{}
	}
	return
}

func (s *sut) append(h ih.Sha256) {
	arg := h
	i, err := s.s.AppendHash(&arg)
	s.check(err, fmt.Sprintf("append number %d", len(s.model)))
	if i != int64(len(s.model)) {
		s.t.Fail("append returned index %d, want %d", i, len(s.model))
	}
	if arg != h {
		s.t.Fail("append changed its argument")
	}
	arg = ih.Sha256{1, 2, 3}
	s.where[h] = int64(len(s.model))
	s.model = append(s.model, h)
}

func (s *sut) lookup(r ih.HashReader, h ih.Sha256, what string) {
	want, ok := s.where[h]
	if !ok {
		want = -1
	}
	arg := h
	got, err := r.IndexOfHash(&arg)
	s.check(err, what+" lookup")
	if got != want {
		s.t.Fail("%s: hash %x found at %d, want %d (of %d)", what, h, got, want, len(s.model))
	}
}

func (s *sut) absents(r ih.HashReader, what string) {
	for g := 0; g < 5; g++ {
		s.lookup(r, hash(g, 1000), what)
		h := hash(g, 0)
		h[31] ^= 0x80
		s.lookup(r, h, what)
		h[31] ^= 0x80
		h[7] ^= 0x80
		s.lookup(r, h, what)
		s.lookup(r, hash(g, 0), what)
		s.lookup(r, hash(g, 1), what)
	}
}

func (s *sut) all(r ih.HashReader, what string) {
	n, err := r.CountHashes()
	s.check(err, what+" count")
	if n != int64(len(s.model)) {
		s.t.Fail("%s: count %d, want %d", what, n, len(s.model))
	}
	for i, h := range s.model {
		s.lookup(r, h, what)
		got := ih.Sha256{9}
		s.check(r.GetHashAtIndex(int64(i), &got), what+" read")
		if got != h {
			s.t.Fail("%s: hash at %d is %x, want %x", what, i, got, h)
		}
		nb := h
		nb[31] ^= 2
		s.lookup(r, nb, what)
	}
	s.absents(r, what)
	var got ih.Sha256
	if err := r.GetHashAtIndex(int64(len(s.model)), &got); err == nil {
		s.t.Fail("%s: reading index %d (one past the end) gave a value", what, len(s.model))
	}
}

func (s *sut) reopen() {
	s.check(s.s.Close(), "close")
	s.s = nil
	s.open()
}

func (s *sut) readOnly(c cfg, what string) {
	r, err := creator(c, s.dir).OpenHashStoreReadOnly()
	s.check(err, what+" open read-only")
	s.all(r, what+" read-only")
	s.check(r.Close(), what+" close read-only")
}

func (s *sut) finish() {
	s.all(s.s, "at end")
	s.check(s.s.Close(), "close")
	s.s = nil
	s.readOnly(s.c, "after close")
	if s.c.kind == "concrete" { // the files do not depend on how they were held
		for m := 0; m < 4; m++ {
			c := s.c
			c.memLookup, c.app = m&1 != 0, m&2 != 0
			s.readOnly(c, "other mode")
			w, err := creator(c, s.dir).OpenHashStore()
			s.check(err, "open in other mode")
			s.all(w, "opened in other mode")
			s.check(w.Close(), "close in other mode")
		}
	}
	s.open()
	s.all(s.s, "reopened")
	s.append(hash(1, 900))
	s.append(hash(0, 901))
	s.all(s.s, "appended after reopening")
	s.t.Outcome(fmt.Sprintf("count=%d", len(s.model)))
}

var ops = []string{"appendA", "appendB", "appendC", "look", "reopen", "sync"}

func histories(c *vk.Ctx, group string, cf cfg, depth int) {
	vk.Seqs(len(ops), depth, func(seq []int) {
		c.Case(group, func() string { return fmt.Sprintf("%v: %s", cf, vk.Names(ops, seq)) }, func(t *vk.T) {
			s := newSut(t, cf)
			n := 0
			for _, o := range seq {
				t.Tracef("%s", ops[o])
				switch ops[o] {
				case "appendA":
					s.append(hash(0, n))
					n++
				case "appendB":
					s.append(hash(1, n))
					n++
				case "appendC":
					s.append(hash(2, n))
					n++
				case "look":
					s.all(s.s, "between appends")
				case "reopen":
					s.reopen()
				case "sync":
					s.check(s.s.Sync(), "sync")
				}
				t.Step(1)
				t.State(cf, s.model)
			}
			s.finish()
		})
	})
}

// far stores hashes where so many already are (all zero, and not asked for) that positions need more bytes.
func far(c *vk.Ctx, cf cfg, count, chunks int64) {
	c.Case("far-positions", func() string {
		return fmt.Sprintf("%v: after %d hashes and %d chunks of collisions", cf, count, chunks)
	}, func(t *vk.T) {
		s := newSut(t, cf)
		s.check(s.s.Close(), "close")
		vk.Must(os.Truncate(filepath.Join(s.dir, "store.hsh"), count*32))
		vk.Must(os.Truncate(filepath.Join(s.dir, "store.cls"), chunks*(cf.cpc+1)*cf.nb))
		s.open()
		var hs []ih.Sha256
		verify := func(r ih.HashReader, what string) {
			if n, err := r.CountHashes(); err != nil || n != count+int64(len(hs)) {
				t.Fail("%s: count %d (%v), want %d", what, n, err, count+int64(len(hs)))
			}
			for i, h := range hs {
				arg, back := h, ih.Sha256{}
				if n, err := r.IndexOfHash(&arg); err != nil || n != count+int64(i) {
					t.Fail("%s: hash %x found at %d (%v), want %d", what, h, n, err, count+int64(i))
				}
				if err := r.GetHashAtIndex(count+int64(i), &back); err != nil || back != h {
					t.Fail("%s: hash at %d is %x (%v), want %x", what, count+int64(i), back, err, h)
				}
				arg[31] ^= 2
				if n, err := r.IndexOfHash(&arg); err != nil || n != -1 {
					t.Fail("%s: absent hash %x found at %d (%v)", what, arg, n, err)
				}
				t.Step(1)
			}
		}
		for i := 0; i < 12; i++ {
			h := hash(1+i%2, 4+i/2)
			n, err := s.s.AppendHash(&h)
			if err != nil || n != count+int64(i) {
				t.Fail("append returned %d (%v), want %d", n, err, count+int64(i))
			}
			hs = append(hs, h)
			if i%4 == 3 {
				verify(s.s, "appended")
			}
			if i == 7 {
				s.reopen()
				verify(s.s, "reopened")
			}
		}
		s.check(s.s.Close(), "close")
		s.s = nil
		r, err := s.cr.OpenHashStoreReadOnly()
		s.check(err, "open read-only")
		verify(r, "read-only")
		s.check(r.Close(), "close")
		t.State("far", cf, count, chunks)
	})
}

func main() {
	vk.Main(vk.Spec{
		Property: "C05",
		Rule:     "every history of appends (three partial-key groups), lookups, syncs and reopens up to the stated depth, and every group pattern of long collision chains, for each setting; after every step every stored and many absent hashes are looked up",
		Bounds: func(tier string) map[string]any {
			return map[string]any{"key bits": "0,1,2,3,8,12", "entry bytes": "1..8", "collisions per chunk": "1..8", "modes": "file, memory-held lookup, append-buffered, in-memory index", "chain length": "up to 40 (quick), 120 (thorough)", "far": "12 appends after 2^14 to 2^36 hashes and as many chunks of collisions (nearly all holes)"}
		},
		Assumptions: []string{"distinct hashes"},
		Run: func(c *vk.Ctx) {
			mem := cfg{kind: "memory"}
			var modes []cfg
			for m := 0; m < 4; m++ {
				modes = append(modes, cfg{"concrete", 1, 3, 2, m&1 != 0, m&2 != 0})
			}
			for d := 1; d <= 4; d++ {
				for _, m := range modes {
					if d == 4 && m.memLookup == m.app && !c.Thorough() {
						continue
					}
					histories(c, fmt.Sprintf("histories-depth%d", d), m, d)
				}
				histories(c, fmt.Sprintf("histories-depth%d", d), mem, d)
				histories(c, fmt.Sprintf("histories-depth%d", d), cfg{"concrete", 0, 1, 2, false, false}, d)
				histories(c, fmt.Sprintf("histories-depth%d", d), cfg{"concrete", 8, 4, 3, false, true}, d)
			}
			// long chains: all in one group, alternating, and runs; checked after every append
			maxLen := vk.Pick(c, 40, 120)
			for _, bits := range []int64{0, 1, 2, 3, 12} {
				for nb := int64(1); nb <= 8; nb++ {
					for cpc := int64(1); cpc <= 8; cpc++ {
						for m := 0; m < 4; m++ {
							if !c.Thorough() && (int(bits)+int(nb)+int(cpc)+m)%2 == 1 && nb != 5 {
								continue
							}
							for _, pat := range []string{"A", "AB", "AAB", "ABCD", "AAAABBBBB"} {
								if pat != "A" && !c.Thorough() && nb != 1 && nb != 3 && nb != 4 {
									continue
								}
								cf := cfg{"concrete", bits, nb, cpc, m&1 != 0, m&2 != 0}
								pat := pat
								c.Case("long-chains", func() string { return fmt.Sprintf("%v: %d appends in groups %s..., reopened midway", cf, maxLen, pat) }, func(t *vk.T) {
									s := newSut(t, cf)
									for i := 0; i < maxLen; i++ {
										s.append(hash(int(pat[i%len(pat)]-'A'), i))
										s.lookup(s.s, s.model[i], "just appended")
										s.lookup(s.s, s.model[i/2], "earlier")
										s.lookup(s.s, s.model[0], "first")
										s.lookup(s.s, hash(0, i+1), "not yet appended")
										if i == maxLen/2 || i == 3 || i == int(cpc)+1 {
											s.all(s.s, "midway")
											s.reopen()
										}
										t.Step(1)
									}
									t.State(cf, pat, maxLen)
									s.finish()
								})
							}
						}
					}
				}
			}
			for _, cf := range []cfg{mem, {"concrete", 16, 4, 3, true, true}, {"concrete", 10, 3, 3, false, true}, {"concrete", 20, 4, 4, false, false}} {
				cf := cf
				c.Case("many", func() string { return fmt.Sprintf("%v: 3000 hashes", cf) }, func(t *vk.T) {
					s := newSut(t, cf)
					for i := uint64(0); i < 3000; i++ {
						s.append(ih.HashOfInt(i))
						t.Step(1)
						if i%700 == 0 {
							s.all(s.s, "midway")
						}
					}
					t.State(cf)
					s.finish()
				})
			}
			// a one-byte entry holds as many hashes as it is able to number
			for _, bits := range []int64{0, 3, 8} {
				for _, cpc := range []int64{1, 2, 3, 8} {
					bits, cpc := bits, cpc
					c.Case("one-byte-capacity", func() string {
						return fmt.Sprintf("key bits=%d chunk=%d one-byte entries, filled until refused", bits, cpc)
					}, func(t *vk.T) {
						s := newSut(t, cfg{"concrete", bits, 1, cpc, false, false})
						for i := 0; i < 200; i++ {
							h := ih.HashOfInt(uint64(i))
							h[0] = byte(i)
							if bits == 0 {
								h[0] = 7
							}
							idx, err := s.s.AppendHash(&h)
							if err != nil {
								if i < 120 {
									t.Fail("append %d refused: %v", i, err)
								}
								break
							}
							if idx != int64(i) {
								t.Fail("append %d returned %d", i, idx)
							}
							s.where[h] = idx
							s.model = append(s.model, h)
							for j, m := range s.model {
								s.lookup(s.s, m, fmt.Sprintf("hash %d after %d appends", j, i+1))
							}
							t.Step(1)
						}
						t.State("cap", bits, cpc)
						for i, h := range s.model {
							s.lookup(s.s, h, "at capacity")
							var got ih.Sha256
							s.check(s.s.GetHashAtIndex(int64(i), &got), "read at capacity")
							if got != h {
								t.Fail("at capacity: hash %d differs", i)
							}
						}
						t.Outcome(fmt.Sprintf("capacity=%d", len(s.model)))
					})
				}
			}
			for nb := int64(2); nb <= 8; nb++ {
				counts := []int64{1<<31 - 6, 1<<32 - 6, 1 << 36}
				if nb <= 4 {
					counts = []int64{1<<(8*nb-1) - 14, 1<<(8*nb-2) - 3}
				}
				for _, n := range counts {
					for _, cpc := range vk.Pick(c, []int64{1, 3}, []int64{1, 2, 3, 4, 5, 6, 7, 8}) {
						for m := 0; m < 4; m++ {
							for _, chunks := range []int64{0, n} {
								far(c, cfg{"concrete", 3 * (nb % 2), nb, cpc, m&1 != 0, m&2 != 0}, n, chunks)
							}
						}
					}
				}
			}
			if c.Thorough() {
				for _, m := range modes {
					histories(c, "histories-depth5", m, 5)
				}
				histories(c, "histories-depth5", mem, 5)
			}
		},
	})
}
