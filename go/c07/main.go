// C07: the binned hash index maps every hash to its first position, and back.
package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"

	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

type hash = ih.Sha256

func check(t *vk.T, err error, what string) {
	if err != nil {
		t.Fail("%s: %v", what, err)
	}
}

// key makes a hash whose first eight bytes (bin and sort key) are k, with one or two further bytes set.
func key(k uint64, tail int) (h hash) {
	binary.LittleEndian.PutUint64(h[:8], k)
	binary.LittleEndian.PutUint32(h[20:], uint32(tail))
	h[31] = byte(tail * 7)
	return
}

type scenario struct {
	bins, slots, sortBytes, bits int64
	digits                       int
	builder                      string // multipass, adaptive
	budget                       int64  // multipass: bins per pass aimed at (0: less than one bin fits, -1: everything); adaptive: gigabytes
	threads                      int
	ram                          bool
	dirty                        bool // the folder already holds an index of something else
	ready                        string
}

// the parameters the repository itself uses for real chains (those whose files are small enough to make here)
var ready = map[string]func() *indexedhashes3.HashIndexingParams{
	"2 years addresses":    indexedhashes3.Sensible2YearsAddressHashParams,
	"2 years transactions": indexedhashes3.Sensible2YearsTransactionHashParams,
	"2 years blocks":       indexedhashes3.Sensible2YearsBlockHashParams,
	"16 years blocks":      indexedhashes3.Sensible16YearsBlockHashParams,
}

func (s scenario) String() string {
	return fmt.Sprintf("%s %d bins, %d slots, %d+%d bits, %d digits, budget %d, %d threads, ram %v, dirty %v %s",
		s.builder, s.bins, s.slots, 8*s.sortBytes, s.bits, s.digits, s.budget, s.threads, s.ram, s.dirty, s.ready)
}

func (s scenario) params() *indexedhashes3.HashIndexingParams {
	if s.ready != "" {
		return ready[s.ready]()
	}
	est := s.bins
	if s.builder == "multipass" {
		entry := 24 + s.sortBytes + (s.bits-1)/8 + 1
		switch {
		case s.budget == 0:
			est = s.bins * (1 << 31) // a bin is expected to need more than the gigabyte granted
		case s.budget > 0:
			est = s.bins * ((1 << 30) / entry / s.budget)
		}
	}
	return indexedhashes3.NewHashStoreParams(s.bits, est, s.digits, s.bins, s.slots, s.sortBytes)
}

func build(t *vk.T, sc scenario, hashes []hash, dir string, ba *indexedhashes3.BinsArray) ih.HashStoreCreator {
	var raw []byte
	for i := range hashes {
		raw = append(raw, hashes[i][:]...)
	}
	vk.Must(os.MkdirAll(filepath.Join(dir, "idx"), 0755))
	vk.Must(os.WriteFile(filepath.Join(dir, "idx", "Hashes.hsh"), raw, 0644))
	if sc.builder == "adaptive" {
		cr, p, err := indexedhashes3.NewHashStoreCreatorAndPreloaderAdaptive(dir, "idx", sc.params(), int(sc.budget))
		check(t, err, "adaptive creator")
		check(t, p.IndexTheHashes(sc.threads), "adaptive build")
		return cr
	}
	if ba == nil {
		ba = indexedhashes3.NewBinsArray(1, sc.params().BytesPerBinEntry(), 3)
	}
	cr, p, err := indexedhashes3.NewHashStoreCreatorAndPreloader(dir, "idx", sc.params(), 1, ba)
	check(t, err, "creator")
	check(t, p.IndexTheHashes(sc.threads), "multipass build")
	if len(hashes) < 10000 && (len(hashes) == 0 || hashes[0] != (hash{})) {
		check(t, p.TestTheHashes(), "the builder's own test")
	}
	return cr
}

func verify(t *vk.T, r ih.HashReader, hashes []hash, absent []hash, what string) {
	first := map[hash]int64{}
	for i, h := range hashes {
		if _, ok := first[h]; !ok {
			first[h] = int64(i)
		}
	}
	// An entry of nothing but zeroes is indistinguishable from an empty slot (known finding, reported by its own cases).
	group := func(h hash) string {
		if len(hashes) == 1 && h == (hash{}) {
			return "all-zero hash alone at position zero"
		}
		return "index"
	}
	n, err := r.CountHashes()
	check(t, err, what+" count")
	if n != int64(len(hashes)) {
		t.Fail("%s: count %d, want %d", what, n, len(hashes))
	}
	for i, h := range hashes {
		if len(hashes) > 10000 && i > 20 && i < len(hashes)-20 && i%7919 != 0 && i%16384 > 1 {
			continue // of very many, some hundred
		}
		arg := h
		got, err := r.IndexOfHash(&arg)
		check(t, err, what+" lookup")
		if got != first[h] {
			t.FailKey(group(h), "%s: hash %d (%x) found at %d, want %d", what, i, h[:8], got, first[h])
		}
		if first[h] == int64(i) {
			back := hash{1, 2, 3}
			check(t, r.GetHashAtIndex(int64(i), &back), what+" read")
			if back != h {
				t.FailKey(group(h), "%s: hash at %d is %x, want %x", what, i, back, h)
			}
		}
		t.Step(1)
	}
	for _, h := range absent {
		if _, ok := first[h]; ok {
			continue
		}
		arg := h
		got, err := r.IndexOfHash(&arg)
		check(t, err, what+" lookup of an absent hash")
		if got != -1 {
			t.Fail("%s: absent hash %x found at %d", what, h, got)
		}
		t.Step(1)
	}
}

func run(c *vk.Ctx, group string, sc scenario, desc string, gen func() ([]hash, []hash)) {
	c.Case(group, func() string { return fmt.Sprintf("%v: %s", sc, desc) }, func(t *vk.T) {
		hashes, absent := gen()
		dir := t.Dir()
		ba := indexedhashes3.NewBinsArray(2, 40, 1)
		if sc.dirty {
			var other []hash
			for i := 0; i < 40; i++ {
				other = append(other, key(uint64(i%8)<<61+uint64(i%3), 5000+i))
			}
			build(t, sc, other, dir, ba)
		}
		cr := build(t, sc, hashes, dir, ba)
		if !cr.HashStoreExists() {
			t.Fail("does not exist")
		}
		for i, h := range hashes { // near misses
			if len(hashes) > 60 && i%11 != 0 || len(hashes) > 10000 && i%5003 != 0 {
				continue
			}
			h[31] ^= 1
			absent = append(absent, h)
			h[31] ^= 1
			h[0] ^= 1
			absent = append(absent, h)
			h[0] ^= 1
			h[8] ^= 0x80
			absent = append(absent, h)
		}
		var r ih.HashReader
		var err error
		if !sc.ram {
			if r, err = cr.OpenHashStoreReadOnly(); err != nil {
				t.Fail("open: %v", err)
			}
			verify(t, r, hashes, absent, "built")
			check(t, r.Close(), "close")
		}
		cr2, err := indexedhashes3.NewHashStoreCreatorFromFile(dir, "idx", sc.ram)
		check(t, err, "open from parameters")
		r, err = cr2.OpenHashStore()
		check(t, err, "reopen")
		verify(t, r, hashes, absent, "reopened")
		check(t, r.Close(), "close")
		t.State(sc.bins, sc.slots, hashes)
		t.Outcome(fmt.Sprintf("hashes=%d", len(hashes)))
	})
}

func main() {
	vk.Main(vk.Spec{
		Property: "C07",
		Rule:     "every sequence of the stated hash alphabet up to the depth bound; every fill level of a bin around its slots with runs of equal sort keys; every bin boundary; for both builders, each memory budget, worker count, on-disk and in-memory readers, fresh and re-used folders",
		Bounds: func(tier string) map[string]any {
			return map[string]any{"bins": "2,4,6,10,256,1000,65536", "slots per bin": "1,2,3,5", "threads": "1..5", "passes": "one, one bin each, two bins each", "ready": "the repository's own parameters for two years of blocks, transactions and addresses (thorough: and for sixteen years of blocks)", "sequence depth": "multipass 4, adaptive 3 (quick), 6 and 5 (thorough)"}
		},
		Assumptions: []string{"sort keys fit the configured bytes and positions fit the configured bits (the parameters' documented limits)", "hash files under 64 MiB"},
		Run: func(c *vk.Ctx) {
			divOf := func(bins int64) uint64 { // first key of bin one
				return uint64(1<<63) / uint64(bins/2)
			}
			n := 0
			scen := func(bins, slots, sortBytes int64, builder string) scenario {
				n++
				s := scenario{bins: bins, slots: slots, sortBytes: sortBytes, bits: []int64{32, 8, 17}[n%3], digits: 1 + n%2, builder: builder, threads: 1 + n%5, ram: n%3 == 1, dirty: n%4 == 2}
				if builder == "multipass" {
					s.budget = []int64{-1, 1, 2, 0, 3}[n/2%5]
				} else {
					s.budget = []int64{1, 0, 1}[n/2%3]
				}
				return s
			}
			for _, builder := range []string{"multipass", "adaptive"} {
				depth := vk.Pick(c, 4, 6)
				if builder == "adaptive" {
					depth -= 1
				}
				for _, bins := range []int64{2, 6} {
					D := divOf(bins)
					// same bin and sort key with different tails; same tail with different sort keys; neighbours; the last key
					alpha := []hash{key(7, 1), key(7, 2), key(9, 1), key(D+3, 1), key(^uint64(0), 1), key(0, 0)}
					for d := 0; d <= depth; d++ {
						vk.Seqs(len(alpha), d, func(seq []int) {
							seq = append([]int{}, seq...)
							slots := []int64{1, 2, 3}[len(seq)%3]
							if builder == "adaptive" && d == depth && seq[0] > seq[d-1] && !c.Thorough() || d > 0 && seq[0] == 5 {
								return
							}
							run(c, fmt.Sprintf("%s-sequences-depth%d", builder, d), scen(bins, slots, 8, builder), fmt.Sprint("hashes ", seq), func() (hs []hash, absent []hash) {
								for _, s := range seq {
									hs = append(hs, alpha[s])
								}
								absent = append(absent, alpha...)
								absent = append(absent, key(D-1, 1), key(D, 1), key(8, 1), key(7, 3))
								return
							})
						})
					}
				}
				for k := 0; k < 5; k++ {
					run(c, builder+"-zero-hash", scen(2, 2, 8, builder), "only the all-zero hash", func() (hs []hash, absent []hash) {
						return []hash{{}}, []hash{key(1, 0), key(0, 1)}
					})
				}
				// one bin filled with runs of equal sort keys: every composition of a fill into at most four runs
				for _, slots := range []int64{1, 2, 3, 5} {
					var runs func(left int, acc []int)
					runs = func(left int, acc []int) {
						if len(acc) > 0 {
							comp := append([]int{}, acc...)
							for _, spread := range []uint64{1, 1000, 1 << 40} {
								if builder == "adaptive" && !c.Thorough() && (len(comp)+int(spread))%2 == 0 {
									continue
								}
								spread := spread
								run(c, builder+"-equal-sort-keys", scen(4, slots, 8, builder), fmt.Sprintf("runs %v spaced %d", comp, spread), func() (hs []hash, absent []hash) {
									i := 1
									for more, round := true, 0; more; round++ { // interleaved, with a repeat now and then
										more = false
										for r, n := range comp {
											if round < n {
												more = true
												hs = append(hs, key(1<<62+uint64(r*r)*spread, i))
												i++
												if i%3 == 0 {
													hs = append(hs, hs[len(hs)/2])
												}
											}
										}
									}
									for r := 0; r < 5; r++ {
										absent = append(absent, key(1<<62+uint64(r*r)*spread, 999), key(1<<62+uint64(r*r)*spread+1, 0), key(uint64(r*r)*spread, 0))
									}
									return
								})
							}
						}
						if len(acc) == 4 {
							return
						}
						for n := 1; n <= left && n <= 4; n++ {
							runs(left-n, append(acc, n))
						}
					}
					runs(vk.Pick(c, 7, 9), nil)
				}
				// every bin boundary
				for _, bins := range []int64{2, 4, 6, 10, 14, 256, 1000} {
					D := divOf(bins)
					sb := int64(8)
					if bins >= 256 {
						sb = 7
					}
					for k := 0; k < 7; k++ {
						s := scen(bins, 1+int64(k%2), sb, builder)
						s.bits = 17
						if bins >= 256 && builder == "adaptive" {
							s.budget = 1
							if k > 1 {
								continue
							}
						}
						run(c, builder+"-bin-boundaries", s, "first and last keys of every bin", func() (hs []hash, absent []hash) {
							n := 0
							for b := uint64(0); b < uint64(bins); b++ {
								for _, k := range []uint64{b * D, b*D + 1, b*D + D/2, b*D + D - 1} {
									hs = append(hs, key(k, n+1))
									absent = append(absent, key(k, n+100000))
									n++
								}
							}
							for i := uint64(0); i < 5; i++ {
								hs = append(hs, key(^uint64(0)-i, 1))
								absent = append(absent, key(^uint64(0)-i, 77))
							}
							hs = append(hs, key(0, 3))
							return
						})
					}
				}
				// the parameters used for real chains
				for i, name := range []string{"2 years addresses", "2 years transactions", "2 years blocks", "16 years blocks"} {
					if i == 3 && !c.Thorough() {
						continue
					}
					p := ready[name]()
					s := scen(p.NumberOfBins(), p.EntriesInBinStart(), p.BytesPerSortNum(), builder)
					s.budget, s.ready, s.dirty = 1, name, false
					run(c, builder+"-ready", s, "keys around the first and last bins, and bins fuller than their slots", func() (hs []hash, absent []hash) {
						n, bins, D := 0, uint64(s.bins), divOf(s.bins)
						for _, b := range []uint64{0, 1, 2, 127, 128, bins / 2, bins - 2, bins - 1} {
							for _, k := range []uint64{b * D, b*D + 1, b*D + D/2, b*D + D - 1} {
								n++
								hs = append(hs, key(k, n))
								absent = append(absent, key(k, n+100000), key(k^1<<7, n))
							}
						}
						for _, b := range []uint64{1, bins - 1} {
							for i := uint64(0); i < uint64(s.slots)+4; i++ {
								n++
								hs = append(hs, key(b*D+(D/(uint64(s.slots)+5))*(i/2+1), n))
								if i%4 == 3 {
									hs = append(hs, hs[n/2])
								}
							}
						}
						for i := 0; i < 300; i++ {
							hs = append(hs, ih.HashOfInt(uint64(i)))
							absent = append(absent, ih.HashOfInt(uint64(i+1000000)))
						}
						return
					})
				}
				// a bin of more entries than two bytes can count
				for i, dist := range []string{"even", "runs", "digests", "digests"} {
					s := scen(2, 3, 8, builder)
					s.bits, s.ram = 32, i%2 == 1
					run(c, builder+"-huge-bin", s, fmt.Sprint("66000 hashes in a bin, ", dist), func() (hs []hash, absent []hash) {
						for i := 0; i < 66000; i++ {
							switch dist {
							case "even":
								hs = append(hs, key(uint64(i)*1000, i+1))
							case "runs":
								hs = append(hs, key(uint64(i*7919%66000/50)*70000, i+1))
							case "digests":
								for k := 0; k < 2; k++ {
									hs = append(hs, ih.HashOfInt(uint64(i*2+k)))
								}
							}
							if i%9000 == 8000 {
								hs = append(hs, hs[i/2])
							}
							if i%1000 == 0 {
								absent = append(absent, ih.HashOfInt(uint64(i+10000000)))
							}
						}
						return
					})
				}
				// digests: ordinary contents, bins from empty to overflowing
				for _, num := range []int{0, 1, 2, 127, 128, 129, 1000, 3000} {
					for _, bins := range []int64{2, 10, 256, 65536} {
						s := scen(bins, 3, map[int64]int64{2: 8, 10: 8, 256: 7, 65536: 6}[bins], builder)
						s.bits = 21
						if builder == "adaptive" && bins > 10 {
							s.budget = 1
						}
						if bins == 65536 && s.budget >= 0 {
							s.budget = map[string]int64{"adaptive": 1, "multipass": 30000}[builder]
						}
						num := num
						run(c, builder+"-digests", s, fmt.Sprintf("%d digests with repeats", num), func() (hs []hash, absent []hash) {
							for i := 0; i < num; i++ {
								hs = append(hs, ih.HashOfInt(uint64(i-i%10/9)))
								absent = append(absent, ih.HashOfInt(uint64(i+1000000)))
							}
							return
						})
					}
				}
			}
		},
	})
}
