// C06: the bulk-built uniform hash index finds the first occurrence of every hash.
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"

	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

type hash = ih.Sha256

func check(t *vk.T, err error, what string) {
	if err != nil {
		t.Fail("%s: %v", what, err)
	}
}

func key(k uint64, tail int) (h hash) {
	binary.LittleEndian.PutUint64(h[:8], k)
	binary.LittleEndian.PutUint32(h[20:], uint32(tail))
	h[31] = byte(tail * 7)
	return
}

type scenario struct {
	bins   int64 // target number of bins (estimate/75)
	digits int
	passes int // bins per pass; 0 = the shipped gigabyte budget, reached through the public constructor
	flow   string
}

func (s scenario) String() string {
	return fmt.Sprintf("about %d bins, %d digits per folder, %d bins per pass, %s", s.bins, s.digits, s.passes, s.flow)
}

func divider(bins int64) uint64 {
	// as recorded by the code itself
	d, err := os.MkdirTemp("", "divider")
	vk.Must(err)
	defer os.RemoveAll(d)
	vk.Must(os.MkdirAll(filepath.Join(d, "x"), 0755))
	ih.NewUniformHashStoreCreatorPrivate(bins*75, d, "x", 1)
	b, err := os.ReadFile(filepath.Join(d, "x", "Params.json"))
	vk.Must(err)
	var p struct {
		HashDivider uint64 `json:"hashDivider"`
	}
	vk.Must(json.Unmarshal(b, &p))
	return p.HashDivider
}

// build indexes hashes and returns the reader to be queried.
func build(t *vk.T, sc scenario, hashes []hash, dir string) ih.HashReader {
	var raw []byte
	for i := range hashes {
		raw = append(raw, hashes[i][:]...)
	}
	est := sc.bins * 75
	hf := filepath.Join(dir, "idx", "Hashes.hsh")
	var cr ih.HashStoreCreator
	var mp *ih.MultipassPreloader
	switch sc.flow {
	case "created":
		c := ih.NewUniformHashStoreCreatorPrivate(est, dir, "idx", sc.digits)
		check(t, c.CreateHashStore(), "create")
		vk.Must(os.WriteFile(hf, raw, 0644))
		if sc.passes == 0 {
			mp = ih.NewMultipassPreloader(c, 1<<30)
		} else {
			mp = ih.NewMultipassPreloader(c, int64(sc.passes)*832)
		}
		cr = c
	case "existing":
		vk.Must(os.MkdirAll(filepath.Join(dir, "idx"), 0755))
		vk.Must(os.WriteFile(hf, raw, 0644))
		if sc.passes == 0 {
			cr, mp = ih.NewUniformHashStoreCreatorAndPreloader(dir, "idx", est, sc.digits, 1)
		} else {
			c := ih.NewUniformHashStoreCreatorPrivate(est, dir, "idx", sc.digits)
			mp = ih.NewMultipassPreloader(c, int64(sc.passes)*832)
			cr = c
		}
	case "from params":
		c := ih.NewUniformHashStoreCreatorPrivate(est, dir, "idx", sc.digits)
		check(t, c.CreateHashStore(), "create")
		vk.Must(os.WriteFile(hf, raw, 0644))
		c2, _, err := ih.NewUniformHashStoreCreatorAndPreloaderFromFile(dir, "idx", 1)
		check(t, err, "open from parameters")
		if sc.passes == 0 {
			mp = ih.NewMultipassPreloader(c2, 1<<30)
		} else {
			mp = ih.NewMultipassPreloader(c2, int64(sc.passes)*832+17)
		}
		cr = c2
	}
	if !cr.HashStoreExists() {
		t.Fail("does not exist")
	}
	check(t, mp.IndexTheHashes(), "index")
	r, err := cr.OpenHashStore()
	check(t, err, "open")
	return r
}

func verify(t *vk.T, r ih.HashReader, hashes []hash, absent []hash, what string) {
	first := map[hash]int64{}
	for i, h := range hashes {
		if _, ok := first[h]; !ok {
			first[h] = int64(i)
		}
	}
	n, err := r.CountHashes()
	check(t, err, what+" count")
	if n != int64(len(hashes)) {
		t.Fail("%s: count %d, want %d", what, n, len(hashes))
	}
	for i, h := range hashes {
		if len(hashes) > 10000 && i > 150 && i < len(hashes)-20 && i%7919 != 0 && i%16384 > 1 {
			continue // of very many, some hundred
		}
		arg := h
		got, err := r.IndexOfHash(&arg)
		check(t, err, what+" lookup")
		if got != first[h] {
			t.Fail("%s: hash %d (%x) found at %d, want %d", what, i, h[:8], got, first[h])
		}
		var back hash
		check(t, r.GetHashAtIndex(int64(i), &back), what+" read")
		if back != h {
			t.Fail("%s: hash at %d is %x, want %x", what, i, back, h)
		}
		t.Step(1)
	}
	for _, h := range absent {
		if _, ok := first[h]; ok {
			continue
		}
		arg := h
		got, err := r.IndexOfHash(&arg)
		check(t, err, what+" lookup of an absent hash")
		if got != -1 {
			t.Fail("%s: absent hash %x found at %d", what, h, got)
		}
		t.Step(1)
	}
}

func run(c *vk.Ctx, group string, sc scenario, desc string, gen func() ([]hash, []hash)) {
	c.Case(group, func() string { return fmt.Sprintf("%v: %s", sc, desc) }, func(t *vk.T) {
		hashes, absent := gen()
		dir := t.Dir()
		r := build(t, sc, hashes, dir)
		for i, h := range hashes { // near misses
			if len(hashes) > 60 && i%11 != 0 || len(hashes) > 10000 && i%5003 != 0 {
				continue
			}
			h[31] ^= 1
			absent = append(absent, h)
		}
		verify(t, r, hashes, absent, "indexed")
		check(t, r.Close(), "close")
		cr, _, err := ih.NewUniformHashStoreCreatorAndPreloaderFromFile(dir, "idx", 1)
		check(t, err, "reopen from parameters")
		ro, err := cr.OpenHashStoreReadOnly()
		check(t, err, "reopen read-only")
		verify(t, ro, hashes, absent, "reopened read-only")
		check(t, ro.Close(), "close")
		t.State(sc.bins, sc.digits, sc.passes, hashes)
		t.Outcome(fmt.Sprintf("hashes=%d", len(hashes)))
	})
}

func main() {
	vk.Main(vk.Spec{
		Property: "C06",
		Rule:     "every sequence of the stated hash alphabet up to the depth bound; every fill level of a bin around its 102 slots, with repeats; every number of bins per pass; all bin boundaries; each built, queried, reopened from its parameters and queried again",
		Bounds: func(tier string) map[string]any {
			return map[string]any{"bins": "0,1,2,3,5,7,10,13,100", "fill": "1, 101..104, 205, and 254..1030 and 66000 in one bin (quick); also 2, 100, 204, 206, 300, 1000 (thorough)", "bins per pass": "1,2,3, all, the shipped budget", "sequence depth": "5 (quick) 6 (thorough)"}
		},
		Run: func(c *vk.Ctx) {
			flows := []string{"created", "existing", "from params"}
			div := map[int64]uint64{}
			for _, b := range []int64{0, 1, 2, 3, 5, 7, 10, 11, 13, 100} {
				div[b] = divider(b)
			}
			// all short sequences
			depth := vk.Pick(c, 4, 6)
			for _, bins := range []int64{1, 3} {
				D := div[bins]
				alpha := []hash{key(5, 1), key(5, 2), key(D, 1), key(^uint64(0), 1), {}}
				var absent []hash
				for _, h := range alpha {
					absent = append(absent, h)
				}
				absent = append(absent, key(D-1, 1), key(2*D, 9), key(^uint64(0), 2))
				for d := 0; d <= depth; d++ {
					vk.Seqs(len(alpha), d, func(seq []int) {
						for i, p := range []int{0, 1, 2} {
							run(c, fmt.Sprintf("sequences-depth%d", d), scenario{bins, 1, p, flows[(i+len(seq))%3]}, fmt.Sprint("hashes ", seq), func() ([]hash, []hash) {
								var hs []hash
								for _, s := range seq {
									hs = append(hs, alpha[s])
								}
								return hs, append([]hash{}, absent...)
							})
						}
					})
				}
			}
			// bin fill levels: `fill` hashes in one bin, others spread, with repeats of some of them at every kind of place
			for _, bins := range []int64{0, 1, 3, 7, 13, 100} {
				D := div[bins]
				nb := ^uint64(0)/D + 1
				for _, target := range []uint64{0, nb / 2, nb - 1} {
					for _, fill := range vk.Pick(c, []int{1, 101, 102, 103, 104, 205}, []int{1, 2, 100, 101, 102, 103, 104, 204, 206, 300, 1000}) {
						for _, rep := range []string{"none", "early", "late", "all-twice", "interleaved"} {
							for pi, p := range []int{0, 1, 2, 5} {
								if !c.Thorough() && (pi+fill+int(bins))%2 == 1 && fill != 103 {
									continue
								}
								bins, target, fill, rep := bins, target, fill, rep
								run(c, "bin-fill", scenario{bins, 1 + pi%2, p, flows[(pi+fill)%3]}, fmt.Sprintf("%d hashes in bin %d, repeats %s", fill, target, rep), func() (hs []hash, absent []hash) {
									for i := 0; i < fill; i++ {
										h := key(target*D+uint64(i%3), i)
										hs = append(hs, h)
										if i%4 == 0 {
											hs = append(hs, key(uint64(i)*0x9E3779B97F4A7C15, i))
										}
										switch rep {
										case "early":
											hs = append(hs, hs[0])
										case "late":
											if i >= 100 {
												hs = append(hs, hs[len(hs)-1], hs[len(hs)-2])
											}
										case "interleaved":
											if i%3 == 2 {
												hs = append(hs, hs[len(hs)/2])
											}
										}
									}
									if rep == "all-twice" {
										hs = append(hs, hs...)
									}
									for i := 0; i < 20; i++ {
										absent = append(absent, key(target*D+uint64(i%3), 100000+i))
									}
									return
								})
							}
						}
					}
				}
			}
			// more hashes in a bin than one byte and than two bytes can count
			for _, bins := range []int64{1, 7} {
				D := div[bins]
				for i, fill := range []int{254, 255, 256, 257, 300, 512, 1030, 66000} {
					for p := 0; p <= 2; p++ {
						if fill > 2000 && p > 0 {
							continue
						}
						run(c, "full-bin", scenario{bins, 1 + i%2, p, flows[(p+i)%3]}, fmt.Sprintf("%d hashes in a bin", fill), func() (hs []hash, absent []hash) {
							for i := 0; i < fill; i++ {
								hs = append(hs, key(D+uint64(i%3), i))
								if i%100 == 99 {
									hs = append(hs, hs[i/2], key(uint64(i)*0x9E3779B97F4A7C15, i))
								}
							}
							for i := 0; i < 20; i++ {
								absent = append(absent, key(D+uint64(i%3), 100000+i))
							}
							return
						})
					}
				}
			}
			// every bin boundary
			for _, bins := range []int64{0, 1, 2, 3, 5, 7, 10, 11, 13, 100} {
				for p := 0; p <= 14; p++ {
					bins, p := bins, p
					D := div[bins]
					run(c, "bin-boundaries", scenario{bins, 1 + p%3, p, flows[p%3]}, "first and last key of every bin", func() (hs []hash, absent []hash) {
						n := 0
						nb := ^uint64(0)/D + 1
						for b := uint64(0); b < nb; b++ {
							for _, k := range []uint64{b * D, b*D + 1, b*D + D/2, b*D + D - 1} {
								if k/D != b {
									continue
								}
								hs = append(hs, key(k, n))
								absent = append(absent, key(k, n+100000))
								n++
							}
						}
						hs = append(hs, key(^uint64(0), 1), key(^uint64(0)-1, 2), key(0, 3))
						absent = append(absent, key(^uint64(0), 77))
						return
					})
				}
			}
			// real-looking hashes, lengths around the 4096-byte read size
			for _, n := range []int{0, 1, 127, 128, 129, 255, 256, 257, 1000, 3000} {
				for _, p := range []int{0, 1, 7} {
					for _, bins := range []int64{1, 11, 100} {
						n := n
						run(c, "digests", scenario{bins, 2, p, flows[n%3]}, fmt.Sprintf("%d digests with repeats", n), func() (hs []hash, absent []hash) {
							for i := 0; i < n; i++ {
								hs = append(hs, ih.HashOfInt(uint64(i-i%10/9)))
								absent = append(absent, ih.HashOfInt(uint64(i+1000000)))
							}
							return
						})
					}
				}
			}
		},
	})
}
