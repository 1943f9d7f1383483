// C08: hashes appended one at a time to a binned index are all found.
package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"time"

	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

type hash = ih.Sha256

func check(t *vk.T, err error, what string) {
	if err != nil {
		t.Fail("%s: %v", what, err)
	}
}

func key(k uint64, tail int) (h hash) {
	binary.LittleEndian.PutUint64(h[:8], k)
	binary.LittleEndian.PutUint32(h[20:], uint32(tail))
	h[31] = byte(tail * 7)
	return
}

type scenario struct {
	bins, slots, sortBytes, bits int64
	digits                       int
	start                        string // "empty", "multipass", "adaptive"
	reopen                       int    // close and reopen after every that many appends (0: never)
}

func (s scenario) String() string {
	return fmt.Sprintf("%d bins, %d slots, %d+%d bits, %d digits, starting %s, reopened every %d", s.bins, s.slots, 8*s.sortBytes, s.bits, s.digits, s.start, s.reopen)
}

// appendAll appends the hashes to an index that starts out holding base, checking everything after every append.
func appendAll(t *vk.T, sc scenario, base, hashes, absent []hash) {
	dir := t.Dir()
	folder := filepath.Join(dir, "idx")
	vk.Must(os.MkdirAll(folder, 0755))
	p := indexedhashes3.NewHashStoreParams(sc.bits, 50, sc.digits, sc.bins, sc.slots, sc.sortBytes)
	var raw []byte
	for i := range base {
		raw = append(raw, base[i][:]...)
	}
	var cr ih.HashStoreCreator
	switch sc.start {
	case "empty":
		c := indexedhashes3.NewHashStoreCreatorPrivate(p, folder, false)
		if c.HashStoreExists() {
			t.Fail("exists before it is created")
		}
		if len(hashes)%2 == 0 { // the folder may hold a previous store
			check(t, c.CreateHashStore(), "create the previous store")
			s, err := c.OpenHashStore()
			check(t, err, "open the previous store")
			for i := 0; i < 12; i++ {
				h := key(uint64(i%2)<<63+uint64(i*i), 7000+i)
				_, err = s.AppendHash(&h)
				check(t, err, "append to the previous store")
			}
			check(t, s.Close(), "close the previous store")
		}
		check(t, c.CreateHashStore(), "create")
		cr = c
	case "multipass":
		vk.Must(os.WriteFile(filepath.Join(folder, "Hashes.hsh"), raw, 0644))
		c, mp, err := indexedhashes3.NewHashStoreCreatorAndPreloader(dir, "idx", p, 1, indexedhashes3.NewBinsArray(1, 40, 1))
		check(t, err, "creator")
		check(t, mp.IndexTheHashes(2), "build")
		cr = c
	case "adaptive":
		vk.Must(os.WriteFile(filepath.Join(folder, "Hashes.hsh"), raw, 0644))
		c, ap, err := indexedhashes3.NewHashStoreCreatorAndPreloaderAdaptive(dir, "idx", p, 1)
		check(t, err, "creator")
		check(t, ap.IndexTheHashes(2), "build")
		cr, err = indexedhashes3.NewHashStoreCreatorFromFile(dir, "idx", false)
		check(t, err, "creator from file")
		_ = c
	}
	first := map[hash]int64{}
	var all []hash
	for _, h := range base {
		if _, ok := first[h]; !ok {
			first[h] = int64(len(all))
		}
		all = append(all, h)
	}
	verify := func(s ih.HashReader, what string) {
		n, err := s.CountHashes()
		check(t, err, what+" count")
		if n != int64(len(all)) {
			t.Fail("%s: count %d, want %d", what, n, len(all))
		}
		for i, h := range all {
			if len(all) > 200 && i > 5 && i < len(all)-20 && i%7919 != 0 && i%256 > 1 || len(all) > 10000 && i > 5 && i < len(all)-20 && i%7919 != 0 {
				continue // of very many, some
			}
			arg := h
			got, err := s.IndexOfHash(&arg)
			check(t, err, what+" lookup")
			if got != first[h] {
				t.Fail("%s, %d stored: hash %d (%x) found at %d, want %d", what, len(all), i, h[:8], got, first[h])
			}
			if first[h] == int64(i) {
				var back hash
				check(t, s.GetHashAtIndex(int64(i), &back), what+" read")
				if back != h {
					t.Fail("%s, %d stored: hash at %d is %x, want %x", what, len(all), i, back, h)
				}
			}
		}
		for _, h := range absent {
			if _, ok := first[h]; ok {
				continue
			}
			arg := h
			got, err := s.IndexOfHash(&arg)
			check(t, err, what+" lookup of an absent hash")
			if got != -1 {
				t.Fail("%s, %d stored: absent hash %x found at %d", what, len(all), h, got)
			}
		}
	}
	s, err := cr.OpenHashStore()
	check(t, err, "open")
	verify(s, "opened")
	for i, h := range hashes {
		arg := h
		at, err := s.AppendHash(&arg)
		check(t, err, "append")
		if at != int64(len(all)) {
			t.Fail("append returned %d, want %d", at, len(all))
		}
		if arg != h {
			t.Fail("append changed its argument")
		}
		first[h] = at
		all = append(all, h)
		t.Step(1)
		verify(s, "appended")
		if sc.reopen > 0 && (i+1)%sc.reopen == 0 {
			check(t, s.Close(), "close")
			ro, err := cr.OpenHashStoreReadOnly()
			check(t, err, "reopen read-only")
			verify(ro, "reopened read-only")
			check(t, ro.Close(), "close")
			s, err = cr.OpenHashStore()
			check(t, err, "reopen")
			verify(s, "reopened")
		}
		t.State(sc.bins, sc.slots, all)
	}
	check(t, s.Sync(), "sync")
	check(t, s.Close(), "close")
	t.Outcome(fmt.Sprintf("stored=%d", len(all)))
}

func main() {
	vk.Main(vk.Spec{
		Property: "C08",
		Rule:     "every insertion order of each listed set of hashes, from empty and from bulk-built indexes, with every stored and several absent hashes looked up after every append",
		Bounds: func(tier string) map[string]any {
			return map[string]any{"bins": "2,4,6,256", "slots": "1,2,3", "set size": "6 (quick) 7 (thorough), in all orders; 60 in listed orders; 280 appended to a bin; 12 appended to a bin of 65530", "reopening": "never, every append, every second append"}
		},
		Assumptions: []string{"distinct appended hashes, as stated", "sort keys and positions fit the configured widths"},
		Run: func(c *vk.Ctx) {
			sets := map[string]func(D uint64) []hash{
				"one bin, distinct keys": func(D uint64) []hash {
					return []hash{key(10, 1), key(20, 2), key(21, 3), key(22, 4), key(1000, 5), key(D-1, 6), key(5, 7)}
				},
				"one bin, equal keys": func(D uint64) []hash {
					return []hash{key(D+10, 1), key(D+10, 2), key(D+10, 3), key(D+11, 4), key(D+9, 5), key(D+11, 6), key(D+1<<60, 7)}
				},
				"one bin, clustered keys": func(D uint64) []hash {
					return []hash{key(1, 1), key(2, 2), key(1<<50, 3), key(1<<50, 4), key(1<<61, 5), key(1<<61+1, 6), key(3, 7)}
				},
				"two bins": func(D uint64) []hash {
					return []hash{key(D-1, 1), key(D, 1), key(D-1, 2), key(D+1, 1), key(D, 2), key(^uint64(0), 1), key(^uint64(0)-1, 1)}
				},
				"one byte apart": func(D uint64) (r []hash) {
					for _, i := range []int{0, 7, 8, 16, 24, 31} {
						h := key(D+77, 9)
						h[i] ^= 1
						r = append(r, h)
					}
					return append(r, key(D+77, 9))
				},
			}
			names := []string{"one bin, distinct keys", "one bin, equal keys", "one bin, clustered keys", "two bins", "one byte apart"}
			size := vk.Pick(c, 6, 7)
			k := 0
			for _, bins := range []int64{2, 6, 256} {
				D := uint64(1<<63)/uint64(bins/2) + 1
				if bins == 2 {
					D--
				}
				for _, name := range names {
					for _, slots := range vk.Pick(c, []int64{2}, []int64{1, 2, 3}) {
						set := sets[name](D)[:size]
						absent := append(append([]hash{}, sets[name](D)...), key(D-1, 99), key(D, 99), key(D+1, 99), key(10, 99), key(15, 1), key(D+10, 99), key(^uint64(0), 99), key(1<<50, 99))
						vk.Perms(size, func(perm []int) {
							k++
							sc := scenario{bins, slots, 8, []int64{8, 32, 17}[k%3], 1 + k%2, "empty", []int{0, 2, 1, 3}[k%4]}
							if !c.Thorough() {
								sc.slots = 1 + int64(k%3)
							}
							baseN := 0
							if k%5 == 1 && (bins < 100 || c.Thorough()) {
								sc.start = "multipass"
								baseN = k / 5 % 4
							} else if k%40 == 7 {
								sc.start = "adaptive"
								baseN = 1 + k/40%3
							}
							var order []hash
							for _, p := range perm {
								order = append(order, set[p])
							}
							base := append([]hash{}, order[:baseN]...)
							if baseN > 1 {
								base = append(base, base[0]) // bulk-built indexes may hold repeats
							}
							if sc.start == "adaptive" || sc.start == "multipass" {
								base = append(base, key(uint64(k)<<40|1<<40, 5000))
							}
							c.Case("orders: "+name, func() string { return fmt.Sprint(sc, ", order ", order) }, func(t *vk.T) {
								appendAll(t, sc, base, order[baseN:], absent)
							})
						})
					}
				}
			}
			// more entries in a bin than one byte and than two bytes can count
			for i, start := range []string{"empty", "multipass", "adaptive"} {
				for j, slots := range []int64{1, 3, 300} {
					sc := scenario{2, slots, 8, 32, 1 + j%2, start, 0}
					absent := []hash{key(12345, 0), key(999, 1), key(1<<63, 1), ih.HashOfInt(1 << 50)}
					c.Case("past 255", func() string { return fmt.Sprint(sc) }, func(t *vk.T) {
						var base, hs []hash
						for n := 0; n < 290; n++ {
							h := key(uint64(n*97%290/3)*1000, n+1)
							if n < 10 && start != "empty" {
								base = append(base, h)
							} else {
								hs = append(hs, h)
							}
						}
						appendAll(t, sc, base, hs, absent)
					})
					if start != "empty" && slots != 3 {
						sc.reopen = 7 * i
						c.CaseLimit("past 65535", 5*time.Minute, func() string { return fmt.Sprint(sc) }, func(t *vk.T) {
							var base, hs []hash
							for n := 0; n < 65542; n++ {
								h := key(uint64(n*31%65542/3)*1000, n+1)
								if n < 65530 {
									base = append(base, h)
								} else {
									hs = append(hs, h)
								}
							}
							appendAll(t, sc, base, hs, absent)
						})
					}
				}
			}
			// long runs across many slots, in listed orders
			for _, n := range vk.Pick(c, []int{30, 60}, []int{30, 60, 150}) {
				for _, slots := range []int64{1, 7, 29, 30, 31} {
					for _, dist := range []string{"even", "squares", "runs", "exponential", "digests"} {
						for _, ord := range []string{"up", "down", "inside out", "stride"} {
							n, slots, dist, ord := n, slots, dist, ord
							k++
							sc := scenario{2, slots, 8, 32, 2, []string{"empty", "multipass"}[k%2], []int{0, 10}[k/2%2]}
							c.Case("long", func() string { return fmt.Sprintf("%v: %d %s hashes, %s", sc, n, dist, ord) }, func(t *vk.T) {
								var hs, absent []hash
								for i := 0; i < n; i++ {
									u := uint64(i)
									var h hash
									switch dist {
									case "even":
										h = key(u*1000, i+1)
									case "squares":
										h = key(u*u*u, i+1)
									case "runs":
										h = key(u/5*3, i+1)
									case "exponential":
										h = key(1<<(u%63), i+1)
									case "digests":
										h = ih.HashOfInt(u)
									}
									hs = append(hs, h)
									if i%5 == 0 {
										h[31]++
										absent = append(absent, h)
										h[31]--
										h[0]++
										absent = append(absent, h)
									}
								}
								order := make([]hash, 0, n)
								for i := 0; i < n; i++ {
									j := i
									switch ord {
									case "down":
										j = n - 1 - i
									case "inside out":
										j = n/2 + (i+1)/2*(1-2*(i%2))
										j = (j%n + n) % n
									case "stride":
										j = i * 7 % n
									}
									order = append(order, hs[j])
								}
								seen := map[hash]bool{}
								uniq := order[:0:0]
								for _, h := range order {
									if !seen[h] {
										seen[h] = true
										uniq = append(uniq, h)
									}
								}
								b := 0
								if sc.start == "multipass" {
									b = n / 3
								}
								appendAll(t, sc, uniq[:b], uniq[b:], absent)
							})
						}
					}
				}
			}
		},
	})
}
