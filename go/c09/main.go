// C09: parallel index building gives the sequential result under every schedule.
package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"time"

	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vsched"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vx"
)

type hash = ih.Sha256

func key(k uint64, tail int) (h hash) {
	binary.LittleEndian.PutUint64(h[:8], k)
	binary.LittleEndian.PutUint32(h[20:], uint32(tail))
	h[31] = byte(tail * 7)
	return
}

type config struct {
	builder string
	bins    int64
	budget  int64 // multipass: bins per pass (-1 all); adaptive: gigabytes
	threads int
	place   []int // bin of each hash; a negative number repeats the first hash of that bin
	pre     int   // -1: every schedule up to equivalence
	reverse bool
}

func (cf config) String() string {
	how := "every schedule"
	if cf.pre >= 0 {
		how = fmt.Sprintf("every schedule of at most %d preemptions", cf.pre)
	}
	return fmt.Sprintf("%s, %d bins, budget %d, %d workers, hashes in bins %v, %s", cf.builder, cf.bins, cf.budget, cf.threads, cf.place, how)
}

func (cf config) hashes() (hs, absent []hash) {
	D := uint64(1<<63) / uint64(cf.bins/2)
	for i, b := range cf.place {
		if b < 0 {
			hs = append(hs, key(uint64(-b-1)*D+5, 1))
			continue
		}
		h := key(uint64(b)*D+5, i+10)
		first := true
		for _, p := range cf.place[:i] {
			if p == b {
				first = false
			}
		}
		if first {
			h = key(uint64(b)*D+5, 1)
		}
		hs = append(hs, h)
	}
	for b := int64(0); b < cf.bins; b++ {
		absent = append(absent, key(uint64(b)*D+5, 99), key(uint64(b)*D+4, 1))
	}
	return
}

func (cf config) params() *indexedhashes3.HashIndexingParams {
	est := cf.bins
	if cf.builder == "multipass" && cf.budget > 0 {
		est = cf.bins * ((1 << 30) / 33 / cf.budget)
	}
	return indexedhashes3.NewHashStoreParams(8, est, 1, cf.bins, 2, 8)
}

func build(cf config, dir string, threads int) error {
	if cf.builder == "adaptive" {
		_, p, err := indexedhashes3.NewHashStoreCreatorAndPreloaderAdaptive(dir, "idx", cf.params(), int(cf.budget))
		if err != nil {
			return err
		}
		return p.IndexTheHashes(threads)
	}
	_, p, err := indexedhashes3.NewHashStoreCreatorAndPreloader(dir, "idx", cf.params(), 1, indexedhashes3.NewBinsArray(1, 33, 1))
	if err != nil {
		return err
	}
	return p.IndexTheHashes(threads)
}

// answers is everything the built index says.
func answers(cf config, dir string, hs, absent []hash) (out string) {
	defer func() {
		if p := recover(); p != nil {
			out += fmt.Sprint("reading the index panicked: ", p)
		}
	}()
	cr, err := indexedhashes3.NewHashStoreCreatorFromFile(dir, "idx", false)
	if err != nil {
		return "cannot open: " + err.Error()
	}
	r, err := cr.OpenHashStoreReadOnly()
	if err != nil {
		return "cannot open: " + err.Error()
	}
	defer r.Close()
	n, err := r.CountHashes()
	out = fmt.Sprint("count ", n, err)
	for i := range hs {
		h := hs[i]
		at, err := r.IndexOfHash(&h)
		var back hash
		err2 := r.GetHashAtIndex(int64(i), &back)
		out += fmt.Sprintf("; %d: %d %v %x %v", i, at, err, back, err2)
	}
	for i := range absent {
		h := absent[i]
		at, err := r.IndexOfHash(&h)
		out += fmt.Sprintf("; absent %d: %d %v", i, at, err)
	}
	return
}

func prepare(dir string, hs []hash) {
	vk.Must(os.RemoveAll(filepath.Join(dir, "idx")))
	vk.Must(os.MkdirAll(filepath.Join(dir, "idx"), 0755))
	var raw []byte
	for i := range hs {
		raw = append(raw, hs[i][:]...)
	}
	vk.Must(os.WriteFile(filepath.Join(dir, "idx", "Hashes.hsh"), raw, 0644))
}

func explore(c *vk.Ctx, group string, cf config) {
	c.CaseLimit(group, 10*time.Minute, cf.String, func(t *vk.T) {
		dir := t.Dir()
		hs, absent := cf.hashes()
		vsched.MapReverse = cf.reverse
		prepare(dir, hs)
		if err := build(cf, dir, 1); err != nil {
			t.Fail("single-worker build: %v", err)
		}
		want := answers(cf, dir, hs, absent)
		var err error
		runs := vk.Pick(c, 700, 20000)
		if len(cf.place) > 8 {
			runs = vk.Pick(c, 2, 20)
		}
		vx.Explore(t, vx.Options{Preempt: cf.pre, MaxRuns: runs, Crowded: len(cf.place) > 8, Note: cf.String()}, func() { prepare(dir, hs); err = nil }, func() {
			err = build(cf, dir, cf.threads)
		}, func(r vsched.Run) string {
			if err != nil {
				return "build failed: " + err.Error()
			}
			if got := answers(cf, dir, hs, absent); got != want {
				return "answers differ from those of a single-worker build\n  got  " + got + "\n  want " + want
			}
			return ""
		})
	})
}

func main() {
	vk.Main(vk.Spec{
		Property:   "C09",
		CaseLimit:  10 * time.Minute,
		MemLimitGB: 0,
		Rule:       "every placement of the hashes into bins up to the bound, times builder, worker count and memory budget; for each, every schedule of the rewritten real code's goroutines up to the equivalence of dynamic partial-order reduction; the race detector watches every schedule",
		Bounds: func(tier string) map[string]any {
			return map[string]any{"workers": "2..4", "bins": "2,4", "hashes": "adaptive 0..3 or 4 (quick) 0..5 (thorough); multipass 0..2 or 3 (quick) 0..4 (thorough), fewer with 4 workers or several passes", "large": "up to 25 workers, 64 bins, 30 (thorough 70) hashes: 2 (thorough 20) schedules of each", "schedules per configuration": "700 (quick) 20000 (thorough); configurations that reach this are counted under outcome_tallies"}
		},
		Assumptions: []string{"code between two synchronisation or open-file operations acts as one step (races between such steps are what the race detector reports)", "a map is ranged over in ascending or descending key order"},
		Run: func(c *vk.Ctx) {
			// more of everything: a few schedules
			for _, b := range []struct {
				name   string
				budget []int64
			}{{"adaptive", []int64{1, 0}}, {"multipass", []int64{-1, 5}}} {
				for _, budget := range b.budget {
					for _, threads := range []int{2, 5, 8, 17, 25} {
						for _, bins := range []int64{4, 16, 64} {
							for i, n := range vk.Pick(c, []int{9, 30}, []int{9, 20, 30, 70}) {
								if bins == 64 && (threads != 5 || i == 0) && !c.Thorough() {
									continue
								}
								place := []int{}
								for j := 0; j < n; j++ {
									p := j * 7 * j % int(bins)
									if j%11 == 10 {
										p = -p - 1
									}
									place = append(place, p)
								}
								explore(c, b.name+"-large", config{b.name, bins, budget, threads, place, -1, i == 1})
							}
						}
					}
				}
			}
			for _, b := range []struct {
				name   string
				budget []int64
			}{{"adaptive", []int64{1, 0}}, {"multipass", []int64{-1, 1}}} {
				for _, budget := range b.budget {
					for _, threads := range []int{2, 3, 4} {
						for _, bins := range []int64{2, 4} {
							most := vk.Pick(c, 3, 5)
							if bins == 2 {
								most = vk.Pick(c, 4, 5)
							}
							if b.name == "multipass" {
								// The schedules of the sorting phase multiply with workers, bins and passes
								most = vk.Pick(c, 3, 4)
								if bins == 4 {
									most = vk.Pick(c, 2, 4)
								}
								if threads == 4 || budget == 1 {
									most = vk.Pick(c, 2, 3)
									if bins == 4 {
										most = vk.Pick(c, 1, 2)
									}
								}
							}
							for n := 0; n <= most; n++ {
								k := 0
								vk.Seqs(int(bins)+1, n, func(seq []int) {
									k++
									place := append([]int{}, seq...)
									for i := range place {
										if place[i] == int(bins) {
											place[i] = -1 // repeat
										}
									}
									explore(c, b.name, config{b.name, bins, budget, threads, place, -1, k%2 == 1})
								})
							}
						}
					}
				}
			}
		},
	})
}
