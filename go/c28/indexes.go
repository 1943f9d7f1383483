package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"time"

	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

// ---- indexes built in bulk

type sha = ih.Sha256

// list makes n hashes: spread over the bins or all in the last one, some repeated.
func list(n, salt int, oneBin bool) (l []sha) {
	for i := 0; i < n; i++ {
		var h sha
		if i%7 == salt && i > 0 {
			h = l[i/2]
		} else {
			k := ^uint64(0) - uint64(i/2)
			if !oneBin && i%3 != 0 {
				k = uint64(i*salt) << 57
			}
			binary.LittleEndian.PutUint64(h[:8], k)
			h[20], h[21], h[31] = byte(i), byte(i>>8), byte(salt)
		}
		l = append(l, h)
	}
	return
}

type builder struct {
	name  string
	bins  int64
	place func(dir string, l []sha) error // leaves the list of hashes
	index func(dir string) error
	fresh func(dir string) error // creates it with nothing in it
	open  func(dir string) (ih.HashReader, error)
}

func putList(dir string, l []sha) error {
	var raw []byte
	for i := range l {
		raw = append(raw, l[i][:]...)
	}
	if err := os.MkdirAll(filepath.Join(dir, "idx"), 0755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "idx", "Hashes.hsh"), raw, 0644)
}

func uniform(bins int64, passes int64, existing bool) builder {
	b := builder{name: fmt.Sprintf("uniform, about %d bins, %d to a pass, existing list %v", bins, passes, existing), bins: bins, place: putList}
	var c *ih.UniformHashStoreCreator
	if !existing {
		b.fresh = func(dir string) error {
			return ih.NewUniformHashStoreCreatorPrivate(bins*75, dir, "idx", 1).CreateHashStore()
		}
		b.place = func(dir string, l []sha) error {
			c = ih.NewUniformHashStoreCreatorPrivate(bins*75, dir, "idx", 1)
			if err := c.CreateHashStore(); err != nil {
				return err
			}
			return putList(dir, l)
		}
	}
	b.index = func(dir string) error {
		if existing {
			c = ih.NewUniformHashStoreCreatorPrivate(bins*75, dir, "idx", 1)
		}
		return ih.NewMultipassPreloader(c, passes*832).IndexTheHashes()
	}
	b.open = func(dir string) (ih.HashReader, error) {
		cr, _, err := ih.NewUniformHashStoreCreatorAndPreloaderFromFile(dir, "idx", 1)
		if err != nil {
			return nil, err
		}
		return cr.OpenHashStoreReadOnly()
	}
	return b
}

func binned(bins, slots int64, adaptive bool) builder {
	name := "multipass"
	if adaptive {
		name = "adaptive"
	}
	b := builder{name: fmt.Sprintf("binned, %s, %d bins of %d slots", name, bins, slots), bins: bins, place: putList}
	b.index = func(dir string) error {
		params := indexedhashes3.NewHashStoreParams(17, bins*((1<<30)/35/2), 1, bins, slots, 8)
		if adaptive {
			params = indexedhashes3.NewHashStoreParams(17, bins, 1, bins, slots, 8)
			_, p, err := indexedhashes3.NewHashStoreCreatorAndPreloaderAdaptive(dir, "idx", params, 1)
			if err != nil {
				return err
			}
			return p.IndexTheHashes(1)
		}
		ba := indexedhashes3.NewBinsArray(1, params.BytesPerBinEntry(), 3)
		_, p, err := indexedhashes3.NewHashStoreCreatorAndPreloader(dir, "idx", params, 1, ba)
		if err != nil {
			return err
		}
		return p.IndexTheHashes(1)
	}
	b.open = func(dir string) (ih.HashReader, error) {
		cr, err := indexedhashes3.NewHashStoreCreatorFromFile(dir, "idx", false)
		if err != nil {
			return nil, err
		}
		return cr.OpenHashStoreReadOnly()
	}
	return b
}

// answersRight puts every question to an index.
func answersRight(r ih.HashReader, l []sha, others []sha) error {
	first := map[sha]int64{}
	for i, h := range l {
		if _, ok := first[h]; !ok {
			first[h] = int64(i)
		}
	}
	if n, err := r.CountHashes(); err != nil || n != int64(len(l)) {
		return fmt.Errorf("%d hashes counted, not %d (%v)", n, len(l), err)
	}
	for i, h := range l {
		arg := h
		if at, err := r.IndexOfHash(&arg); err != nil || at != first[h] {
			return fmt.Errorf("hash %d is said to be at %d, not %d (%v)", i, at, first[h], err)
		}
		if first[h] == int64(i) {
			var g sha
			if err := r.GetHashAtIndex(int64(i), &g); err != nil || g != h {
				return fmt.Errorf("hash %d is read as %x, not %x (%v)", i, g[:8], h[:8], err)
			}
		}
	}
	for _, h := range others {
		if _, ok := first[h]; ok {
			continue
		}
		arg := h
		if at, err := r.IndexOfHash(&arg); err != nil || at != -1 {
			return fmt.Errorf("a hash that is not in the list is said to be at %d (%v)", at, err)
		}
	}
	return nil
}

func indexes(c *vk.Ctx) {
	us := []builder{uniform(1, 1, true), uniform(3, 2, true), uniform(3, 1, false)}
	bs := []builder{binned(2, 2, false), binned(2, 2, true), binned(6, 1, false), binned(6, 1, true)}
	one := func(b, b2 builder, n1, n2, salt2 int, oneBin bool) {
		c.CaseLimit("index", time.Duration(vk.Pick(c, 120, 600))*time.Second, func() string {
			return fmt.Sprintf("%s: %d hashes, then %s: %d hashes (salt %d), in one bin %v", b.name, n1, b2.name, n2, salt2, oneBin)
		}, func(t *vk.T) {
			l1, l2 := list(n1, 3, oneBin), list(n2, salt2, oneBin)
			dir := filepath.Join(t.Dir(), "live")
			vk.Must(os.MkdirAll(dir, 0755))
			var states []state
			do := func() {
				if err := b.index(dir); err != nil {
					t.Fail("indexing: %v", err)
				}
			}
			if err := b.place(dir, l1); err != nil {
				t.Fail("%v", err)
			}
			states = watch(t, dir, nil, "indexing", do)
			states = few(states, vk.Pick(c, 60, 600))
			if b.fresh != nil { // it is created again, and nothing is put in it
				each(t, states, func(s state, d string) {
					if err := b.fresh(d); err != nil {
						t.Fail("indexing abandoned %s, created again: %v", s.at, err)
					}
					r, err := b.open(d)
					if err != nil {
						return // there is nothing to open before it is indexed
					}
					if err := answersRight(r, nil, l1); err != nil {
						t.Fail("indexing abandoned %s, created again: %v", s.at, err)
					}
					_ = r.Close()
				})
			}
			each(t, states, func(s state, d string) {
				fail := func(err error, what string) {
					if err != nil {
						t.Fail("indexing abandoned %s, begun again: %s: %v", s.at, what, err)
					}
				}
				fail(b2.place(d, l2), "placing the list")
				fail(b2.index(d), "indexing")
				r, err := b2.open(d)
				fail(err, "opening")
				fail(answersRight(r, l2, l1), "asking")
				fail(r.Close(), "closing")
				t.Step(len(l2))
			})
			t.Nontrivial()
			t.Outcome(fmt.Sprintf("from %d to %d hashes", n1, n2))
		})
	}
	for i, b := range us {
		for _, n := range []int{3, 120, 330} {
			for _, oneBin := range []bool{false, true} {
				for j, n2 := range []int{n, n / 3, n + 110, 0} {
					for _, salt := range []int{3, 5} {
						one(b, us[(i+2*(j%2))%3], n, n2, salt, oneBin)
					}
				}
			}
		}
	}
	for i, b := range bs {
		for _, n := range []int{3, 9, 20} {
			for _, oneBin := range []bool{false, true} {
				for _, n2 := range []int{n, n / 3, n + 11, 0} {
					for _, salt := range []int{3, 5} {
						one(b, b, n, n2, salt, oneBin)
						one(b, bs[i^1], n, n2, salt, oneBin)
						if n == 9 {
							one(b, bs[(i+2)%4], n, n2, salt, oneBin)
						}
					}
				}
			}
		}
	}
}
