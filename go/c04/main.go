// C04: integer-list maps return exactly the values appended, in order, in every mode and after every history.
package main

import (
	"fmt"
	"path/filepath"
	"reflect"
	"unsafe"

	"github.com/KitchenMishap/pudding-shed/intarrayarray"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

type cfg struct {
	fd, fo int64
	width  int64
	cached bool
	limit  int64 // cache element limit, 0 = as shipped
}

func (c cfg) String() string {
	m := "simple"
	if c.cached {
		m = "cached"
		if c.limit > 0 {
			m = fmt.Sprintf("cached(limit %d elements)", c.limit)
		}
	}
	return fmt.Sprintf("%s map, %d digits/file, %d digits/folder, %d-byte values", m, c.fd, c.fo, c.width)
}

type sut struct {
	t     *vk.T
	c     cfg
	cr    *intarrayarray.ConcreteMapStoreCreator
	m     intarrayarray.IntArrayMapStoreReadWrite
	model map[int64][]int64
	n     int64
	dir   string
}

// setLimit shrinks the cache so that its eviction is reached; false if the store has no such field any more.
func setLimit(m any, v int64) bool {
	p := reflect.ValueOf(m)
	if p.Kind() != reflect.Ptr {
		return false
	}
	f := p.Elem().FieldByName("cacheElementCountLimit")
	if !f.IsValid() || f.Kind() != reflect.Int64 {
		return false
	}
	*(*int64)(unsafe.Pointer(f.UnsafeAddr())) = v
	return true
}

func (s *sut) open() {
	m, err := s.cr.OpenMap()
	if err != nil {
		s.t.Fail("open: %v", err)
	}
	if s.c.limit > 0 && !setLimit(m, s.c.limit) {
		s.t.Extra("cache limit not adjustable", 1)
	}
	s.m = m
}

func newSut(t *vk.T, c cfg) *sut {
	s := &sut{t: t, c: c, model: map[int64][]int64{}, dir: filepath.Join(t.Dir(), "base")}
	s.cr = intarrayarray.NewConcreteMapStoreCreator("map", s.dir, c.fd, c.fo, c.width, c.cached)
	if err := s.cr.CreateMap(); err != nil {
		t.Fail("create: %v", err)
	}
	s.open()
	return s
}

func (s *sut) value() int64 {
	s.n++
	m := int64(-1)
	if s.c.width < 8 {
		m = int64(1)<<(8*uint(s.c.width)) - 1
	}
	switch s.n % 7 {
	case 3:
		return 0
	case 5:
		return m
	}
	return (s.n*0x0107030902050b0d + s.n) & m
}

func (s *sut) append(key int64) {
	v := s.value()
	if err := s.m.AppendToArray(key, v); err != nil {
		s.t.Fail("append to %d: %v", key, err)
	}
	s.model[key] = append(s.model[key], v)
}

func (s *sut) get(m intarrayarray.IntArrayMapStoreReadOnly, key int64, what string) {
	got, err := m.GetArray(key)
	if err != nil {
		s.t.Fail("%s: reading key %d (which has %d values): %v", what, key, len(s.model[key]), err)
	}
	want := s.model[key]
	if len(got) != len(want) {
		s.t.Fail("%s: key %d has %d values, want %d", what, key, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			s.t.Fail("%s: key %d value %d is %d, want %d", what, key, i, got[i], want[i])
		}
	}
	for i := range got {
		got[i] = -77 // the caller may do what it likes with the result
	}
}

func (s *sut) check(err error, what string) {
	if err != nil {
		s.t.Fail("%s: %v", what, err)
	}
}

func (s *sut) all(m intarrayarray.IntArrayMapStoreReadOnly, keys []int64, what string) {
	for _, k := range keys {
		s.get(m, k, what)
	}
}

func (s *sut) finish(keys []int64, order int) {
	switch order {
	case 0:
		s.all(s.m, keys, "at end")
	case 1:
		s.check(s.m.FlushFile(), "flush")
	case 2:
		s.check(s.m.Sync(), "sync")
		s.all(s.m, keys, "at end")
	}
	for _, cached := range []bool{false, true} {
		cr := intarrayarray.NewConcreteMapStoreCreator("map", s.dir, s.c.fd, s.c.fo, s.c.width, cached)
		r, err := cr.OpenMapReadOnly()
		s.check(err, "open read-only")
		s.all(r, keys, "read-only")
		w, err := cr.OpenMap()
		s.check(err, "reopen")
		s.all(w, keys, "reopened")
	}
	n := 0
	for _, v := range s.model {
		n += len(v)
	}
	s.t.Outcome(fmt.Sprintf("keys=%d values=%d", len(s.model), n))
}

// keys: same file, next file, older, far files in other folders, untouched neighbours.
func histories(c *vk.Ctx, group string, cf cfg, keys []int64, depth int, orders int) {
	var alphabet []string
	for _, k := range keys {
		alphabet = append(alphabet, fmt.Sprintf("append(%d)", k))
	}
	nk := len(keys)
	alphabet = append(alphabet, fmt.Sprintf("get(%d)", keys[0]), fmt.Sprintf("get(%d)", keys[nk-1]), "get(untouched)", "flush", "reopen")
	probe := append([]int64{}, keys...)
	for _, k := range keys {
		probe = append(probe, k+1, k+1000, k+1000000)
	}
	vk.Seqs(len(alphabet), depth, func(seq []int) {
		for o := 0; o < orders; o++ {
			o := o
			c.Case(group, func() string { return fmt.Sprintf("%v: %s; final check %d", cf, vk.Names(alphabet, seq), o) }, func(t *vk.T) {
				s := newSut(t, cf)
				for _, i := range seq {
					t.Tracef("%s", alphabet[i])
					switch {
					case i < nk:
						s.append(keys[i])
					case i == nk:
						s.get(s.m, keys[0], "read")
					case i == nk+1:
						s.get(s.m, keys[nk-1], "read")
					case i == nk+2:
						s.get(s.m, 777777, "read")
						s.get(s.m, keys[0]+2, "read")
					case i == nk+3:
						s.check(s.m.FlushFile(), "flush")
					case i == nk+4:
						s.check(s.m.Sync(), "sync")
						s.open()
					}
					t.Step(1)
					t.State(cf, s.model)
				}
				s.finish(probe, o)
			})
		}
	})
}

func main() {
	vk.Main(vk.Spec{
		Property: "C04",
		Rule:     "every history of appends (6 keys in the same, adjacent and distant files and folders), reads, flushes and reopens up to the stated depth; plus key sweeps, list lengths across every length encoding, and every value width",
		Bounds: func(tier string) map[string]any {
			return map[string]any{"modes": "simple, cached (as shipped and with the cache limit lowered to 1..5 elements)", "digits": "(1,1) (1,2) (2,1) (0,1) (2,2)", "depth": "4 (quick) 5 (thorough)"}
		},
		Run: func(c *vk.Ctx) {
			cfgs := []cfg{{1, 1, 5, false, 0}, {1, 1, 5, true, 0}, {1, 2, 3, false, 0}, {0, 1, 8, false, 0}, {0, 1, 2, true, 0}, {2, 1, 4, false, 0}, {2, 2, 7, true, 0}}
			for i, cf := range cfgs {
				keys := []int64{0, 7, 13, 105, 1234, 12}
				if i%2 == 1 {
					keys = []int64{1234, 3, 0, 23, 100, 29}
				}
				for d := 1; d <= 3; d++ {
					histories(c, fmt.Sprintf("histories-depth%d", d), cf, keys, d, 3)
				}
			}
			for _, lim := range []int64{1, 2, 3, 5} {
				for d := 1; d <= 3; d++ {
					histories(c, "small-cache", cfg{1, 1, 5, true, lim}, []int64{0, 7, 13, 105, 1234, 12}, d, 2)
				}
			}
			// list lengths across the length encodings, in one file with neighbours
			for _, cf := range []cfg{{1, 1, 5, false, 0}, {1, 1, 5, true, 0}, {0, 2, 1, false, 0}, {1, 2, 8, true, 0}} {
				for _, n := range []int64{1, 2, 251, 252, 253, 254, 255, 256, 257, 65534, 65535, 65536, 65537} {
					cf, n := cf, n
					c.Case("list-lengths", func() string { return fmt.Sprintf("%v: list of %d", cf, n) }, func(t *vk.T) {
						s := newSut(t, cf)
						for i := int64(0); i < n; i++ {
							s.append(13)
							if i%1000 == 0 {
								s.append(12)
								s.append(14)
							}
						}
						s.get(s.m, 13, "read")
						s.append(13)
						s.check(s.m.Sync(), "sync")
						s.open()
						s.append(13)
						s.append(14)
						t.Step(int(n))
						t.State("len", cf, n)
						s.finish([]int64{11, 12, 13, 14, 15, 3, 23}, 0)
					})
				}
			}
			// every width
			for w := int64(1); w <= 8; w++ {
				for _, cached := range []bool{false, true} {
					cf := cfg{1, 1, w, cached, 0}
					for b := 0; b < int(8*w); b++ {
						b := b
						c.Case("value-bits", func() string { return fmt.Sprintf("%v: bit %d", cf, b) }, func(t *vk.T) {
							s := newSut(t, cf)
							for _, v := range []int64{1 << uint(b), 0, 1<<uint(b) - 1} {
								s.check(s.m.AppendToArray(4, v), "append")
								s.model[4] = append(s.model[4], v)
								s.append(5)
							}
							t.Step(3)
							t.State("bit", cf, b)
							s.finish([]int64{3, 4, 5}, 0)
						})
					}
				}
			}
			// key sweeps: ascending, descending, strided, interleaved with an old key
			for _, cf := range cfgs {
				for _, order := range []string{"ascending", "descending", "stride7", "back-and-forth", "inward"} {
					for _, reads := range []int64{0, 1, 13} {
						cf, order, reads := cf, order, reads
						c.Case("key-sweeps", func() string {
							return fmt.Sprintf("%v: keys 0..1200 %s, read every %d", cf, order, reads)
						}, func(t *vk.T) {
							s := newSut(t, cf)
							n := int64(1201)
							var probe []int64
							for i := int64(0); i < n; i++ {
								k := i
								switch order {
								case "descending":
									k = n - 1 - i
								case "stride7":
									k = i * 7 % n
								case "inward":
									if i%2 == 1 {
										k = n - i/2
									} else {
										k = i / 2
									}
								}
								s.append(k)
								if order == "back-and-forth" {
									s.append(k / 2)
									s.append(k)
								}
								if reads > 0 && i%(97*reads) == 0 {
									s.get(s.m, k, "read")
									s.get(s.m, k/3, "read")
								}
								t.Step(1)
							}
							t.State("sweep", cf, order, reads)
							for k := int64(0); k < n+20; k += 3 {
								probe = append(probe, k)
							}
							probe = append(probe, 5000, 99999)
							s.finish(probe, 1)
						})
					}
				}
			}
			// the in-memory array-of-lists and its file form
			for w := int64(1); w <= 8; w++ {
				for _, count := range []int64{1, 2, 10, 100} {
					w, count := w, count
					c.Case("file-form", func() string { return fmt.Sprintf("%d lists of %d-byte values saved and loaded", count, w) }, func(t *vk.T) {
						path := filepath.Join(t.Dir(), "x.iaa")
						a := intarrayarray.NewIntArrayArray(count, w)
						s := &sut{t: t, c: cfg{width: w}}
						model := map[int64][]int64{}
						cmp := func(x *intarrayarray.IntArrayArray, what string) {
							for k := int64(0); k < count; k++ {
								if fmt.Sprint(x.GetArray(k)) != fmt.Sprint(append([]int64{}, model[k]...)) {
									t.Fail("%s: list %d is %v, want %v", what, k, x.GetArray(k), model[k])
								}
							}
						}
						for round := 0; round < 4; round++ {
							for k := int64(round); k < count; k += 3 {
								for j := int64(0); j <= k%5; j++ {
									v := s.value()
									a.AppendToArray(k, v)
									model[k] = append(model[k], v)
								}
							}
							cmp(&a, "in memory")
							if err := a.SaveFile(path); err != nil {
								t.Fail("save: %v", err)
							}
							b := intarrayarray.NewIntArrayArray(count, w)
							b.AppendToArray(0, 1) // loading replaces whatever was there
							if err := b.LoadFile(path); err != nil {
								t.Fail("load: %v", err)
							}
							cmp(&b, "loaded")
							a = b
							t.Step(1)
							t.State("form", w, count, round)
						}
					})
				}
			}
			c.Case("length-encoding", func() string { return "VarInt round trip" }, func(t *vk.T) {
				try := func(v int64) {
					var a, b intarrayarray.VarInt
					a.FromInt64(v)
					enc := append([]byte{}, a.ToBytes()...)
					n := b.FromBytes(append(append([]byte{}, enc...), 0xAA, 0xBB, 0xCC, 0xDD, 0xEE, 0xFF, 1, 2, 3))
					if n != len(enc) || b.ToInt64() != v {
						t.Fail("%d encodes to %x, which decodes to %d using %d bytes", v, enc, b.ToInt64(), n)
					}
					t.Step(1)
				}
				for v := int64(0); v < 300000; v++ {
					try(v)
				}
				for b := uint(0); b < 63; b++ {
					for e := int64(-3); e <= 3; e++ {
						if v := int64(1)<<b + e; v >= 0 {
							try(v)
						}
					}
				}
				try(1<<63 - 1)
			})
			for i, cf := range cfgs {
				keys := []int64{0, 13, 105, 1234, 12}
				if i%2 == 1 {
					keys = []int64{1234, 0, 23, 100, 29}
				}
				if i < 2 || c.Thorough() {
					histories(c, "histories-depth4", cf, keys, 4, 2)
				}
			}
			histories(c, "small-cache-depth4", cfg{1, 1, 5, true, 2}, []int64{0, 13, 105, 1234}, 4, 1)
			if c.Thorough() {
				histories(c, "histories-depth5", cfgs[0], []int64{0, 13, 105, 1234}, 5, 2)
				histories(c, "histories-depth5", cfgs[1], []int64{0, 13, 105, 1234}, 5, 2)
				histories(c, "small-cache-depth5", cfg{1, 1, 5, true, 3}, []int64{0, 13, 105, 1234}, 5, 2)
			}
		},
	})
}
