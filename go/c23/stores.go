package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unsafe"

	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/intarrayarray"
	"github.com/KitchenMishap/pudding-shed/memfile"
	"github.com/KitchenMishap/pudding-shed/weddingcake"
	"github.com/KitchenMishap/pudding-shed/weddingcakefront"
	"github.com/KitchenMishap/pudding-shed/wordfile"
)

func num(v record) int64 { n, _ := strconv.ParseInt(v, 10, 64); return n }
func lab(n int64) record { return strconv.FormatInt(n, 10) }

// next makes a new value that fits the width in bytes and has no zero byte.
func (m *model) next(width int) record {
	m.grow++
	v := int64(0)
	for b := 0; b < width; b++ {
		v |= int64(1+(m.grow*37+b*11)%127) << (8 * b)
	}
	return lab(v)
}

// ---- integer files

type words struct {
	f wordfile.ReadWriteAtWordCounter
}

func (s words) do(op string, w []write) error {
	switch {
	case w != nil:
		return s.f.WriteWordAt(num(w[0].val), int64(w[0].index))
	case op == "read the first":
		if n, err := s.f.CountWords(); err != nil || n == 0 {
			return err
		}
		_, err := s.f.ReadWordAt(0)
		return err
	}
	panic(op)
}
func (s words) sync() error  { return s.f.Sync() }
func (s words) close() error { return s.f.Close() }

func wordKind(width int, shadowed bool) *kind {
	cr := func(dir string) wordfile.WordFileCreator {
		return wordfile.NewConcreteWordFileCreator("w", dir, int64(width), shadowed, false)
	}
	name := fmt.Sprintf("%d-byte integer file", width)
	if shadowed {
		name += " shadowed in memory"
	}
	k := &kind{name: name, lists: 1, depthQ: 4, depthT: 6, tear: bytewise,
		ops:    []string{"append", "sync", "write beyond the end", "overwrite the first", "read the first", "close and reopen"},
		resume: "append",
		create: func(dir string) error { return cr(dir).CreateWordFile() },
		open: func(dir string) (store, error) {
			f, err := cr(dir).OpenWordFile()
			return words{f}, err
		},
		plan: func(m *model, op string) []write {
			n := len(m.lists[0])
			switch op {
			case "append":
				return []write{{0, n, m.next(width)}}
			case "write beyond the end":
				m.set(0, n, "0")
				m.lists[0][n] = "0" // a place passed over reads as zero
				return []write{{0, n + 1, m.next(width)}}
			case "overwrite the first":
				return []write{{0, 0, m.next(width)}}
			}
			return nil
		},
		read: func(dir string, m *model) ([][]record, error) {
			f, err := cr(dir).OpenWordFileReadOnly()
			if err != nil {
				return nil, err
			}
			defer f.Close()
			n, err := f.CountWords()
			if err != nil {
				return nil, err
			}
			var l []record
			for i := int64(0); i < n; i++ {
				v, err := f.ReadWordAt(i)
				if err != nil {
					return nil, err
				}
				l = append(l, lab(v))
			}
			return [][]record{l}, nil
		},
	}
	// enough to fill the append buffer more than once
	long := make([]int, 0, 2000)
	for i := 0; i < 4096*2/width+3; i++ {
		long = append(long, 0)
		if i == 5 {
			long = append(long, 1)
		}
		if i > 4096/width-2 && i < 4096/width+2 || i > 2*4096/width-2 {
			k.long = append(k.long, append([]int{}, long...))
		}
	}
	return k
}

// ---- hash files and hash stores

func hashOf(v record) (h [32]byte) {
	n := num(v)
	for i := range h {
		h[i] = byte(1 + (n*int64(i*i+3)+int64(i))%250)
	}
	copy(h[8:], v)
	h[0] = byte(n % 4) // few different starts, so that they collide
	for i := 1; i < 8; i++ {
		h[i] = 0
	}
	return
}

// labels of all hashes that may be there
func labels(m *model) map[[32]byte]record {
	all := map[[32]byte]record{}
	if m.lost != nil {
		all = labels(m.lost)
	}
	for l := range m.lists {
		for i := range m.lists[l] {
			all[hashOf(m.lists[l][i])] = m.lists[l][i]
		}
	}
	return all
}

type indexed interface {
	IndexOfHash(h *[32]byte) (int64, error)
	GetHashAtIndex(i int64, h *[32]byte) error
	CountHashes() (int64, error)
	Close() error
}
type indexedRW interface {
	indexed
	AppendHash(h *[32]byte) (int64, error)
	Sync() error
}

// the packages name the same array type differently
type ihR struct{ r ih.HashReader }

func (x ihR) IndexOfHash(h *[32]byte) (int64, error) { return x.r.IndexOfHash((*ih.Sha256)(h)) }
func (x ihR) GetHashAtIndex(i int64, h *[32]byte) error {
	return x.r.GetHashAtIndex(i, (*ih.Sha256)(h))
}
func (x ihR) CountHashes() (int64, error) { return x.r.CountHashes() }
func (x ihR) Close() error                { return x.r.Close() }

type ihW struct {
	ihR
	w ih.HashReadWriter
}

func (x ihW) AppendHash(h *[32]byte) (int64, error) { return x.w.AppendHash((*ih.Sha256)(h)) }
func (x ihW) Sync() error                           { return x.w.Sync() }

type hashes struct{ f indexedRW }

func (s hashes) do(op string, w []write) error {
	if w == nil {
		h := hashOf("777777")
		_, err := s.f.IndexOfHash(&h)
		return err
	}
	h := hashOf(w[0].val)
	i, err := s.f.AppendHash(&h)
	if err == nil && i != int64(w[0].index) {
		err = fmt.Errorf("hash stored at %d, not %d", i, w[0].index)
	}
	return err
}
func (s hashes) sync() error  { return s.f.Sync() }
func (s hashes) close() error { return s.f.Close() }

var lost = "was synced and is not found by its hash"

func hashKind(name string, create func(dir string) error, open func(dir string) (indexedRW, error), openR func(dir string) (indexed, error)) *kind {
	return &kind{name: name, lists: 1, depthQ: 4, depthT: 6,
		ops:    []string{"append", "sync", "look up", "close and reopen"},
		resume: "append", again: true,
		tear: func(rel string, old, n int) (at []int) { // whole hashes divide every buffer and page
			if filepath.Ext(rel) != ".hsh" {
				return bytewise(rel, old, n)
			}
			for k := 32; k < n; k += 32 {
				at = append(at, k)
			}
			return
		},
		create: create,
		open: func(dir string) (store, error) {
			f, err := open(dir)
			return hashes{f}, err
		},
		plan: func(m *model, op string) []write {
			if op != "append" {
				return nil
			}
			m.grow++
			return []write{{0, len(m.lists[0]), lab(int64(m.grow))}}
		},
		read: func(dir string, m *model) ([][]record, error) {
			f, err := openR(dir)
			if err != nil {
				return nil, err
			}
			defer f.Close()
			n, err := f.CountHashes()
			if err != nil {
				return nil, err
			}
			all := labels(m)
			var l []record
			for i := int64(0); i < n; i++ {
				var h [32]byte
				if err := f.GetHashAtIndex(i, &h); err != nil {
					return nil, fmt.Errorf("hash %d: %v", i, err)
				}
				if v, ok := all[h]; ok {
					l = append(l, v)
				} else if h == [32]byte{} {
					l = append(l, "")
				} else {
					l = append(l, fmt.Sprintf("%x", h))
				}
			}
			for i, v := range m.lists[0] {
				h := hashOf(v)
				at, err := f.IndexOfHash(&h)
				switch {
				case m.loose[[2]int{0, i}]:
				case i < len(m.synced[0]) && err != nil:
					return nil, fmt.Errorf("looking up hash %d: %v", i, err)
				case i < len(m.synced[0]) && at == -1:
					return nil, wrong(fmt.Sprintf("hash %d %s", i, lost))
				case err == nil && at != -1 && at != int64(i):
					return nil, wrong(fmt.Sprintf("hash %d is said to be at %d", i, at))
				}
			}
			return [][]record{l}, nil
		},
	}
}

func ihKind(name string, cr func(dir string) ih.HashStoreCreator) *kind {
	return hashKind(name, func(dir string) error { return cr(dir).CreateHashStore() },
		func(dir string) (indexedRW, error) {
			s, err := cr(dir).OpenHashStore()
			return ihW{ihR{s}, s}, err
		},
		func(dir string) (indexed, error) {
			s, err := cr(dir).OpenHashStoreReadOnly()
			return ihR{s}, err
		})
}

// a bare hash file, buffered
type hashFile struct{ f *wordfile.HashFile }

func openHashFile(dir string) (*hashFile, error) {
	f, err := os.OpenFile(filepath.Join(dir, "f.hsh"), os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		return nil, err
	}
	a, err := memfile.NewAppendOptimizedFile(f)
	if err != nil {
		return nil, err
	}
	st, _ := f.Stat()
	return &hashFile{wordfile.NewHashFile(a, st.Size()/32)}, nil
}
func (x *hashFile) IndexOfHash(h *[32]byte) (int64, error) {
	for i := int64(0); i < x.f.CountHashes(); i++ {
		if g, err := x.f.ReadHashAt(i); err != nil || g == *h {
			return i, err
		}
	}
	return -1, nil
}
func (x *hashFile) GetHashAtIndex(i int64, h *[32]byte) (err error) {
	*h, err = x.f.ReadHashAt(i)
	return
}
func (x *hashFile) CountHashes() (int64, error)           { return x.f.CountHashes(), nil }
func (x *hashFile) Close() error                          { return x.f.Close() }
func (x *hashFile) Sync() error                           { return x.f.Sync() }
func (x *hashFile) AppendHash(h *[32]byte) (int64, error) { return x.f.AppendHash(*h) }

// ---- integer lists

type ints struct {
	m intarrayarray.IntArrayMapStoreReadWrite
}

var intKeys = []int64{0, 1, 12, 25} // three files

func (s ints) do(op string, w []write) error {
	if w == nil {
		_, err := s.m.GetArray(0)
		return err
	}
	return s.m.AppendToArray(intKeys[w[0].list], num(w[0].val))
}
func (s ints) sync() error  { return s.m.Sync() }
func (s ints) close() error { return s.m.FlushFile() }

func setLimit(m any, v int64) {
	p := reflect.ValueOf(m)
	if p.Kind() != reflect.Ptr {
		return
	}
	f := p.Elem().FieldByName("cacheElementCountLimit")
	if f.IsValid() && f.Kind() == reflect.Int64 {
		*(*int64)(unsafe.Pointer(f.UnsafeAddr())) = v
	}
}

// intDigits are the digits to a file and to a folder.
var intDigits = [2]int64{1, 1}

func intsKind(cached bool, limit int64) *kind {
	digits := intDigits
	cr := func(dir string) *intarrayarray.ConcreteMapStoreCreator {
		return intarrayarray.NewConcreteMapStoreCreator("m", dir, digits[0], digits[1], 3, cached)
	}
	name := "integer-list map"
	if cached {
		name = fmt.Sprintf("cached integer-list map (limit %d)", limit)
	}
	return &kind{name: name, lists: len(intKeys), depthQ: 4, depthT: 5, tear: nil,
		ops:    []string{"append to list 0", "append to list 1", "append to list 2", "append to list 3", "sync", "read", "close and reopen"},
		resume: "append to list 2",
		create: func(dir string) error { return cr(dir).CreateMap() },
		open: func(dir string) (store, error) {
			m, err := cr(dir).OpenMap()
			if cached && err == nil {
				setLimit(m, limit)
			}
			return ints{m}, err
		},
		plan: func(m *model, op string) []write {
			if op == "read" {
				return nil
			}
			l := int(op[len(op)-1] - '0')
			return []write{{l, len(m.lists[l]), m.next(3)}}
		},
		read: func(dir string, m *model) ([][]record, error) {
			f, err := cr(dir).OpenMapReadOnly()
			if err != nil {
				return nil, err
			}
			got := make([][]record, len(intKeys))
			for l, key := range intKeys {
				a, err := f.GetArray(key)
				if err != nil {
					return nil, err
				}
				for _, v := range a {
					got[l] = append(got[l], lab(v))
				}
			}
			return got, nil
		},
	}
}

// ---- the fixed-size file held in memory

type fixed struct{ f memfile.SparseLookupFile }

func (s fixed) do(op string, w []write) error {
	_, err := s.f.WriteAt([]byte{byte(num(w[0].val))}, int64(w[0].index))
	return err
}
func (s fixed) sync() error  { return s.f.Sync() }
func (s fixed) close() error { return s.f.Close() }

const noSync = "fixed-size memory file: sync writes nothing"

func fixedKind() *kind {
	name := func(dir string) string { return filepath.Join(dir, "fixed") }
	return &kind{name: "fixed-size file held in memory", lists: 1, depthQ: 4, depthT: 5,
		ops:    []string{"write first", "write last", "sync", "close and reopen"},
		create: func(dir string) error { return os.WriteFile(name(dir), make([]byte, 3), 0644) },
		open: func(dir string) (store, error) {
			f, err := memfile.NewFixedSizeMemFile(name(dir), 0644)
			return fixed{f}, err
		},
		plan: func(m *model, op string) []write {
			for len(m.lists[0]) < 3 {
				m.lists[0] = append(m.lists[0], "0")
				m.synced[0] = append(m.synced[0], "0")
			}
			i := 0
			if op == "write last" {
				i = 2
			}
			return []write{{0, i, m.next(1)}}
		},
		read: func(dir string, m *model) ([][]record, error) {
			b, err := os.ReadFile(name(dir))
			var l []record
			for _, v := range b {
				l = append(l, lab(int64(v)))
			}
			if len(m.lists[0]) == 0 && bytes.Equal(b, make([]byte, 3)) {
				l = nil
			}
			return [][]record{l}, err
		},
	}
}

func kinds() []*kind {
	ks := []*kind{wordKind(1, false), wordKind(5, false), wordKind(3, true), wordKind(8, false)}
	ks = append(ks, hashKind("hash file", func(dir string) error { f, err := openHashFile(dir); f.Close(); return err },
		func(dir string) (indexedRW, error) { return openHashFile(dir) },
		func(dir string) (indexed, error) { return openHashFile(dir) }))
	for _, app := range []bool{false, true} {
		for _, mem := range []bool{false, true} {
			k := ihKind(fmt.Sprintf("hash store (look-up in memory %v, buffered appends %v)", mem, app), func(dir string) ih.HashStoreCreator {
				cr, err := ih.NewConcreteHashStoreCreator("h", dir, 2, 2, 2, mem, app)
				if err != nil {
					panic(err)
				}
				return cr
			})
			if mem {
				k.known = func(err error, before *model) string {
					if strings.Contains(err.Error(), lost) {
						return "look-up file held in memory: a hash is not found after a sync"
					}
					return ""
				}
			}
			ks = append(ks, k)
		}
	}
	ks = append(ks, ihKind("hash store indexed in memory", func(dir string) ih.HashStoreCreator {
		cr, err := ih.NewConcreteHashStoreCreatorMemory("h", dir)
		if err != nil {
			panic(err)
		}
		return cr
	}))
	for _, slots := range []int64{1, 3} {
		k := ihKind(fmt.Sprintf("binned hash store (%d entries to a bin)", slots), func(dir string) ih.HashStoreCreator {
			return indexedhashes3.NewHashStoreCreatorPrivate(indexedhashes3.NewHashStoreParams(20, 2, 2, 2, slots, 1), dir, false)
		})
		k.known = func(err error, before *model) string {
			// another hash read in place of the one stored: one that the abandoned process had begun to store there
			if c, ok := err.(*changed); ok && before != nil && c.index >= len(before.synced[0]) &&
				c.index < len(before.lists[0]) && c.got == before.lists[0][c.index] {
				return "binned hash store: a hash abandoned before a sync is read in place of its successor"
			}
			return ""
		}
		ks = append(ks, k)
	}
	ks = append(ks, hashKind("writable cake tier", func(dir string) error { return weddingcake.NewTierZeroCreator(dir).CreateHashStore() },
		func(dir string) (indexedRW, error) {
			s, err := weddingcake.NewTierZeroCreator(dir).OpenHashStore()
			if err != nil {
				return nil, err
			}
			return tz{s}, nil
		},
		func(dir string) (indexed, error) {
			s, err := weddingcake.NewTierZeroCreator(dir).OpenHashStoreReadOnly()
			if err != nil {
				return nil, err
			}
			return tzR{s}, nil
		}))
	ks = append(ks, hashKind("cake", func(dir string) error { return weddingcakefront.NewCakeCreator(dir, 2).CreateHashStore() },
		func(dir string) (indexedRW, error) {
			s, err := weddingcakefront.NewCakeCreator(dir, 2).OpenHashStore()
			if err != nil {
				return nil, err
			}
			return cake{s}, nil
		},
		func(dir string) (indexed, error) {
			s, err := weddingcakefront.NewCakeCreator(dir, 2).OpenHashStoreReadOnly()
			if err != nil {
				return nil, err
			}
			return cakeR{s}, nil
		}))
	ks = append(ks, intsKind(false, 0), intsKind(true, 2), intsKind(true, 1000), fixedKind(), hashesChainKind(false), hashesChainKind(true))
	return ks
}

type tz struct {
	weddingcake.HashReadWriter[*weddingcake.Sha256]
}
type tzR struct {
	weddingcake.HashReader[*weddingcake.Sha256]
}

func (x tz) IndexOfHash(h *[32]byte) (int64, error) {
	return x.HashReadWriter.IndexOfHash((*weddingcake.Sha256)(h))
}
func (x tz) GetHashAtIndex(i int64, h *[32]byte) error {
	return x.HashReadWriter.GetHashAtIndex(i, (*weddingcake.Sha256)(h))
}
func (x tz) AppendHash(h *[32]byte) (int64, error) {
	return x.HashReadWriter.AppendHash((*weddingcake.Sha256)(h))
}
func (x tzR) IndexOfHash(h *[32]byte) (int64, error) {
	return x.HashReader.IndexOfHash((*weddingcake.Sha256)(h))
}
func (x tzR) GetHashAtIndex(i int64, h *[32]byte) error {
	return x.HashReader.GetHashAtIndex(i, (*weddingcake.Sha256)(h))
}

type cake struct {
	weddingcakefront.HashReadWriter[*weddingcakefront.Sha256]
}

// A wrong answer is an error other than one that was reported.
type wrong string

func (w wrong) Error() string { return string(w) }

// expect is how many hashes a cake is known to hold, if it is.
var expect int64 = -1

// (a cake can't count its hashes)
func countByReading(get func(i int64, h *[32]byte) error) (int64, error) {
	n := int64(0)
	for {
		var h [32]byte
		if err := get(n, &h); err != nil || n > 1000 {
			if n < expect {
				return n, err
			}
			return n, nil
		}
		n++
	}
}
func (x cake) CountHashes() (int64, error)  { return countByReading(x.GetHashAtIndex) }
func (x cakeR) CountHashes() (int64, error) { return countByReading(x.GetHashAtIndex) }

type cakeR struct {
	weddingcakefront.HashReader[*weddingcakefront.Sha256]
}

func (x cake) IndexOfHash(h *[32]byte) (int64, error) {
	return x.HashReadWriter.IndexOfHash((*weddingcakefront.Sha256)(h))
}
func (x cake) GetHashAtIndex(i int64, h *[32]byte) error {
	return x.HashReadWriter.GetHashAtIndex(i, (*weddingcakefront.Sha256)(h))
}
func (x cake) AppendHash(h *[32]byte) (int64, error) {
	return x.HashReadWriter.AppendHash((*weddingcakefront.Sha256)(h))
}
func (x cakeR) IndexOfHash(h *[32]byte) (int64, error) {
	return x.HashReader.IndexOfHash((*weddingcakefront.Sha256)(h))
}
func (x cakeR) GetHashAtIndex(i int64, h *[32]byte) error {
	return x.HashReader.GetHashAtIndex(i, (*weddingcakefront.Sha256)(h))
}
