// C02: append-optimised byte files behave as plain files; hash files on any backing behave as arrays of hashes.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"syscall"

	"github.com/KitchenMishap/pudding-shed/memfile"
	"github.com/KitchenMishap/pudding-shed/wordfile"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

type sizer interface{ Size() int64 }
type readAller interface{ ReadAll() ([]byte, error) }

type sut struct {
	t     *vk.T
	kind  string
	path  string
	f     memfile.LookupFile
	model []byte
	n     byte
}

func (s *sut) open(flags int) {
	f, err := os.OpenFile(s.path, flags, 0644)
	vk.Must(err)
	switch s.kind {
	case "append":
		a, err := memfile.NewAppendOptimizedFile(f)
		if err != nil {
			s.t.Fail("open: %v", err)
		}
		s.f = a
	case "sized":
		s.f = memfile.NewFileWithSize(f)
	case "fixed":
		vk.Must(f.Close())
		m, err := memfile.NewFixedSizeMemFile(s.path, 0644)
		if err != nil {
			s.t.Fail("open: %v", err)
		}
		s.f = m
	}
}

func (s *sut) write(off, n int) {
	p := make([]byte, n)
	for i := range p {
		s.n++
		if s.n == 0 {
			s.n = 1
		}
		p[i] = s.n
	}
	keep := append([]byte(nil), p...)
	k, err := s.f.WriteAt(p, int64(off))
	if err != nil || k != n {
		s.t.Fail("write of %d bytes at %d of %d: %d, %v", n, off, len(s.model), k, err)
	}
	if !bytes.Equal(p, keep) {
		s.t.Fail("write changed the caller's bytes")
	}
	for i := range p { // the caller may reuse its slice
		p[i] = 0xEE
	}
	for len(s.model) < off+n {
		s.model = append(s.model, 0)
	}
	copy(s.model[off:], keep)
}

func (s *sut) read(f memfile.LookupFile, off, n int, what string) {
	p := make([]byte, n)
	k, err := f.ReadAt(p, int64(off))
	want := 0
	if off < len(s.model) {
		want = len(s.model) - off
		if want > n {
			want = n
		}
	}
	if k != want {
		s.t.Fail("%s: read of %d bytes at %d of %d returned %d bytes (%v), want %d", what, n, off, len(s.model), k, err, want)
	}
	if (err == nil) != (want == n) {
		s.t.Fail("%s: read of %d bytes at %d of %d: error %v", what, n, off, len(s.model), err)
	}
	if want > 0 && !bytes.Equal(p[:k], s.model[off:off+k]) {
		s.t.Fail("%s: read of %d bytes at %d: wrong contents", what, n, off)
	}
}

func (s *sut) readAll(f any, what string) {
	ra, ok := f.(readAller)
	if !ok {
		return
	}
	b, err := ra.ReadAll()
	if err != nil || !bytes.Equal(b, s.model) {
		s.t.Fail("%s: whole-file read gave %d bytes, %v, want %d (or contents differ)", what, len(b), err, len(s.model))
	}
	if what != "mapped" {
		for i := range b {
			b[i] ^= 0xff
		}
	}
}

func (s *sut) size(f any, what string) {
	if z, ok := f.(sizer); ok && z.Size() != int64(len(s.model)) {
		s.t.Fail("%s: size %d, want %d", what, z.Size(), len(s.model))
	}
}

func (s *sut) disk(what string) {
	b, err := os.ReadFile(s.path)
	vk.Must(err)
	if !bytes.Equal(b, s.model) {
		s.t.Fail("%s: file holds %d bytes, want %d (or contents differ)", what, len(b), len(s.model))
	}
}

var ops = []string{"append1", "append3", "append5000", "over0", "overmid", "overspan", "overlast", "gap", "read0", "readend", "readpast", "all", "sync", "reopen"}
var fixedOps = []string{"over0", "overmid", "overlast", "overall", "read0", "readlast", "sync", "reopen"}

func (s *sut) step(op string) {
	n := len(s.model)
	switch op {
	case "append1":
		s.write(n, 1)
	case "append3":
		s.write(n, 3)
	case "append5000":
		s.write(n, 5000)
	case "over0":
		s.write(0, 2)
	case "overmid":
		s.write(n/2, 1)
	case "overspan": // across the end
		if n > 0 {
			s.write(n-1, 3)
		} else {
			s.write(0, 4)
		}
	case "overlast":
		if n > 0 {
			s.write(n-1, 1)
		}
	case "overall":
		s.write(0, n)
	case "gap":
		s.write(n+2, 2)
	case "read0":
		s.read(s.f, 0, 2, "read")
	case "readlast":
		s.read(s.f, n-1, 1, "read")
	case "readend":
		s.read(s.f, n, 1, "read at end")
	case "readpast":
		if n > 1 {
			s.read(s.f, n-2, 4, "read across end")
		}
		s.read(s.f, n+5, 1, "read past end")
	case "all":
		s.readAll(s.f, "whole-file read")
	case "sync":
		if err := s.f.Sync(); err != nil {
			s.t.Fail("sync: %v", err)
		}
		if s.kind != "fixed" {
			s.disk("after sync")
		}
	case "reopen":
		if err := s.f.Close(); err != nil {
			s.t.Fail("close: %v", err)
		}
		s.disk("after close")
		s.open(os.O_RDWR)
	}
	s.size(s.f, op)
	s.t.Step(1)
	s.t.State(s.kind, s.model)
}

func (s *sut) finish(order int) {
	if order == 0 {
		s.read(s.f, 0, len(s.model), "final")
		s.readAll(s.f, "final whole-file read")
	} else if order == 1 {
		s.readAll(s.f, "final whole-file read")
		s.read(s.f, 0, len(s.model), "final")
	}
	s.size(s.f, "final")
	if err := s.f.Close(); err != nil {
		s.t.Fail("close: %v", err)
	}
	s.f = nil
	s.disk("after close")
	if len(s.model) > 0 {
		f, err := os.Open(s.path)
		vk.Must(err)
		m, err := memfile.NewMmapReadOnly(f)
		if err != nil {
			s.t.Fail("map: %v", err)
		}
		n := len(s.model)
		s.size(m, "mapped")
		for _, r := range [][2]int{{0, n}, {0, 1}, {n - 1, 1}, {n - 1, 2}, {n, 1}, {n + 1, 1}, {n / 2, n}} {
			s.read(m, r[0], r[1], "mapped")
		}
		s.readAll(m, "mapped")
		if _, err := m.WriteAt([]byte{1}, 0); err == nil {
			s.t.Fail("mapped: write accepted")
		}
		if err := m.Close(); err != nil {
			s.t.Fail("unmap: %v", err)
		}
	}
}

func byteHistories(c *vk.Ctx, group, kind string, initial int, alphabet []string, depth, finals int) {
	vk.Seqs(len(alphabet), depth, func(seq []int) {
		for fin := 0; fin < finals; fin++ {
			fin := fin
			c.Case(group, func() string {
				return fmt.Sprintf("%s file of %d bytes; %s; final check %d", kind, initial, vk.Names(alphabet, seq), fin)
			}, func(t *vk.T) {
				s := &sut{t: t, kind: kind, path: filepath.Join(t.Dir(), "f")}
				for i := 0; i < initial; i++ {
					s.model = append(s.model, byte(200+i))
				}
				vk.Must(os.WriteFile(s.path, s.model, 0644))
				s.open(os.O_RDWR)
				t.Defer(func() {
					if s.f != nil {
						s.f.Close()
					}
				})
				for _, i := range seq {
					t.Tracef("%s (size %d)", alphabet[i], len(s.model))
					s.step(alphabet[i])
				}
				s.finish(fin)
				t.Outcome(fmt.Sprintf("bytes=%d", len(s.model)))
			})
		}
	})
}

// ---- hash files ----

type hsut struct {
	t     *vk.T
	kind  string
	path  string
	h     *wordfile.HashFile
	model [][32]byte
	n     int
}

func (s *hsut) open() {
	f, err := os.OpenFile(s.path, os.O_RDWR, 0644)
	vk.Must(err)
	st, err := f.Stat()
	vk.Must(err)
	if st.Size() != int64(32*len(s.model)) {
		s.t.Fail("file has %d bytes, want %d hashes", st.Size(), len(s.model))
	}
	var b memfile.AppendableLookupFile
	switch s.kind {
	case "append":
		b, err = memfile.NewAppendOptimizedFile(f)
	case "os":
		b = f
	case "sized":
		b = memfile.NewFileWithSize(f)
	case "fixed":
		vk.Must(f.Close())
		b, err = memfile.NewFixedSizeMemFile(s.path, 0644)
	}
	if err != nil {
		s.t.Fail("open: %v", err)
	}
	s.h = wordfile.NewHashFile(b, st.Size()/32)
}

func (s *hsut) hash() (h [32]byte) {
	s.n++
	for i := range h {
		h[i] = byte(s.n*37 + i*11 + 1)
	}
	if s.n%5 == 0 {
		h = [32]byte{}
	}
	return
}

func (s *hsut) write(i int) {
	h := s.hash()
	if err := s.h.WriteHashAt(h, int64(i)); err != nil {
		s.t.Fail("write hash %d of %d: %v", i, len(s.model), err)
	}
	for len(s.model) <= i {
		s.model = append(s.model, [32]byte{})
	}
	s.model[i] = h
}

func (s *hsut) read(i int) {
	if i >= len(s.model) && s.kind == "fixed" {
		return
	}
	h, err := s.h.ReadHashAt(int64(i))
	if i < 0 || i >= len(s.model) {
		if err == nil {
			s.t.Fail("reading hash %d of %d gave a value", i, len(s.model))
		}
		return
	}
	if err != nil || h != s.model[i] {
		s.t.Fail("hash %d of %d is %x, %v; want %x", i, len(s.model), h, err, s.model[i])
	}
}

func (s *hsut) all() {
	for i := 0; i <= len(s.model); i++ {
		s.read(i)
	}
}

var hops = []string{"append", "over0", "overlast", "overmid", "gap", "read0", "readlast", "readend", "all", "sync", "reopen", "page"}
var hfixed = []string{"over0", "overlast", "overmid", "read0", "readlast", "all", "sync", "reopen"}

func (s *hsut) app() {
	h := s.hash()
	i, err := s.h.AppendHash(h)
	if err != nil || i != int64(len(s.model)) {
		s.t.Fail("append returned %d, %v; want %d", i, err, len(s.model))
	}
	s.model = append(s.model, h)
}

func (s *hsut) step(op string) {
	n := len(s.model)
	switch op {
	case "append":
		s.app()
	case "page":
		for i := 0; i < 130; i++ {
			s.app()
		}
	case "over0":
		s.write(0)
	case "overlast":
		if n > 0 {
			s.write(n - 1)
		}
	case "overmid":
		s.write(n / 2)
	case "gap":
		s.write(n + 1)
	case "read0":
		s.read(0)
	case "readlast":
		s.read(n - 1)
	case "readend":
		s.read(n)
	case "all":
		s.all()
	case "sync":
		if err := s.h.Sync(); err != nil {
			s.t.Fail("sync: %v", err)
		}
		if s.kind != "fixed" {
			s.disk("after sync")
		}
	case "reopen":
		if err := s.h.Close(); err != nil {
			s.t.Fail("close: %v", err)
		}
		s.disk("after close")
		s.open()
	}
	if s.h.CountHashes() != int64(len(s.model)) {
		s.t.Fail("count %d, want %d", s.h.CountHashes(), len(s.model))
	}
	s.t.Step(1)
	s.t.State("hash", s.kind, s.model)
}

func (s *hsut) disk(what string) {
	b, err := os.ReadFile(s.path)
	vk.Must(err)
	var want []byte
	for _, h := range s.model {
		want = append(want, h[:]...)
	}
	if !bytes.Equal(b, want) {
		s.t.Fail("%s: file holds %d bytes, want %d (or contents differ)", what, len(b), len(want))
	}
}

func hashHistories(c *vk.Ctx, kind string, initial int, alphabet []string, depth int) {
	vk.Seqs(len(alphabet), depth, func(seq []int) {
		c.Case(fmt.Sprintf("hash-file-depth%d", depth), func() string {
			return fmt.Sprintf("hash file of %d on %s; %s", initial, kind, vk.Names(alphabet, seq))
		}, func(t *vk.T) {
			s := &hsut{t: t, kind: kind, path: filepath.Join(t.Dir(), "h")}
			var b []byte
			for i := 0; i < initial; i++ {
				h := s.hash()
				s.model = append(s.model, h)
				b = append(b, h[:]...)
			}
			vk.Must(os.WriteFile(s.path, b, 0644))
			s.open()
			open := true
			t.Defer(func() {
				if open {
					s.h.Close()
				}
			})
			for _, i := range seq {
				t.Tracef("%s (count %d)", alphabet[i], len(s.model))
				s.step(alphabet[i])
			}
			s.all()
			if err := s.h.Close(); err != nil {
				t.Fail("close: %v", err)
			}
			open = false
			s.disk("after close")
			s.open()
			open = true
			s.all()
			t.Outcome(fmt.Sprintf("hashes=%d", len(s.model)))
		})
	})
}

// far applies a history to a file that is already long (and nearly all holes), so that positions do not fit 32 bits.
func far(c *vk.Ctx, kind string, size int64, depth int) {
	names := []string{"append3", "over-2", "over0", "gap", "read", "sync", "reopen"}
	vk.Seqs(len(names), depth, func(seq []int) {
		seq = append([]int{}, seq...)
		c.Case("far-bytes", func() string { return fmt.Sprintf("%s file of %d bytes; %s", kind, size, vk.Names(names, seq)) }, func(t *vk.T) {
			s := &sut{t: t, kind: kind, path: filepath.Join(t.Dir(), "f")}
			vk.Must(os.WriteFile(s.path, nil, 0644))
			vk.Must(os.Truncate(s.path, size))
			s.open(os.O_RDWR)
			t.Defer(func() {
				if s.f != nil {
					s.f.Close()
				}
			})
			ref, end := map[int64]byte{}, size
			write := func(off int64, n int) {
				p := make([]byte, n)
				for i := range p {
					s.n++
					p[i] = s.n
					ref[off+int64(i)] = s.n
				}
				k, err := s.f.WriteAt(p, off)
				if err != nil || k != n {
					t.Fail("write of %d at %d: %d, %v", n, off, k, err)
				}
				if off+int64(n) > end {
					end = off + int64(n)
				}
			}
			verify := func(f memfile.LookupFile, what string) {
				for _, at := range []int64{0, 1<<31 - 4, 1<<32 - 4, size - 8, size - 2, size, end - 6, end - 1} {
					if at < 0 || at >= end {
						continue
					}
					n := int64(6)
					if at+n > end {
						n = end - at
					}
					p := make([]byte, n)
					k, err := f.ReadAt(p, at)
					if int64(k) != n || err != nil {
						t.Fail("%s: read of %d at %d of %d gave %d, %v", what, n, at, end, k, err)
					}
					for i, b := range p {
						if b != ref[at+int64(i)] {
							t.Fail("%s: byte %d is %#x, want %#x", what, at+int64(i), b, ref[at+int64(i)])
						}
					}
				}
				if k, err := f.ReadAt(make([]byte, 1), end); k != 0 || err == nil {
					t.Fail("%s: read past the end at %d gave %d bytes", what, end, k)
				}
				if z, ok := f.(sizer); ok && z.Size() != end {
					t.Fail("%s: size %d, want %d", what, z.Size(), end)
				}
				t.Step(1)
			}
			for _, o := range seq {
				switch names[o] {
				case "append3":
					write(end, 3)
				case "over-2":
					write(end-2, 5)
				case "over0":
					write(0, 2)
				case "gap":
					write(end+7, 2)
				case "read":
					verify(s.f, "read")
				case "sync":
					if err := s.f.Sync(); err != nil {
						t.Fail("sync: %v", err)
					}
				case "reopen":
					if err := s.f.Close(); err != nil {
						t.Fail("close: %v", err)
					}
					s.open(os.O_RDWR)
				}
			}
			verify(s.f, "final")
			if err := s.f.Close(); err != nil {
				t.Fail("close: %v", err)
			}
			s.f = nil
			t.State("far", kind, size, seq)
			f, err := os.Open(s.path)
			vk.Must(err)
			m, err := memfile.NewMmapReadOnly(f)
			if errors.Is(err, syscall.ENOMEM) { // no address space for it here
				vk.Must(f.Close())
				return
			}
			if err != nil {
				t.Fail("map: %v", err)
			}
			verify(m, "mapped")
			if err := m.Close(); err != nil {
				t.Fail("unmap: %v", err)
			}
		})
	})
}

// farHashes does the same to hash files.
func farHashes(c *vk.Ctx, kind string, count int64, depth int) {
	names := []string{"append", "overlast", "gap", "over0", "read", "sync", "reopen"}
	vk.Seqs(len(names), depth, func(seq []int) {
		seq = append([]int{}, seq...)
		c.Case("far-hashes", func() string { return fmt.Sprintf("hash file of %d on %s; %s", count, kind, vk.Names(names, seq)) }, func(t *vk.T) {
			s := &hsut{t: t, kind: kind, path: filepath.Join(t.Dir(), "h")}
			vk.Must(os.WriteFile(s.path, nil, 0644))
			vk.Must(os.Truncate(s.path, count*32))
			ref, end := map[int64][32]byte{}, count
			open := func() {
				f, err := os.OpenFile(s.path, os.O_RDWR, 0644)
				vk.Must(err)
				var b memfile.AppendableLookupFile = f
				if kind == "append" {
					if b, err = memfile.NewAppendOptimizedFile(f); err != nil {
						t.Fail("open: %v", err)
					}
				}
				s.h = wordfile.NewHashFile(b, end)
			}
			open()
			t.Defer(func() { s.h.Close() })
			verify := func() {
				for _, i := range []int64{0, 1, 1<<26 - 1, 1 << 26, 1 << 27, count - 1, count, end - 2, end - 1} {
					if i >= end {
						continue
					}
					if h, err := s.h.ReadHashAt(i); err != nil || h != ref[i] {
						t.Fail("hash %d of %d is %x, %v; want %x", i, end, h, err, ref[i])
					}
				}
				if _, err := s.h.ReadHashAt(end); err == nil {
					t.Fail("reading hash %d of %d gave a value", end, end)
				}
				if n := s.h.CountHashes(); n != end {
					t.Fail("count %d, want %d", n, end)
				}
				t.Step(1)
			}
			put := func(i int64) {
				h := s.hash()
				if err := s.h.WriteHashAt(h, i); err != nil {
					t.Fail("write hash %d: %v", i, err)
				}
				ref[i] = h
				if i >= end {
					end = i + 1
				}
			}
			for _, o := range seq {
				switch names[o] {
				case "append":
					h := s.hash()
					if i, err := s.h.AppendHash(h); err != nil || i != end {
						t.Fail("append returned %d, %v; want %d", i, err, end)
					}
					ref[end] = h
					end++
				case "overlast":
					put(end - 1)
				case "gap":
					put(end + 2)
				case "over0":
					put(0)
				case "read":
					verify()
				case "sync":
					if err := s.h.Sync(); err != nil {
						t.Fail("sync: %v", err)
					}
				case "reopen":
					if err := s.h.Close(); err != nil {
						t.Fail("close: %v", err)
					}
					if st, err := os.Stat(s.path); err != nil || st.Size() != end*32 {
						t.Fail("the file holds %d bytes, want %d hashes", st.Size(), end)
					}
					open()
				}
			}
			verify()
			t.State("far hashes", kind, count, seq)
		})
	})
}

func main() {
	vk.Main(vk.Spec{
		Property: "C02",
		Rule:     "every history of the stated alphabet and depth on each backing; every read, size and the final file compared with a byte array (hash array)",
		Bounds: func(tier string) map[string]any {
			return map[string]any{"byte alphabet": ops, "hash alphabet": hops, "backings": "append-optimised, file-with-size, in-memory fixed size, plain file, memory-mapped", "initial": "empty, 7 bytes, around 4096", "far": "files of 2^31-2 to 2^36+1 bytes and of 2^26-1 to 2^32-1 hashes (nearly all holes), histories of 2 (thorough: 4 and 3)"}
		},
		Run: func(c *vk.Ctx) {
			for d := 1; d <= 3; d++ {
				for _, kind := range []string{"append", "sized"} {
					for _, in := range []int{0, 7} {
						byteHistories(c, fmt.Sprintf("bytes-depth%d", d), kind, in, ops, d, 3)
					}
				}
				byteHistories(c, "bytes-fixed", "fixed", 7, fixedOps, d, 2)
			}
			for _, in := range []int{4093, 4095, 4096, 4097} {
				byteHistories(c, "bytes-near-buffer-size", "append", in, ops, 2, 2)
			}
			for d := 1; d <= 3; d++ {
				for _, k := range []string{"append", "os", "sized"} {
					for _, in := range []int{0, 3} {
						hashHistories(c, k, in, hops, d)
					}
				}
				hashHistories(c, "fixed", 4, hfixed, d)
			}
			byteHistories(c, "bytes-depth4", "append", 0, ops, 4, 3)
			hashHistories(c, "append", 0, hops, 4)
			for _, size := range []int64{1<<31 - 2, 1 << 31, 1<<32 - 2, 1 << 32, 1<<36 + 1} {
				far(c, "append", size, vk.Pick(c, 2, 4))
				far(c, "sized", size, vk.Pick(c, 1, 3))
			}
			for _, count := range []int64{1<<26 - 1, 1<<27 - 1, 1<<31 - 1, 1<<32 - 1} {
				farHashes(c, "append", count, vk.Pick(c, 2, 3))
				farHashes(c, "os", count, vk.Pick(c, 1, 3))
			}
			if c.Thorough() {
				byteHistories(c, "bytes-depth5", "append", 0, ops, 5, 2)
				byteHistories(c, "bytes-depth4", "append", 4095, ops, 4, 3)
				hashHistories(c, "append", 126, hops, 4)
				hashHistories(c, "append", 0, hops, 5)
			}
		},
	})
}
