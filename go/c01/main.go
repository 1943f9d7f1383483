// C01: fixed-width integer files behave as arrays, in every access mode and after every history.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/KitchenMishap/pudding-shed/wordfile"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

func mask(w int) int64 {
	if w == 8 {
		return -1
	}
	return int64(1)<<(8*uint(w)) - 1
}

func cornerValues(w int) []int64 {
	m := mask(w)
	vs := []int64{0x0102030405060708 & m, m, 0, 1, int64(uint64(m)/2 + 1), int64(uint64(m) / 2), 0x7f & m, 0x80 & m, 0xff & m, -0x5a5a5a5a5a5a5a5b & m}
	return vs
}

func allBitValues(w int) []int64 {
	vs := cornerValues(w)
	for b := 0; b < 8*w; b++ {
		vs = append(vs, int64(1)<<uint(b), mask(w)&^(int64(1)<<uint(b)))
	}
	return vs
}

type cfg struct {
	w      int
	shadow bool
	init   string
	fill   int // words appended before the history
}

func (c cfg) String() string {
	m := "plain"
	if c.shadow {
		m = "shadowed"
	}
	return fmt.Sprintf("width=%d %s init=%s prefill=%d", c.w, m, c.init, c.fill)
}

type sut struct {
	t     *vk.T
	c     cfg
	dir   string
	cr    wordfile.WordFileCreator
	f     wordfile.ReadWriteAtWordCounter
	model []int64
	n     int
}

func (s *sut) check(err error, what string) {
	if err != nil {
		s.t.Fail("%s failed: %v", what, err)
	}
}

func (s *sut) open() {
	var err error
	s.f, err = s.cr.OpenWordFile()
	s.check(err, "open for writing")
}

func newSut(t *vk.T, c cfg) *sut {
	s := &sut{t: t, c: c, dir: filepath.Join(t.Dir(), "sub", "folder")}
	s.cr = wordfile.NewConcreteWordFileCreator("words", s.dir, int64(c.w), c.shadow, false)
	if s.cr.WordFileExists() {
		t.Fail("exists before creation")
	}
	switch c.init {
	case "empty":
		s.check(s.cr.CreateWordFile(), "create")
	case "zeros":
		s.check(s.cr.CreateWordFileFilledZeros(3), "create filled with zeros")
		s.model = []int64{0, 0, 0}
	case "recreated":
		s.check(s.cr.CreateWordFile(), "create")
		s.open()
		for i := int64(0); i < 4; i++ {
			s.check(s.f.WriteWordAt(i+1, i), "write")
		}
		s.check(s.f.Close(), "close")
		s.check(s.cr.CreateWordFile(), "create again")
	case "recreatedzeros":
		s.check(s.cr.CreateWordFile(), "create")
		s.open()
		for i := int64(0); i < 5; i++ {
			s.check(s.f.WriteWordAt(i+1, i), "write")
		}
		s.check(s.f.Close(), "close")
		s.check(s.cr.CreateWordFileFilledZeros(2), "create again filled with zeros")
		s.model = []int64{0, 0}
	}
	if !s.cr.WordFileExists() {
		t.Fail("does not exist after creation")
	}
	t.Defer(func() {
		if s.f != nil {
			s.f.Close()
		}
	})
	s.open()
	if s.f.WordSize() != int64(c.w) {
		t.Fail("WordSize %d, want %d", s.f.WordSize(), c.w)
	}
	for i := 0; i < c.fill; i++ {
		s.write(int64(len(s.model)))
	}
	return s
}

func (s *sut) write(pos int64) {
	vs := cornerValues(s.c.w)
	v := vs[s.n%len(vs)]
	if s.n >= len(vs) {
		v = int64(s.n) * 0x1f3b5d7b9 & mask(s.c.w)
	}
	s.n++
	s.writeVal(v, pos)
}

func (s *sut) writeVal(v int64, pos int64) {
	s.check(s.f.WriteWordAt(v, pos), fmt.Sprintf("write word %d", pos))
	for int64(len(s.model)) <= pos {
		s.model = append(s.model, 0)
	}
	s.model[pos] = v
}

func (s *sut) count(f wordfile.WordCounter, what string) {
	n, err := f.CountWords()
	s.check(err, what+" count")
	if n != int64(len(s.model)) {
		s.t.Fail("%s: count %d, want %d", what, n, len(s.model))
	}
}

func (s *sut) read(f wordfile.ReaderAtWord, pos int64, what string) {
	if pos < 0 || pos >= int64(len(s.model)) {
		var err error
		var v int64
		p := vk.Try(func() { v, err = f.ReadWordAt(pos) })
		if p == nil && err == nil {
			s.t.Fail("%s: reading %d of %d words gave value %d", what, pos, len(s.model), v)
		}
		return
	}
	v, err := f.ReadWordAt(pos)
	s.check(err, fmt.Sprintf("%s read word %d", what, pos))
	if v != s.model[pos] {
		s.t.Fail("%s: word %d is %#x, want %#x", what, pos, v, s.model[pos])
	}
}

func (s *sut) readAll(f wordfile.ReaderAtWord, what string) {
	n := int64(len(s.model))
	step := int64(1)
	if n > 300 { // check both ends, buffer boundaries and a stride of the middle
		step = n/97 + 1
	}
	for p := int64(0); p < n; p++ {
		if step > 1 && p > 5 && p < n-5 && p%step != 0 && (p*int64(s.c.w))%4096 >= int64(s.c.w) && ((p+1)*int64(s.c.w))%4096 >= int64(s.c.w) {
			continue
		}
		s.read(f, p, what)
	}
	s.read(f, n, what)
	s.read(f, n+1, what)
}

type wholer interface{ ReadWholeFileAsInt64s() ([]int64, error) }

func (s *sut) whole(f wholer, what string) {
	all, err := f.ReadWholeFileAsInt64s()
	s.check(err, what+" whole-file read")
	if len(all) != len(s.model) {
		s.t.Fail("%s: whole-file read gave %d words, want %d", what, len(all), len(s.model))
	}
	for i, v := range all {
		if v != s.model[i] {
			s.t.Fail("%s: whole-file read word %d is %#x, want %#x", what, i, v, s.model[i])
		}
	}
}

// readers opens every read-only mode and checks the whole contents.
func (s *sut) readers(what string) {
	for _, m := range []string{"plain", "shadowed", "mapped", "mapped2"} {
		var r wordfile.ReadAtWordCounter
		var err error
		switch m {
		case "plain":
			r, err = wordfile.NewConcreteWordFileCreator("words", s.dir, int64(s.c.w), false, false).OpenWordFileReadOnly()
		case "shadowed":
			r, err = wordfile.NewConcreteWordFileCreator("words", s.dir, int64(s.c.w), true, false).OpenWordFileReadOnly()
		case "mapped":
			if len(s.model) == 0 {
				continue // an empty file cannot be memory-mapped
			}
			r, err = wordfile.NewConcreteMmapWordFileCreator("words", s.dir, int64(s.c.w)).OpenWordFileReadOnly()
		case "mapped2":
			if len(s.model) == 0 {
				continue
			}
			r, err = wordfile.NewConcreteWordFileCreator("words", s.dir, int64(s.c.w), false, true).OpenWordFileReadOnly()
		}
		w := what + " read-only " + m
		s.check(err, w+" open")
		s.count(r, w)
		if r.WordSize() != int64(s.c.w) {
			s.t.Fail("%s: WordSize %d", w, r.WordSize())
		}
		s.readAll(r, w)
		if wf, ok := r.(wholer); ok && !strings.HasPrefix(m, "mapped") {
			s.whole(wf, w)
			s.readAll(r, w+" after whole-file read")
			s.whole(wf, w+" again")
		}
		s.check(r.Close(), w+" close")
	}
}

var ops = []string{"append", "over0", "overlast", "overmid", "gap", "read0", "readlast", "readend", "whole", "sync", "reopen", "readers", "page"}

func (s *sut) step(op string) {
	n := int64(len(s.model))
	switch op {
	case "append":
		s.write(n)
	case "over0":
		s.write(0)
	case "overlast":
		if n > 0 {
			s.write(n - 1)
		} else {
			s.write(1)
		}
	case "overmid":
		s.write(n / 2)
	case "gap":
		s.write(n + 2)
	case "read0":
		s.read(s.f, 0, "read")
	case "readlast":
		s.read(s.f, n-1, "read")
	case "readend":
		s.read(s.f, n, "read")
	case "whole":
		s.whole(s.f, "open file")
	case "sync":
		s.check(s.f.Sync(), "sync")
	case "reopen":
		s.check(s.f.Close(), "close")
		s.open()
	case "readers":
		s.check(s.f.Sync(), "sync")
		s.readers("while open, after sync")
	case "page": // overflow the 4096-byte write buffer in one go
		for i := 0; i < 4096/s.c.w+1; i++ {
			s.write(int64(len(s.model)))
		}
	}
	s.count(s.f, "open file")
	s.t.Step(1)
	s.t.State(s.c.w, s.model)
}

func (s *sut) finish(order int) {
	switch order {
	case 0:
		s.readAll(s.f, "at end")
		s.whole(s.f, "at end")
		s.readAll(s.f, "at end, after whole-file read")
	case 1:
		s.whole(s.f, "at end")
		s.readAll(s.f, "at end")
	}
	s.check(s.f.Close(), "close")
	fi, err := os.Stat(filepath.Join(s.dir, "words.int"))
	s.check(err, "stat")
	if fi.Size() != int64(len(s.model)*s.c.w) {
		s.t.Fail("file has %d bytes, want %d words of %d", fi.Size(), len(s.model), s.c.w)
	}
	s.readers("after close")
	s.open()
	s.count(s.f, "reopened")
	s.readAll(s.f, "reopened")
	s.check(s.f.Close(), "close")
	s.f = nil
}

func histories(c *vk.Ctx, group string, cf cfg, alphabet []string, depth int) {
	seq := make([]int, depth)
	for {
		for order := 0; order < 3; order++ {
			sq := append([]int(nil), seq...)
			ord := order
			desc := func() string {
				var n []string
				for _, i := range sq {
					n = append(n, alphabet[i])
				}
				return fmt.Sprintf("%v; history %s; final check order %d", cf, strings.Join(n, ","), ord)
			}
			c.Case(group, desc, func(t *vk.T) {
				s := newSut(t, cf)
				for _, i := range sq {
					t.Tracef("%s (count %d)", alphabet[i], len(s.model))
					s.step(alphabet[i])
				}
				s.finish(ord)
				t.Outcome(fmt.Sprintf("words=%d", len(s.model)))
			})
		}
		i := depth - 1
		for i >= 0 {
			seq[i]++
			if seq[i] < len(alphabet) {
				break
			}
			seq[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

func main() {
	vk.Main(vk.Spec{
		Property: "C01",
		Rule:     "every operation history of the stated alphabet and depth, per width/mode/initial content; after it the whole file is compared with an array through every access mode",
		Bounds: func(tier string) map[string]any {
			return map[string]any{"alphabet": ops, "widths": "1..8", "modes": "plain, shadowed, mapped", "initial": "empty, zero-filled, recreated over old content, prefilled around the 4096-byte buffer size"}
		},
		Run: func(c *vk.Ctx) {
			for d := 1; d <= 2; d++ {
				for w := 1; w <= 8; w++ {
					for _, sh := range []bool{false, true} {
						for _, in := range []string{"empty", "zeros", "recreated", "recreatedzeros"} {
							histories(c, fmt.Sprintf("histories-depth%d", d), cfg{w, sh, in, 0}, ops, d)
						}
					}
				}
			}
			small := ops[:12]
			// values
			for w := 1; w <= 8; w++ {
				for _, sh := range []bool{false, true} {
					vs := allBitValues(w)
					for i := range vs {
						w, sh, i := w, sh, i
						c.Case("values", func() string {
							return fmt.Sprintf("width %d shadowed=%v value %#x before and after every corner value", w, sh, vs[i])
						}, func(t *vk.T) {
							cf := cfg{w, sh, "empty", 0}
							for _, v2 := range cornerValues(w) {
								s := newSut(t, cf)
								s.writeVal(vs[i], 0)
								s.read(s.f, 0, "written")
								s.writeVal(v2, 1)
								s.writeVal(vs[i], 2)
								s.readAll(s.f, "values")
								s.writeVal(v2, 0)
								s.readAll(s.f, "values")
								t.Step(4)
								t.State(w, s.model)
								s.finish(1)
							}
						})
					}
				}
			}
			// around the write buffer's size
			for w := 1; w <= 8; w++ {
				for _, sh := range []bool{false, true} {
					for _, b := range []int{4096, 8192} {
						for dlt := -1; dlt <= 1; dlt++ {
							histories(c, "histories-at-buffer-boundary", cfg{w, sh, "empty", b/w + dlt}, small, vk.Pick(c, 1, 2))
						}
					}
				}
			}
			// far positions
			for _, w := range []int{1, 3, 5, 7, 8} {
				for _, pos := range []int64{1<<16 - 1, 1 << 16, 1<<31/8 - 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 5} {
					w, pos := w, pos
					c.Case("far-positions", func() string { return fmt.Sprintf("width %d word %d", w, pos) }, func(t *vk.T) {
						dir := t.Dir()
						cr := wordfile.NewConcreteWordFileCreator("far", dir, int64(w), false, false)
						vk.Must(cr.CreateWordFile())
						f, err := cr.OpenWordFile()
						if err != nil {
							t.Fail("open: %v", err)
						}
						ref := map[int64]int64{}
						put := func(p, v int64) {
							if err := f.WriteWordAt(v&mask(w), p); err != nil {
								t.Fail("write %d: %v", p, err)
							}
							ref[p] = v & mask(w)
						}
						put(0, 0x1111111111111111)
						put(pos, 0x2222222222222222)
						put(pos+1, 0x3333333333333333)
						put(pos-1, 0x4444444444444444)
						put(pos+2, 0x5555555555555555)
						verify := func(r wordfile.ReaderAtWord, cnt wordfile.WordCounter, what string) {
							for _, p := range []int64{0, 1, pos - 2, pos - 1, pos, pos + 1, pos + 2} {
								v, err := r.ReadWordAt(p)
								if err != nil || v != ref[p] {
									t.Fail("%s word %d: %#x, %v; want %#x", what, p, v, err, ref[p])
								}
							}
							if _, err := r.ReadWordAt(pos + 3); err == nil {
								t.Fail("%s read past end", what)
							}
							if n, err := cnt.CountWords(); err != nil || n != pos+3 {
								t.Fail("%s count %d", what, n)
							}
						}
						verify(f, f, "open")
						if err := f.Close(); err != nil {
							t.Fail("close %v", err)
						}
						r, err := cr.OpenWordFileReadOnly()
						if err != nil {
							t.Fail("reopen %v", err)
						}
						verify(r, r, "reopened")
						r.Close()
						t.Step(6)
						t.State("far", w, pos)
					})
				}
			}
			// deeper histories
			for w := 1; w <= 8; w++ {
				for _, sh := range []bool{false, true} {
					histories(c, "histories-depth3", cfg{w, sh, "empty", 0}, ops, 3)
				}
			}
			for _, w := range []int{5, 8, 1} {
				histories(c, "histories-depth4", cfg{w, false, "empty", 0}, small, 4)
				if c.Thorough() {
					histories(c, "histories-depth4", cfg{w, true, "zeros", 0}, small, 4)
				}
			}
			if c.Thorough() {
				for _, w := range []int{4, 7} {
					histories(c, "histories-depth5", cfg{w, false, "empty", 0}, small, 5)
				}
			}
		},
	})
}
