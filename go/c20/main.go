// C20: serialised hash chunks and the writable tier answer like a map.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"time"

	wc "github.com/KitchenMishap/pudding-shed/weddingcake"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

// ---------------------------------------------------------------- chunks

type nodeIds = wc.NByteIdConfig[wc.NodeIdType]
type hashIds = wc.NByteIdConfig[wc.HashIndexIdType]

var nodeWidths = []nodeIds{wc.ID16[wc.NodeIdType]{}, wc.ID24[wc.NodeIdType]{}, wc.ID32[wc.NodeIdType]{}}
var hashWidths = []hashIds{wc.ID16[wc.HashIndexIdType]{}, wc.ID24[wc.HashIndexIdType]{}, wc.ID32[wc.HashIndexIdType]{}}

type config struct {
	length, reassurance, specs byte
	nodes, hashes              int // positions in nodeWidths and hashWidths
}

func (k config) String() string {
	return fmt.Sprintf("hash length %d, reassurance %d, %d formats per level, id widths %d and %d bytes",
		k.length, k.reassurance, k.specs, nodeWidths[k.nodes].StorageBytes(), hashWidths[k.hashes].StorageBytes())
}

type member struct {
	hash  []byte
	index int64
}

func prepared(ms []member, k config) *wc.Chunk {
	in := make([]wc.ShallowTreeHash, len(ms))
	for i, m := range ms {
		in[i] = wc.ShallowTreeHash{Hash: append([]byte{}, m.hash...), PresentationIndex: m.index}
	}
	cp := wc.NewChunkPreparation(in, k.length, k.reassurance, k.specs, nodeWidths[k.nodes], hashWidths[k.hashes])
	cp.PrepareAndSerialize()
	return wc.VerifChunkOf(cp)
}

// answers checks one chunk for every member and every probe. A probe which is no member may be mistaken for one
// only if it agrees with that member in as many bytes as must have been looked at: one in choosing it from among
// others, and the reassurance bytes.
func answers(t *vk.T, ch *wc.Chunk, ms []member, k config, probes [][]byte, where string) {
	want := map[string]int64{}
	byIndex := map[int64][]byte{}
	for _, m := range ms {
		want[string(m.hash)] = m.index
		byIndex[m.index] = m.hash
	}
	for _, m := range ms {
		q := append([]byte{}, m.hash...)
		if got := int64(ch.LookupHash(q)); got != m.index {
			t.Fail("%s (%s): member %x is answered with %d, want %d", where, k, m.hash, got, m.index)
		}
		t.Step(1)
	}
	must := int(k.reassurance)
	if len(ms) > 1 {
		must++
	}
	if must > int(k.length) {
		must = int(k.length)
	}
	for _, p := range probes {
		w, isMember := want[string(p)]
		got := int64(ch.LookupHash(append([]byte{}, p...)))
		t.Step(1)
		if isMember {
			if got != w {
				t.Fail("%s (%s): member %x is answered with %d, want %d", where, k, p, got, w)
			}
			continue
		}
		if got == -1 {
			continue
		}
		h, ok := byIndex[got]
		if !ok {
			t.Fail("%s (%s): absent %x is answered with %d, which is no member's index", where, k, p, got)
		}
		same := 0
		for i := range p {
			if p[i] == h[i] {
				same++
			}
		}
		if same < must {
			t.Fail("%s (%s): absent %x is answered with %d, the index of %x, although they share only %d bytes (at least %d must have been compared)",
				where, k, p, got, h, same, must)
		}
	}
}

func words(alphabet []byte, n int) [][]byte {
	out := [][]byte{{}}
	for i := 0; i < n; i++ {
		var next [][]byte
		for _, w := range out {
			for _, a := range alphabet {
				next = append(next, append(append([]byte{}, w...), a))
			}
		}
		out = next
	}
	return out
}

// Numberings of the presented hashes.
var numberings = []struct {
	name string
	of   func(i, n int) int64
}{
	{"from 0", func(i, n int) int64 { return int64(i) }},
	{"from 10", func(i, n int) int64 { return int64(i) + 10 }},
	{"from 5000000000", func(i, n int) int64 { return int64(i) + 5000000000 }},
	{"with gaps", func(i, n int) int64 { return int64(7*i) + 3 }},
	{"first lowest, rest falling", func(i, n int) int64 {
		if i == 0 {
			return 2
		}
		return int64(2 + n - i)
	}},
}

func number(hashes [][]byte, kind int) []member {
	ms := make([]member, len(hashes))
	for i, h := range hashes {
		ms[i] = member{h, numberings[kind].of(i, len(hashes))}
	}
	return ms
}

func reversed(hs [][]byte) [][]byte {
	out := make([][]byte, len(hs))
	for i := range hs {
		out[len(hs)-1-i] = hs[i]
	}
	return out
}

func sets(c *vk.Ctx) {
	type space struct {
		alphabet []byte
		length   int
	}
	spaces := []space{{[]byte{0, 1, 0x7f, 0x80, 0xff}, 1}, {[]byte{0, 0x80, 0xff}, 2}, {[]byte{0, 1}, 3}, {[]byte{0xff, 0x10}, 3}}
	if c.Thorough() {
		spaces = append(spaces, space{[]byte{0, 1, 0x7f, 0x80, 0xfe, 0xff}, 1}, space{[]byte{0, 0xff}, 4}, space{[]byte{0, 1, 2, 0xff}, 2})
	}
	for _, sp := range spaces {
		sp := sp
		all := words(sp.alphabet, sp.length)
		probes := words(append(append([]byte{}, sp.alphabet...), 0x42), sp.length)
		for mask := 0; mask < 1<<len(all); mask++ {
			mask := mask
			c.Case("sets", func() string {
				return fmt.Sprintf("subset %b of the words of length %d over %x", mask, sp.length, sp.alphabet)
			}, func(t *vk.T) {
				var hs [][]byte
				for i := range all {
					if mask>>i&1 == 1 {
						hs = append(hs, all[i])
					}
				}
				n := 0
				for r := 0; r <= sp.length; r++ {
					for nw := range nodeWidths {
						for hw := range hashWidths {
							k := config{byte(sp.length), byte(r), 5, nw, hw}
							order := hs
							if (mask+nw+hw)%2 == 1 {
								order = reversed(hs)
							}
							kind := (mask + r + nw + hw) % len(numberings)
							ms := number(order, kind)
							answers(t, prepared(ms, k), ms, k, probes, "chunk numbered "+numberings[kind].name)
							n++
						}
					}
				}
				t.State("sets", sp.length, sp.alphabet, mask)
				if len(hs) > 1 {
					t.Nontrivial()
				}
			})
		}
	}
}

// orders: every presentation order and numbering of a few sets.
func orders(c *vk.Ctx) {
	base := [][][]byte{
		{{0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}},
		{{9, 9, 9}, {9, 9, 8}, {7, 9, 9}, {7, 9, 8}},
		{{1, 1, 1}, {2, 2, 2}, {3, 3, 3}, {4, 4, 4}, {5, 5, 5}},
	}
	for b, set := range base {
		b, set := b, set
		vk.Perms(len(set), func(p []int) {
			p = append([]int{}, p...)
			c.Case("orders", func() string { return fmt.Sprintf("set %d presented in order %v", b, p) }, func(t *vk.T) {
				hs := make([][]byte, len(set))
				for i, j := range p {
					hs[i] = set[j]
				}
				probes := words([]byte{0, 1, 2, 7, 8, 9}, 3)
				for kind := range numberings {
					for r := byte(0); r <= 3; r++ {
						k := config{3, r, 6, int(r) % 3, kind % 3}
						ms := number(hs, kind)
						answers(t, prepared(ms, k), ms, k, probes, "chunk numbered "+numberings[kind].name)
					}
				}
				t.State("orders", b, p)
				t.Nontrivial()
			})
		})
	}
}

// chains: every hash length, hashes which can only be told apart one byte at a time, so the tree is as deep as it can be.
func chains(c *vk.Ctx) {
	for length := 1; length <= 64; length++ {
		for _, deep := range []int{0, 1, 2, length / 2, length - 1, length} {
			for variant := 0; variant < 2; variant++ {
				length, deep, variant := length, deep, variant
				if deep > length || deep < 0 {
					continue
				}
				c.Case("chains", func() string {
					return fmt.Sprintf("%d hashes of length %d, each told from the rest by one byte (variant %d)", deep+1, length, variant)
				}, func(t *vk.T) {
					base := bytes.Repeat([]byte{byte(0xff * variant)}, length)
					hs := [][]byte{base}
					for i := 0; i < deep; i++ {
						p := i
						if variant == 1 {
							p = length - 1 - i
						}
						h := append([]byte{}, base...)
						h[p] ^= 0x80
						hs = append(hs, h)
					}
					var probes [][]byte
					for _, h := range hs {
						for i := 0; i < length; i++ {
							for _, x := range []byte{1, 0x80} {
								g := append([]byte{}, h...)
								g[i] ^= x
								probes = append(probes, g)
							}
						}
					}
					if length > 8 && !c.Thorough() {
						probes = every(probes, 7)
					}
					rs := []byte{0, 1, 2, byte(length)}
					for i, r := range rs {
						if int(r) > length {
							continue
						}
						k := config{byte(length), r, 5, i % 3, (i + 1) % 3}
						ms := number(hs, 1)
						answers(t, prepared(ms, k), ms, k, probes, "chain chunk")
					}
					t.State("chains", length, deep, variant)
					if deep > 0 {
						t.Nontrivial()
					}
				})
			}
		}
	}
}

func every(p [][]byte, n int) [][]byte {
	var out [][]byte
	for i := 0; i < len(p); i += n {
		out = append(out, p[i])
	}
	return out
}

// spread gives f of the 256 byte values: the lowest, the highest or evenly spaced ones.
func spread(f, kind int) []byte {
	out := make([]byte, f)
	for i := range out {
		switch kind {
		case 0:
			out[i] = byte(i)
		case 1:
			out[i] = byte(256 - f + i)
		default:
			out[i] = byte(i * 256 / f)
		}
	}
	return out
}

// fanOut is a set of hashes whose tree has one node for every entry of fs, with that many children, under one root.
func fanOut(fs []int, kind int) [][]byte {
	var hs [][]byte
	for i, f := range fs {
		for _, v := range spread(f, kind) {
			hs = append(hs, []byte{byte(i*5 + kind), v, byte(i), v ^ 0x33})
		}
	}
	return hs
}

var widths = []int{2, 3, 4, 5, 6, 7, 8, 9, 16, 63, 64, 65, 127, 128, 129, 192, 193, 243, 244, 245, 246, 255, 256}

func fanOuts(c *vk.Ctx) {
	all := func(hs [][]byte) [][]byte { // every value of the second byte under every member's first byte
		seen := map[byte][]byte{}
		for _, h := range hs {
			seen[h[0]] = h
		}
		var out [][]byte
		for _, h := range seen {
			for v := 0; v < 256; v++ {
				out = append(out, []byte{h[0], byte(v), h[2], byte(v) ^ 0x33})
			}
		}
		for v := 0; v < 256; v++ {
			out = append(out, []byte{byte(v), 1, 1, 1})
		}
		return out
	}
	run := func(name string, fs []int, kind int, specs []byte) {
		c.Case("fan-outs", func() string {
			return fmt.Sprintf("%s: nodes of widths %v, values %d, formats per level %v", name, fs, kind, specs)
		}, func(t *vk.T) {
			hs := fanOut(fs, kind)
			probes := all(hs)
			for i, s := range specs {
				for _, r := range []byte{0, 2} {
					k := config{4, r, s, (i + kind) % 3, (i + kind + 1) % 3}
					ms := number(hs, 1)
					answers(t, prepared(ms, k), ms, k, probes, "chunk with chosen widths")
				}
			}
			t.State("fan", fs, kind)
			t.Nontrivial()
		})
	}
	step := vk.Pick(c, 1, 1)
	for f := 2; f <= 256; f += step {
		for kind := 0; kind < 3; kind++ {
			run("one node", []int{f}, kind, []byte{5})
		}
	}
	for i, a := range widths {
		for j, b := range widths {
			if !c.Thorough() && (i+j)%3 != 0 {
				continue
			}
			run("two nodes", []int{a, b}, (i+j)%3, []byte{5, 255})
		}
	}
	// More widths at one level than formats allowed there, so that formats have to be shared.
	small := []int{2, 3, 4, 5, 6, 7, 9, 12, 245, 250, 256}
	for mask := 0; mask < 1<<len(small); mask++ {
		var fs []int
		for i := range small {
			if mask>>i&1 == 1 {
				fs = append(fs, small[i])
			}
		}
		if len(fs) < 5 || (!c.Thorough() && mask%5 != 0) {
			continue
		}
		run("shared formats", fs, mask%3, []byte{5, 6, 7})
	}
}

// ---------------------------------------------------------------- chunks in files

// The kinds of chunk appended to the files, each with a different number of levels or sizes.
var chunkKinds = []struct {
	name   string
	hashes func(salt byte) [][]byte
}{
	{"empty", func(s byte) [][]byte { return nil }},
	{"one hash", func(s byte) [][]byte { return [][]byte{{s, 1, 2, 3}} }},
	{"two hashes", func(s byte) [][]byte { return [][]byte{{s, 1, 2, 3}, {s, 1, 2, 4}} }},
	{"deep", func(s byte) [][]byte {
		return [][]byte{{s, 0, 0, 0}, {s ^ 0x80, 0, 0, 0}, {s, 9, 0, 0}, {s, 0, 9, 0}, {s, 0, 0, 9}}
	}},
	{"wide", func(s byte) [][]byte {
		var hs [][]byte
		for i := 0; i < 256; i++ {
			hs = append(hs, []byte{byte(i), s, byte(i / 2), 7})
		}
		return hs
	}},
}

func files(c *vk.Ctx) {
	depth := vk.Pick(c, 5, 6)
	vk.Seqs(len(chunkKinds), depth, func(seq []int) {
		if len(seq) == 0 {
			return
		}
		seq = append([]int{}, seq...)
		c.Case("files", func() string {
			var s []string
			for _, k := range seq {
				s = append(s, chunkKinds[k].name)
			}
			return fmt.Sprintf("chunks appended: %v", s)
		}, func(t *vk.T) {
			k := config{4, 4, 5, len(seq) % 3, seq[0] % 3}
			dir := t.Dir()
			vk.Must(os.WriteFile(filepath.Join(dir, "ChunksInfo.bin"), nil, 0o644))
			var all [][]member
			next := int64(seq[0])
			kept := wc.NewChunkFilesRead(dir)
			for i, kind := range seq {
				hs := chunkKinds[kind].hashes(byte(0x11 * (i + 1)))
				var ms []member
				for _, h := range hs {
					ms = append(ms, member{h, next})
					next++
				}
				vk.Must(wc.NewChunkFilesWrite(dir).AppendChunk(prepared(ms, k)))
				all = append(all, ms)
				if i%2 == 0 || c.Thorough() {
					// The same reader after each append, and a fresh one.
					for _, r := range []struct {
						name string
						cfr  *wc.ChunkFilesRead
					}{{"reader kept", kept}, {"fresh reader", wc.NewChunkFilesRead(dir)}} {
						reread(t, r.cfr, all, k, r.name)
					}
				}
			}
			t.State("files", seq)
			t.Nontrivial()
		})
	})
}

func reread(t *vk.T, cfr *wc.ChunkFilesRead, all [][]member, k config, who string) {
	// The configuration a reader is given is the store's.
	cfg := wc.StoreConfig{HashLength: k.length, ReassuranceBytesCount: k.reassurance, NodeFormatSpecsPerLevel: k.specs,
		NodeIdConfig: nodeWidths[k.nodes], HashIndexIdConfig: hashWidths[k.hashes]}
	if err := cfr.ReadAndMmap(cfg); err != nil {
		t.Fail("%s after %d chunks: %v", who, len(all), err)
	}
	chunks := wc.VerifChunksOf(cfr)
	if len(chunks) != len(all) {
		t.Fail("%s sees %d chunks of the %d appended", who, len(chunks), len(all))
	}
	for i := range all {
		var probes [][]byte
		for j := range all {
			for _, m := range all[j] {
				probes = append(probes, m.hash)
				g := append([]byte{}, m.hash...)
				g[3] ^= 0x40
				probes = append(probes, g)
			}
		}
		if len(probes) > 200 {
			probes = every(probes, 9)
		}
		answers(t, &chunks[i], all[i], k, probes, fmt.Sprintf("%s, chunk %d of %d", who, i, len(all)))
	}
	if err := cfr.UnMmapLevelFiles(); err != nil {
		t.Fail("%s: unmapping: %v", who, err)
	}
}

// limits: indices at the ends of what the narrowest and wider ids hold.
func limits(c *vk.Ctx) {
	for hw, most := range []int64{1<<16 - 1, 1<<24 - 1, 1<<32 - 1} {
		for nw := range nodeWidths {
			for _, first := range []int64{0, 1, 1 << 31, 1 << 40} {
				hw, nw, first, most := hw, nw, first, most
				c.Case("limits", func() string { return fmt.Sprintf("ids up to %d from index %d, node ids of width %d", most, first, nw) }, func(t *vk.T) {
					var offs []int64
					for s := uint(8); s <= 32; s += 8 {
						for _, o := range []int64{1<<s - 2, 1<<s - 1, 1 << s} {
							if o < most {
								offs = append(offs, o)
							}
						}
					}
					ms := []member{{[]byte{0, 0}, first}}
					for i, o := range offs {
						ms = append(ms, member{[]byte{byte(i % 3), byte(i/3) + 1}, first + o})
					}
					for r := byte(0); r <= 2; r++ {
						k := config{2, r, 5, nw, hw}
						answers(t, prepared(ms, k), ms, k, words([]byte{0, 1, 2, 3, 9}, 2), "chunk with extreme indices")
					}
					t.State("limits", hw, nw, first)
					t.Nontrivial()
				})
			}
		}
	}
}

// dense: as many hashes as fit the narrowest ids.
func dense(c *vk.Ctx) {
	type d struct {
		n      int
		nw, hw int
	}
	ds := []d{{65535, 0, 0}, {65535, 1, 2}, {4096, 0, 0}}
	if c.Thorough() {
		ds = append(ds, d{65536, 1, 1}, d{65536, 2, 2}, d{200000, 1, 2})
	}
	for _, x := range ds {
		x := x
		c.CaseLimit("dense", 120*time.Second, func() string { return fmt.Sprintf("%d hashes of three bytes", x.n) }, func(t *vk.T) {
			var ms []member
			for i := 0; i < x.n; i++ {
				ms = append(ms, member{[]byte{byte(i), byte(i >> 8), byte(i >> 16), byte(i>>3) ^ 0x5c}, int64(i)})
			}
			k := config{4, 1, 8, x.nw, x.hw}
			ch := prepared(ms, k)
			answers(t, ch, ms, k, nil, "dense chunk")
			t.State("dense", x)
			t.Nontrivial()
		})
	}
}

// measures: the layout designer counts the nodes of a subtree as they are.
func measures(c *vk.Ctx) {
	all := words([]byte{0, 1, 0xff}, 2)
	for mask := 0; mask < 1<<len(all); mask++ {
		mask := mask
		c.Case("measures", func() string { return fmt.Sprintf("subset %b measured as a subtree", mask) }, func(t *vk.T) {
			var hs []wc.ShallowTreeHash
			for i := range all {
				if mask>>i&1 == 1 {
					hs = append(hs, wc.ShallowTreeHash{Hash: all[i], PresentationIndex: int64(i + 1)})
				}
			}
			cfg := wc.StoreConfig{HashLength: 2, ReassuranceBytesCount: 1, NodeFormatSpecsPerLevel: 5, NodeIdConfig: nodeWidths[0], HashIndexIdConfig: hashWidths[0]}
			for _, base := range []byte{0, 1, 7, 60} {
				tld := wc.TreeLayoutDesigner{}
				for times := 1; times <= 2; times++ {
					tld.RecordSubtreeDistribution(hs, cfg, base)
					leaves, nodes := 0, 0
					for level, l := range tld.Metrics.Levels {
						for active, n := range l.ActiveSlotHistogram {
							if n == 0 {
								continue
							}
							if level < int(base) || level > int(base)+2 {
								t.Fail("a node is counted at level %d of a subtree of 2-byte hashes based at level %d", level, base)
							}
							nodes += int(n)
							if active == 0 {
								leaves += int(n)
							}
						}
					}
					want := wc.GenerateShallowTree(hs, 2, 1).CountNodes() * times
					if leaves != times*len(hs) || nodes != want {
						t.Fail("%d hashes recorded %d times: %d leaves and %d nodes counted, want %d and %d", len(hs), times, leaves, nodes, times*len(hs), want)
					}
					t.Step(1)
				}
			}
			t.State("measures", mask)
			if len(hs) > 1 {
				t.Nontrivial()
			}
		})
	}
}

// ---------------------------------------------------------------- the writable tier

func tierHash(i int) wc.Sha256 {
	var h wc.Sha256
	switch i {
	case 0: // all zero
	case 1:
		for j := range h {
			h[j] = 0xff
		}
	case 2:
		h[31] = 1
	case 3:
		h[0] = 1
	default:
		h[0], h[15], h[31] = byte(i), byte(i*37), byte(i*101)
	}
	return h
}

var tierOps = []string{"append", "append many", "sync", "reopen", "reopen read-only", "existence"}

type tier struct {
	t       *vk.T
	dir     string
	creator wc.LegacyHashStoreCreator
	rw      wc.LegacyHashReadWriter
	ro      wc.LegacyHashReader
	n       int
}

func (s *tier) reader() wc.LegacyHashReader {
	if s.rw != nil {
		return s.rw
	}
	return s.ro
}

func (s *tier) close() {
	if s.rw != nil {
		vk.Must(s.rw.Close())
	}
	if s.ro != nil {
		vk.Must(s.ro.Close())
	}
	s.rw, s.ro = nil, nil
}

func (s *tier) open() {
	var err error
	s.close()
	s.rw, err = s.creator.OpenHashStore()
	if err != nil {
		s.t.Fail("opening the tier of %d hashes: %v", s.n, err)
	}
}

func (s *tier) append() {
	if s.rw == nil {
		s.open()
	}
	h := tierHash(s.n)
	i, err := s.rw.AppendHash(&h)
	if err != nil || i != int64(s.n) {
		s.t.Fail("append number %d gives %d, %v", s.n, i, err)
	}
	if h != tierHash(s.n) {
		s.t.Fail("append changes the caller's hash")
	}
	h[5] ^= 0xaa // the tier keeps no reference to the caller's memory
	s.n++
}

func (s *tier) check() {
	r := s.reader()
	if n, err := r.CountHashes(); err != nil || n != int64(s.n) {
		s.t.Fail("the tier counts %d (%v), %d were appended", n, err, s.n)
	}
	for i := 0; i < s.n; i++ {
		h := tierHash(i)
		if g, err := r.IndexOfHash(&h); err != nil || g != int64(i) {
			s.t.Fail("of %d hashes, number %d is found at %d (%v)", s.n, i, g, err)
		}
		var got wc.Sha256
		got[3] = 7
		if err := r.GetHashAtIndex(int64(i), &got); err != nil || got != tierHash(i) {
			s.t.Fail("of %d hashes, number %d reads as %x (%v)", s.n, i, got, err)
		}
		got[9] ^= 1
		s.t.Step(2)
	}
	for i := s.n; i < s.n+4; i++ {
		h := tierHash(i)
		if g, err := r.IndexOfHash(&h); err != nil || g != -1 {
			s.t.Fail("a hash not appended is found at %d (%v)", g, err)
		}
		var got wc.Sha256
		if err := r.GetHashAtIndex(int64(i), &got); err == nil {
			s.t.Fail("index %d of a tier of %d reads as %x without an error", i, s.n, got)
		}
		s.t.Step(2)
	}
}

func tiers(c *vk.Ctx) {
	depth := vk.Pick(c, 7, 8)
	vk.Seqs(len(tierOps), depth, func(seq []int) {
		if len(seq) == 0 {
			return
		}
		// Two openings in a row or two syncs in a row say nothing new.
		for i := 1; i < len(seq); i++ {
			if seq[i] == seq[i-1] && seq[i] >= 2 {
				return
			}
		}
		if len(seq) == depth && seq[0] >= 2 {
			return
		}
		seq = append([]int{}, seq...)
		c.Case("tier", func() string { return "tier: " + vk.Names(tierOps, seq) }, func(t *vk.T) {
			dir := t.Dir()
			s := &tier{t: t, dir: dir, creator: wc.NewTierZeroCreator(dir)}
			if s.creator.HashStoreExists() {
				t.Fail("a tier exists before it is created")
			}
			vk.Must(s.creator.CreateHashStore())
			s.open()
			t.Defer(s.close)
			for _, op := range seq {
				switch op {
				case 0:
					s.append()
				case 1:
					for i := 0; i < 5; i++ {
						s.append()
					}
				case 2:
					if s.rw != nil {
						vk.Must(s.rw.Sync())
					}
				case 3:
					s.open()
				case 4:
					s.close()
					var err error
					s.ro, err = s.creator.OpenHashStoreReadOnly()
					if err != nil {
						t.Fail("opening the tier of %d hashes for reading: %v", s.n, err)
					}
				case 5:
					if !s.creator.HashStoreExists() {
						t.Fail("the tier is said not to exist")
					}
				}
				s.check()
			}
			s.open()
			s.check()
			t.State("tier", seq)
			t.Outcome(fmt.Sprint(s.n))
			t.Nontrivial()
		})
	})
}

func run(c *vk.Ctx) {
	sets(c)
	orders(c)
	chains(c)
	fanOuts(c)
	files(c)
	limits(c)
	dense(c)
	measures(c)
	tiers(c)
}

func main() {
	vk.Main(vk.Spec{
		Property: "C20",
		Rule:     "a serialised chunk, in memory or mapped from files holding several, answers every member with its index and every other hash with -1, unless it shares all bytes that must have been compared with a member; the writable tier is an append-only list with a reverse map across reopens",
		Bounds: func(tier string) map[string]any {
			d, td := 5, 7
			if tier == "thorough" {
				d, td = 6, 8
			}
			return map[string]any{
				"sets":     "all subsets of all words over 2..6 byte values of length 1..4, every reassurance, 9 pairs of id widths",
				"orders":   "all presentation orders of three sets, five numberings",
				"chains":   "hash lengths 1..64, trees as deep as the hash is long",
				"fan_outs": "every node width 2..256, pairs and larger sets of widths with formats shared",
				"files":    fmt.Sprintf("all sequences of up to %d chunks of 5 kinds", d),
				"tier":     fmt.Sprintf("all histories of up to %d of 6 operations", td),
			}
		},
		Assumptions: []string{
			"hashes of one chunk are distinct, and the first presented has the lowest index; ids and counts fit the chosen widths",
			"a look-up does not compare whole hashes unless the reassurance covers them: the caller compares",
			"hashes appended to the writable tier are distinct; indices asked for are not negative",
		},
		Shards: 8, CaseLimit: 60 * time.Second, QuickBudget: 300 * time.Second, ThoroughBudget: 1500 * time.Second, MemLimitGB: 3,
		Run: run,
	})
}
