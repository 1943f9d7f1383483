// C21: shallow hash trees find every hash at its lowest index.
package main

import (
	"bytes"
	"fmt"
	"time"

	iht "github.com/KitchenMishap/pudding-shed/indexedhashestree"
	wc "github.com/KitchenMishap/pudding-shed/weddingcake"
	wcb "github.com/KitchenMishap/pudding-shed/weddingcakeback"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

type hash = [32]byte

// ---------------------------------------------------------------- the tree with 16-bit links, and its serialised form

// agree says whether two hashes have the same byte wherever bits has a one.
func agree(a, b hash, bits uint32) bool {
	for i := 0; i < 32; i++ {
		if bits>>i&1 == 1 && a[i] != b[i] {
			return false
		}
	}
	return true
}

type facts struct {
	lowest map[hash]int64
	count  map[hash]int
	list   []hash
	first  int64
}

func factsOf(list []hash, first int64) *facts {
	f := &facts{map[hash]int64{}, map[hash]int{}, list, first}
	for i, h := range list {
		if f.count[h] == 0 {
			f.lowest[h] = first + int64(i)
		}
		f.count[h]++
	}
	return f
}

func (f *facts) String() string {
	if len(f.list) > 6 {
		return fmt.Sprintf("%d hashes from index %d, the first %x", len(f.list), f.first, f.list[0])
	}
	return fmt.Sprintf("%x from index %d", f.list, f.first)
}

func (f *facts) member(t *vk.T, v *iht.VerifTree, h hash) {
	i, dup := v.Shallow(h)
	if i != f.lowest[h] || dup != (f.count[h] > 1) {
		t.Fail("tree of %v: %x, listed %d times, first at %d, is answered %d (repeated: %v)", f, h, f.count[h], f.lowest[h], i, dup)
	}
	i, dup, _ = v.Fixed(h)
	if i != f.lowest[h] || dup != (f.count[h] > 1) {
		t.Fail("serialised tree of %v: %x, listed %d times, first at %d, is answered %d (repeated: %v)", f, h, f.count[h], f.lowest[h], i, dup)
	}
	t.Step(2)
}

func (f *facts) probe(t *vk.T, v *iht.VerifTree, q hash) {
	if f.count[q] > 0 {
		f.member(t, v, q)
		return
	}
	si, sd := v.Shallow(q)
	i, dup, bits := v.Fixed(q)
	t.Step(2)
	if si != i || sd != dup {
		t.Fail("tree of %v: absent %x is answered %d (repeated: %v) by the tree and %d (repeated: %v) by its serialised form", f, q, si, sd, i, dup)
	}
	if i == -1 {
		if dup {
			t.Fail("tree of %v: absent %x is answered as repeated", f, q)
		}
		return
	}
	k := i - f.first
	if k < 0 || k >= int64(len(f.list)) {
		t.Fail("tree of %v: absent %x is answered %d, which is nobody's index", f, q, i)
	}
	h := f.list[k]
	if !agree(q, h, bits) || bits == 0 && f.count[h] < len(f.list) {
		t.Fail("tree of %v: absent %x is answered %d, the index of %x, from which it differs in the bytes examined (%032b)", f, q, i, h, bits)
	}
	if dup != (f.count[h] > 1) || i != f.lowest[h] {
		t.Fail("tree of %v: absent %x is answered %d (repeated: %v), the index of a hash listed %d times, first at %d", f, q, i, dup, f.count[h], f.lowest[h])
	}
}

// truncated: with only some levels loaded an answer is the full one, or says that levels are missing.
func (f *facts) truncated(t *vk.T, v *iht.VerifTree, probes []hash) {
	sizes := v.LevelSizes()
	if sizes == nil {
		return
	}
	total := 0
	for _, s := range sizes {
		total += s
	}
	if total != v.Bytes() {
		t.Fail("tree of %v: the levels hold %d bytes, the nodes %d", f, total, v.Bytes())
	}
	n := 0
	for l, s := range sizes {
		if s == 0 {
			break
		}
		if l > 0 {
			u := v.Truncated(n)
			for _, q := range probes {
				i, dup, _ := u.Fixed(q)
				wi, wd, bits := v.Fixed(q)
				t.Step(1)
				if i == -2 {
					if popcount(bits) < l {
						t.Fail("tree of %v: with %d levels loaded, %x is said to need more, although %d bytes decide it", f, l, q, popcount(bits))
					}
					continue
				}
				if i != wi || dup != wd {
					t.Fail("tree of %v: with %d levels loaded, %x is answered %d (repeated: %v), with all %d (repeated: %v)", f, l, q, i, dup, wi, wd)
				}
			}
		}
		n += s
	}
}

func popcount(b uint32) int {
	n := 0
	for ; b != 0; b &= b - 1 {
		n++
	}
	return n
}

func (f *facts) all(t *vk.T, v *iht.VerifTree, probes []hash) {
	over, unchanged := v.Generate(f.list, f.first)
	if over {
		t.Fail("%v do not fit a tree", f)
	}
	if !unchanged {
		t.Fail("building the tree of %v changed its input", f)
	}
	v.Serialise()
	for h := range f.count {
		f.member(t, v, h)
	}
	for _, q := range probes {
		f.probe(t, v, q)
	}
	f.truncated(t, v, probes)
}

// at puts bytes at chosen places of a hash filled with one value.
func at(fill byte, places []int, values []byte) hash {
	var h hash
	for i := range h {
		h[i] = fill
	}
	for i, p := range places {
		h[p] = values[i]
	}
	return h
}

func words(alphabet []byte, n int) [][]byte {
	out := [][]byte{{}}
	for i := 0; i < n; i++ {
		var next [][]byte
		for _, w := range out {
			for _, a := range alphabet {
				next = append(next, append(append([]byte{}, w...), a))
			}
		}
		out = next
	}
	return out
}

func neighbours(hs []hash) []hash {
	var out []hash
	for _, h := range hs {
		out = append(out, h)
		for i := 0; i < 32; i++ {
			g := h
			g[i] ^= 0x81
			out = append(out, g)
		}
	}
	return out
}

var places = [][]int{{0, 1, 2}, {29, 30, 31}, {31, 16, 0}, {7, 8, 15}}

// lists: every list, repeats included, over the words of three places.
func lists(c *vk.Ctx) {
	alphabets := [][]byte{{0, 1}, {0xff, 0x80}, {0, 0xff}}
	depth := vk.Pick(c, 5, 6)
	for pi, pl := range places {
		for ai, al := range alphabets {
			pl, al := pl, al
			if !c.Thorough() && (pi+ai)%2 == 1 {
				continue
			}
			ws := words(al, 3)
			var hs, probes []hash
			for _, w := range ws {
				hs = append(hs, at(byte(ai*7), pl, w))
			}
			for _, w := range words(append(append([]byte{}, al...), 0x42), 3) {
				probes = append(probes, at(byte(ai*7), pl, w))
			}
			// The lists of up to the depth over the words, grouped by their first two entries.
			for a := 0; a < len(hs); a++ {
				for b := -1; b < len(hs); b++ {
					a, b := a, b
					c.Case("lists", func() string {
						return fmt.Sprintf("all lists beginning with words %d, %d over %x at bytes %v", a, b, al, pl)
					}, func(t *vk.T) {
						v := iht.NewVerifTree() // one tree object, used for list after list
						one := func(l []hash) {
							f := factsOf(l, int64(len(l)%3)*1000)
							f.all(t, v, probes)
							t.State("lists", l)
						}
						if b == -1 {
							one([]hash{hs[a]})
							return
						}
						t.Nontrivial()
						for n := 2; n <= depth; n++ {
							if n == depth && (a > 1 || b > 3) && !c.Thorough() {
								continue
							}
							vk.Seqs(len(hs), n-2, func(seq []int) {
								l := []hash{hs[a], hs[b]}
								for _, s := range seq {
									l = append(l, hs[s])
								}
								one(l)
							})
						}
					})
				}
			}
		}
	}
}

// chains: hashes told apart one byte at a time, as deep as the hash is long, with each in turn repeated.
func chains(c *vk.Ctx) {
	for _, deep := range []int{0, 1, 2, 3, 15, 16, 17, 30, 31, 32} {
		for repeat := -1; repeat <= deep; repeat++ {
			for _, rev := range []bool{false, true} {
				deep, repeat, rev := deep, repeat, rev
				c.Case("chains", func() string {
					return fmt.Sprintf("%d hashes each told from the rest by one byte (from the end: %v), number %d repeated", deep+1, rev, repeat)
				}, func(t *vk.T) {
					hs := []hash{{}}
					for i := 0; i < deep; i++ {
						var h hash
						p := i
						if rev {
							p = 31 - i
						}
						h[p] = 0x90
						hs = append(hs, h)
					}
					probes := neighbours(hs)
					if repeat >= 0 {
						hs = append(hs, hs[repeat], hs[repeat])
					}
					factsOf(hs, 77).all(t, iht.NewVerifTree(), probes)
					t.State("chains", deep, repeat, rev)
					t.Nontrivial()
				})
			}
		}
	}
}

func spread(f, kind int) []byte {
	out := make([]byte, f)
	for i := range out {
		switch kind {
		case 0:
			out[i] = byte(i)
		case 1:
			out[i] = byte(256 - f + i)
		default:
			out[i] = byte(i * 256 / f)
		}
	}
	return out
}

// widthsOf: nodes of chosen widths beside one another.
func widthsOf(c *vk.Ctx) {
	run := func(fs []int, kind int, repeat bool) {
		c.Case("widths", func() string { return fmt.Sprintf("nodes of widths %v, values %d, repeats %v", fs, kind, repeat) }, func(t *vk.T) {
			var hs, probes []hash
			for i, f := range fs {
				for j, v := range spread(f, kind) {
					h := at(byte(i), []int{0, 1, 2}, []byte{byte(i*5 + kind), v, byte(i)})
					hs = append(hs, h)
					if repeat && j%7 == 3 {
						hs = append(hs, h)
					}
				}
				for v := 0; v < 256; v++ {
					probes = append(probes, at(byte(i), []int{0, 1, 2}, []byte{byte(i*5 + kind), byte(v), byte(i)}))
				}
			}
			factsOf(hs, 5).all(t, iht.NewVerifTree(), probes)
			t.State("widths", fs, kind, repeat)
			t.Nontrivial()
		})
	}
	for f := 1; f <= 256; f++ {
		for kind := 0; kind < 3; kind++ {
			run([]int{f}, kind, (f+kind)%2 == 0)
		}
	}
	ws := []int{1, 2, 3, 4, 5, 6, 89, 90, 91, 100, 105, 106, 108, 112, 118, 126, 127, 130, 131, 255, 256}
	for i, a := range ws {
		for j, b := range ws {
			if !c.Thorough() && (i+2*j)%5 != 0 {
				continue
			}
			run([]int{a, b}, (i+j)%3, j%2 == 0)
			if (i+j)%2 == 0 || c.Thorough() {
				run([]int{a, b, ws[(i*3+j)%len(ws)], 2}, j%3, i%2 == 0)
			}
		}
	}
}

// capacity: hashes and nodes share 65536 numbers. Whatever is said to fit must be found.
func capacity(c *vk.Ctx) {
	build := func(pairs, extra int) []hash {
		var hs []hash
		for i := 0; i < pairs; i++ {
			for j := 0; j < 2; j++ {
				hs = append(hs, at(3, []int{4, 9, 20}, []byte{byte(i), byte(i >> 8), byte(200 * j)}))
			}
		}
		for i := 0; i < extra; i++ { // a third hash for some of the pairs: no further node
			hs = append(hs, at(3, []int{4, 9, 20}, []byte{byte(i), byte(i >> 8), 100}))
		}
		return hs
	}
	spans := []int{21750}
	if c.Thorough() {
		spans = []int{21750, 21700, 21748}
	}
	for _, pairs := range spans {
		for d := -3; d <= 2; d++ {
			pairs, d := pairs, d
			c.CaseLimit("capacity", 120*time.Second, func() string {
				return fmt.Sprintf("%d pairs and as many single hashes as make hashes and nodes 65536%+d", pairs, d)
			}, func(t *vk.T) {
				v := iht.NewVerifTree()
				if over, _ := v.Generate(build(pairs, 0), 0); over {
					t.Fail("%d pairs do not fit", pairs)
				}
				extra := 65536 + d - 2*pairs - v.Nodes()
				if extra < 0 || extra > pairs {
					panic(fmt.Sprint("bad construction: ", v.Nodes(), extra))
				}
				f := factsOf(build(pairs, extra), 12345)
				over, _ := v.Generate(f.list, f.first)
				t.Outcome(fmt.Sprintf("total 65536%+d fits: %v", d, !over))
				t.State("capacity", pairs, d)
				t.Nontrivial()
				if over {
					if d < -1 {
						t.Fail("%v are said not to fit", f)
					}
					// What does not fit leaves an empty tree.
					if i, _ := v.Shallow(f.list[0]); i != -1 {
						t.Fail("a tree that overflowed answers %d", i)
					}
					return
				}
				v.Serialise()
				for h := range f.count {
					f.member(t, v, h)
				}
			})
		}
	}
	for _, n := range []int{65535, 65536, 70000} {
		n := n
		c.CaseLimit("capacity", 60*time.Second, func() string { return fmt.Sprintf("%d hashes", n) }, func(t *vk.T) {
			var hs []hash
			for i := 0; i < n; i++ {
				hs = append(hs, at(0, []int{3, 5, 7}, []byte{byte(i), byte(i >> 8), byte(i >> 16)}))
			}
			v := iht.NewVerifTree()
			f := factsOf(hs, 0)
			over, _ := v.Generate(hs, 0)
			if n >= 65536 && !over {
				t.Fail("%d hashes are said to fit", n)
			}
			if !over {
				v.Serialise()
				for _, h := range hs {
					f.member(t, v, h)
				}
			}
			// The same object afterwards serves a small list.
			factsOf(hs[:3], 9).all(t, v, neighbours(hs[:4]))
			t.State("capacity", n)
		})
	}
}

func empty(c *vk.Ctx) {
	c.Case("empty", func() string { return "no hashes" }, func(t *vk.T) {
		v := iht.NewVerifTree()
		factsOf(nil, 0).all(t, v, []hash{{}, {1}})
		factsOf([]hash{{1}}, 4).all(t, v, neighbours([]hash{{1}}))
		factsOf(nil, 0).all(t, v, []hash{{}, {1}})
		t.State("empty")
	})
}

// ---------------------------------------------------------------- the two trees of linked nodes

// leaf is what a tree of linked nodes must have at the end of one path.
type leaf struct {
	index int64
	path  map[int]byte // the bytes examined on the way, and their values
	depth int
}

type built struct {
	kind   string
	lookup func(q []byte) int64
	leaves []leaf
	visits int // nodes the visitor is given
	nodes  int // nodes there are
	count  int // nodes it counts
	none   int64
	whole  bool // leaves compare whole hashes
}

func clone(m map[int]byte) map[int]byte {
	n := map[int]byte{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func buildShallow(t *vk.T, hs [][]byte, idx []int64, length, r byte) *built {
	in := make([]wc.ShallowTreeHash, len(hs))
	for i, h := range hs {
		in[i] = wc.ShallowTreeHash{Hash: append([]byte{}, h...), PresentationIndex: idx[i]}
	}
	tree := wc.GenerateShallowTree(in, length, r)
	for i, h := range hs {
		if !bytes.Equal(in[i].Hash, h) || in[i].PresentationIndex != idx[i] {
			t.Fail("building a tree changed its input")
		}
	}
	b := &built{kind: "ShallowTree", lookup: tree.LookupHash, none: -1}
	var walk func(n *wc.ShallowTreeNode, path map[int]byte, depth int)
	walk = func(n *wc.ShallowTreeNode, path map[int]byte, depth int) {
		b.nodes++
		if int(n.Level) != depth {
			t.Fail("a node at depth %d says it is at level %d", depth, n.Level)
		}
		if n.LeafNode != nil {
			b.leaves = append(b.leaves, leaf{n.LeafNode.PresentationIndex, path, depth})
			return
		}
		k := int(n.SlotsNode.HashByteIndex)
		if _, again := path[k]; again {
			t.Fail("byte %d is examined twice on one path", k)
		}
		for v := range n.SlotsNode.Slots {
			if next := n.SlotsNode.Slots[v].NextNode; next != nil {
				p := clone(path)
				p[k] = byte(v)
				walk(next, p, depth+1)
			}
		}
	}
	if tree.RootSlot.NextNode != nil {
		walk(tree.RootSlot.NextNode, map[int]byte{}, 0)
	}
	tree.VisitAllNodes(func(n *wc.ShallowTreeNode) { b.visits++ })
	b.count = tree.CountNodes()
	return b
}

func buildSingle(t *vk.T, hs [][]byte, idx []int64, prefix, length, r byte) *built {
	in := make([]wcb.SingleTreeHash, len(hs))
	for i, h := range hs {
		in[i] = wcb.SingleTreeHash{Hash: append([]byte{}, h...), PresentationIndex: wcb.SingleTreePiType(idx[i])}
	}
	tree := wcb.GenerateSingleTree(in, prefix, length, r)
	b := &built{kind: "SingleTree", lookup: func(q []byte) int64 { return int64(tree.LookupHash(q)) }, none: 0, whole: true}
	var walk func(n *wcb.SingleTreeNode, path map[int]byte, depth int)
	walk = func(n *wcb.SingleTreeNode, path map[int]byte, depth int) {
		b.nodes++
		if n.LeafNode != nil {
			b.leaves = append(b.leaves, leaf{int64(n.LeafNode.PresentationIndex), path, depth})
			return
		}
		k := int(n.SlotsNode.HashByteIndex)
		if _, again := path[k]; again || k < int(prefix) {
			t.Fail("byte %d is examined twice on one path, or belongs to the prefix", k)
		}
		for v := range n.SlotsNode.Slots {
			if next := n.SlotsNode.Slots[v].NextNode; next != nil {
				p := clone(path)
				p[k] = byte(v)
				walk(next, p, depth+1)
			}
		}
	}
	if tree.RootSlot.NextNode != nil {
		walk(tree.RootSlot.NextNode, map[int]byte{}, 0)
	}
	tree.VisitAllNodes(func(n *wcb.SingleTreeNode) { b.visits++ })
	b.count = tree.CountNodes()
	return b
}

// judge compares a tree of linked nodes with the list it was built from.
func judge(t *vk.T, b *built, hs [][]byte, idx []int64, length, prefix, r int, probes [][]byte) {
	say := func(f string, a ...any) {
		l := hs
		if len(l) > 6 {
			l = l[:6]
		}
		t.Fail("%s of %d hashes %x… (length %d, prefix %d, reassurance %d): %s", b.kind, len(hs), l, length, prefix, r, fmt.Sprintf(f, a...))
	}
	if b.visits != b.nodes || b.count != b.nodes {
		say("%d nodes are there, %d visited, %d counted", b.nodes, b.visits, b.count)
	}
	of := map[int64][]byte{}
	for i, h := range hs {
		of[idx[i]] = h
	}
	seen := map[int64]*leaf{}
	for i := range b.leaves {
		l := &b.leaves[i]
		if of[l.index] == nil || seen[l.index] != nil {
			say("index %d has a leaf it should not have", l.index)
		}
		seen[l.index] = l
		for k, v := range l.path {
			if of[l.index][k] != v {
				say("the leaf of %x is reached by byte %d being %#x", of[l.index], k, v)
			}
		}
	}
	if len(seen) != len(hs) {
		say("%d leaves", len(seen))
	}
	for _, q := range probes {
		want := b.none
		for ix, l := range seen {
			ok := true
			for k, v := range l.path {
				if q[k] != v {
					ok = false
				}
			}
			left := r
			for k := prefix; k < length && ok; k++ {
				if _, done := l.path[k]; done {
					continue
				}
				if !b.whole && left == 0 {
					break
				}
				left--
				if q[k] != of[ix][k] {
					ok = false
				}
			}
			if ok {
				want = ix
				break
			}
		}
		if got := b.lookup(append([]byte{}, q...)); got != want {
			say("look-up of %x gives %d, want %d", q, got, want)
		}
		t.Step(1)
	}
}

func linked(c *vk.Ctx) {
	type space struct {
		al     []byte
		length int
	}
	spaces := []space{{[]byte{0, 1, 0xff}, 2}, {[]byte{0, 0x80}, 3}}
	if c.Thorough() {
		spaces = append(spaces, space{[]byte{0, 1}, 4}, space{[]byte{0, 1, 0x80, 0xff}, 2})
	}
	for _, sp := range spaces {
		sp := sp
		ws := words(sp.al, sp.length)
		probes := words(append(append([]byte{}, sp.al...), 0x42), sp.length)
		for mask := 0; mask < 1<<len(ws); mask++ {
			mask := mask
			c.Case("linked sets", func() string {
				return fmt.Sprintf("subset %b of the words of length %d over %x", mask, sp.length, sp.al)
			}, func(t *vk.T) {
				var hs [][]byte
				var idx []int64
				for i := range ws {
					if mask>>i&1 == 1 {
						hs = append(hs, ws[i])
						idx = append(idx, int64(40-i)) // presented in falling order of index
					}
				}
				for r := 0; r <= sp.length; r++ {
					judge(t, buildShallow(t, hs, idx, byte(sp.length), byte(r)), hs, idx, sp.length, 0, r, probes)
					judge(t, buildSingle(t, hs, idx, 0, byte(sp.length), byte(r)), hs, idx, sp.length, 0, r, probes)
				}
				t.State("linked", sp.length, sp.al, mask)
				if len(hs) > 1 {
					t.Nontrivial()
				}
			})
		}
	}
	for length := 1; length <= 64; length++ {
		for _, prefix := range []int{0, 1, length / 2, length - 1} {
			for rev := 0; rev < 2; rev++ {
				length, prefix, rev := length, prefix, rev
				if prefix >= length {
					continue
				}
				c.Case("linked chains", func() string {
					return fmt.Sprintf("hashes of length %d told apart one byte at a time after %d (reversed %d)", length, prefix, rev)
				}, func(t *vk.T) {
					base := bytes.Repeat([]byte{0x5a}, length)
					hs := [][]byte{base}
					idx := []int64{1}
					for i := prefix; i < length; i++ {
						h := append([]byte{}, base...)
						p := i
						if rev == 1 {
							p = length - 1 - (i - prefix)
						}
						h[p] = 0
						hs = append(hs, h)
						idx = append(idx, int64(i)+2)
					}
					var probes [][]byte
					for hi, h := range hs {
						for i := prefix; i < length; i++ {
							if !c.Thorough() && length > 12 && (i+hi)%5 != 0 {
								continue
							}
							g := append([]byte{}, h...)
							g[i] ^= 0x5a
							probes = append(probes, g)
						}
						probes = append(probes, h)
					}
					for _, r := range []int{0, 1, length} {
						if prefix == 0 {
							judge(t, buildShallow(t, hs, idx, byte(length), byte(r)), hs, idx, length, 0, r, probes)
						}
						judge(t, buildSingle(t, hs, idx, byte(prefix), byte(length), byte(r)), hs, idx, length, prefix, r, probes)
					}
					t.State("linked chains", length, prefix, rev)
					t.Nontrivial()
				})
			}
		}
	}
	for f := 1; f <= 256; f++ {
		f := f
		c.Case("linked widths", func() string { return fmt.Sprintf("a node of width %d", f) }, func(t *vk.T) {
			for kind := 0; kind < 3; kind++ {
				var hs, probes [][]byte
				var idx []int64
				for i, v := range spread(f, kind) {
					hs = append(hs, []byte{7, v, byte(i % 2), 9})
					idx = append(idx, int64(i+1))
				}
				for v := 0; v < 256; v += 1 {
					probes = append(probes, []byte{7, byte(v), byte(v) & 1, 9})
				}
				judge(t, buildShallow(t, hs, idx, 4, 1), hs, idx, 4, 0, 1, probes)
				judge(t, buildSingle(t, hs, idx, 1, 4, 1), hs, idx, 4, 1, 1, probes)
			}
			t.State("linked widths", f)
			t.Nontrivial()
		})
	}
}

func run(c *vk.Ctx) {
	empty(c)
	lists(c)
	chains(c)
	widthsOf(c)
	capacity(c)
	linked(c)
}

func main() {
	vk.Main(vk.Spec{
		Property: "C21",
		Rule:     "every listed hash is answered with its lowest index (and whether it is repeated); any other is answered -1, or with a hash that agrees in every byte examined; the serialised tree answers as the tree, also with only some levels loaded; in linked trees every hash is the leaf of exactly one path",
		Bounds: func(tier string) map[string]any {
			d := 5
			if tier == "thorough" {
				d = 6
			}
			return map[string]any{
				"lists":    fmt.Sprintf("lists of up to %d, repeats included, over 8 words at three byte places; 4 choices of places, 3 alphabets", d),
				"chains":   "as deep as 32 bytes, each hash in turn repeated",
				"widths":   "every node width 1..256, and tuples at the edges of the node sizes",
				"capacity": "hashes plus nodes from 65533 to 65538",
				"linked":   "all subsets of 8 or 9 words (16 in thorough), hash lengths 1..64, widths 1..256",
			}
		},
		Assumptions: []string{
			"presentation indices are consecutive in the tree with 16-bit links, and at least one for the single tree",
			"hashes given to the linked trees are distinct and agree in the prefix bytes",
		},
		Shards: 8, CaseLimit: 60 * time.Second, QuickBudget: 300 * time.Second, ThoroughBudget: 1500 * time.Second, MemLimitGB: 3,
		Run: run,
	})
}
