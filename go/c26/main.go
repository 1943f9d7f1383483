// C26: stores, and chains, used alternately in one process do not affect each other.
package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
	chain "github.com/KitchenMishap/pudding-shed/zz_verif/xchain"
)

// A party is the life of one store; it pauses between its operations.
type party func(pause func(what string)) error

// together runs parties alternately: turns says who goes first, and after how many pauses the turn passes on.
// It reports what each found, and how often each paused.
func together(turns []int, first int, ps ...party) (errs []error, steps []int) {
	errs, steps = make([]error, len(ps)), make([]int, len(ps))
	run, back := make([]chan bool, len(ps)), make(chan bool)
	over := make([]bool, len(ps))
	for i, p := range ps {
		run[i] = make(chan bool)
		go func() {
			<-run[i]
			if x := vk.Try(func() {
				errs[i] = p(func(what string) {
					steps[i]++
					back <- true
					<-run[i]
				})
			}); x != nil {
				errs[i] = fmt.Errorf("panic: %v", x)
			}
			over[i] = true
			back <- true
		}()
	}
	at, left := first, -1
	pass := func() {
		left = -1
		if len(turns) > 0 {
			left, turns = turns[0], turns[1:]
		}
	}
	pass()
	for {
		if over[at] {
			next := -1
			for i := range ps {
				if !over[i] {
					next = i
				}
			}
			if next == -1 {
				return
			}
			at = next
			continue
		}
		run[at] <- true
		<-back
		if left > 0 {
			left--
		}
		if left == 0 {
			at = (at + 1) % len(ps)
			pass()
		}
	}
}

// turns enumerates the ways of passing the turn on, at most most times, between two parties of a and b steps.
func turns(a, b, most int, f func(first int, turns []int)) {
	var rec func(who int, rest [2]int, first int, sofar []int)
	rec = func(who int, rest [2]int, first int, sofar []int) {
		if len(sofar) > 0 {
			f(first, append([]int{}, sofar...))
		}
		if len(sofar) == most {
			return
		}
		for n := 1; n <= rest[who]; n++ {
			r := rest
			r[who] -= n
			rec(1-who, r, first, append(append([]int{}, sofar...), n))
		}
	}
	for first := 0; first < 2; first++ {
		rec(first, [2]int{a, b}, first, nil)
	}
}

func (k *kind) party(dir string, seq []int, grow int) party {
	return func(pause func(string)) error {
		if err := os.MkdirAll(dir, 0755); err != nil {
			return err
		}
		m := newModel(k.lists)
		m.grow = grow
		if err := k.create(dir); err != nil {
			return fmt.Errorf("create: %v", err)
		}
		pause("create")
		s, err := k.open(dir)
		if err != nil {
			return fmt.Errorf("open: %v", err)
		}
		pause("open")
		for _, op := range seq {
			name := k.ops[op]
			switch name {
			case "sync":
				if err = s.sync(); err == nil {
					m.acked()
				}
			case "close and reopen":
				if err = s.close(); err != nil {
					break
				}
				pause("close")
				s, err = k.open(dir)
			default:
				w := k.plan(m, name)
				for _, x := range w {
					m.set(x.list, x.index, x.val)
				}
				err = s.do(name, w)
			}
			if err == nil {
				err = answers(s, m)
			}
			if err != nil {
				return fmt.Errorf("%s: %v", name, err)
			}
			pause(name)
		}
		if err = answers(s, m); err != nil {
			return err
		}
		if !isHashLists(k) {
			err = s.close()
		} else if err = s.sync(); err == nil {
			err = s.close()
		}
		if err != nil {
			return fmt.Errorf("close: %v", err)
		}
		pause("close")
		m.acked()
		got, err := k.read(dir, m)
		if err != nil {
			return fmt.Errorf("reading, with %v: %v", m, err)
		}
		return m.judge(got)
	}
}

// steps is how often a party with that history pauses.
func (k *kind) steps(seq []int) int {
	n := 3 + len(seq)
	for _, op := range seq {
		if k.ops[op] == "close and reopen" {
			n++
		}
	}
	return n
}

func isHashLists(k *kind) bool { return len(k.ops) == 3 }

// answers asks an open store for what it holds.
func answers(s store, m *model) error {
	switch s := s.(type) {
	case words:
		n, err := s.f.CountWords()
		if err != nil || n != int64(len(m.lists[0])) {
			return fmt.Errorf("%d words counted, not %d (%v)", n, len(m.lists[0]), err)
		}
		for i, v := range m.lists[0] {
			if x, err := s.f.ReadWordAt(int64(i)); err != nil || lab(x) != v {
				return fmt.Errorf("word %d is %d, not %s (%v)", i, x, v, err)
			}
		}
	case hashes:
		for i, v := range m.lists[0] {
			h, g := hashOf(v), [32]byte{}
			if at, err := s.f.IndexOfHash(&h); err != nil || at != int64(i) {
				return fmt.Errorf("hash %d is said to be at %d (%v)", i, at, err)
			}
			if err := s.f.GetHashAtIndex(int64(i), &g); err != nil || g != h {
				return fmt.Errorf("hash %d is %x, not %x (%v)", i, g[:4], h[:4], err)
			}
		}
		h := hashOf("777777")
		if at, err := s.f.IndexOfHash(&h); err != nil || at != -1 {
			return fmt.Errorf("a hash never stored is said to be at %d (%v)", at, err)
		}
	case ints:
		for l, key := range intKeys {
			got, err := s.m.GetArray(key)
			if err != nil {
				return fmt.Errorf("list %d: %v", l, err)
			}
			bad := len(got) != len(m.lists[l])
			for i := 0; !bad && i < len(got); i++ {
				bad = lab(got[i]) != m.lists[l][i]
			}
			if bad {
				return fmt.Errorf("list %d is %v, not %v", l, got, m.lists[l])
			}
		}
	}
	return nil
}

var (
	thorough bool
	pairs    int
	only     = os.Getenv("C26_ALONE") // which party of which pair this process is for
)

func pick[T any](q, t T) T {
	if thorough {
		return t
	}
	return q
}

// alone says whether a party finds nothing wrong in a process of its own, and what files it leaves.
func alone(pair, which int) (ok bool, left string) {
	out, err := os.CreateTemp("", "files")
	vk.Must(err)
	out.Close()
	defer os.Remove(out.Name())
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "C26_ALONE="+fmt.Sprint(pair, which), fmt.Sprintf("C26_THOROUGH=%v", thorough), "C26_FILES="+out.Name())
	if cmd.Run() != nil {
		return false, ""
	}
	b, err := os.ReadFile(out.Name())
	vk.Must(err)
	return true, string(b)
}

// files lists the files of a folder, with digests of what they hold.
func files(dir string) string {
	var l []string
	vk.Must(filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		sum := ""
		if !d.IsDir() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			sum = fmt.Sprintf(" %d bytes, %x", len(b), sha256.Sum256(b))
		}
		l = append(l, p[len(dir):]+sum)
		return nil
	}))
	return strings.Join(l, "\n")
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return fmt.Sprintf("%q rather than %q", x[i], y[i])
		}
	}
	return fmt.Sprintf("%d files rather than %d", len(x), len(y))
}

// pair interleaves two parties of na and nb steps. Split makes a case of each place where the turn first passes on.
func pair(c *vk.Ctx, group string, a, b func(dir string) party, na, nb int, desc string, most int, split bool) {
	type way struct {
		first int
		turns []int
	}
	var ways [][]way
	turns(na, nb, most, func(first int, turns []int) {
		if len(ways) == 0 || split && len(turns) == 1 {
			ways = append(ways, nil)
		}
		ways[len(ways)-1] = append(ways[len(ways)-1], way{first, turns})
	})
	pairs++
	this := pairs
	if only != "" {
		for which, p := range []func(string) party{a, b} {
			if only == fmt.Sprint(this, which) {
				dir, err := os.MkdirTemp("", "alone")
				vk.Must(err)
				errs, _ := together(nil, 0, p(dir))
				f := files(dir)
				os.RemoveAll(dir)
				if errs[0] != nil {
					os.Exit(1)
				}
				vk.Must(os.WriteFile(os.Getenv("C26_FILES"), []byte(f), 0644))
				os.Exit(0)
			}
		}
		return
	}
	names := []string{"first", "second"}
	for n, ws := range ways {
		c.Case(group, func() string {
			return fmt.Sprintf("%s (%d of %d: the %s goes first, for %d operations)", desc, n+1, len(ways), names[ws[0].first], ws[0].turns[0])
		}, func(t *vk.T) {
			// for some, the files left are compared with those left by processes of their own
			against := group == "different kinds" || group == "chains" && n == 0
			var left [2]string
			if against {
				var ok [2]bool
				for i := range ok {
					ok[i], left[i] = alone(this, i)
				}
				if !ok[0] || !ok[1] {
					t.Outcome("fails alone")
					return
				}
			}
			for run, w := range ws {
				dir := filepath.Join(t.Dir(), fmt.Sprint("run", run))
				errs, steps := together(w.turns, w.first, a(filepath.Join(dir, "a")), b(filepath.Join(dir, "b")))
				for i, err := range errs {
					if err == nil {
						continue
					}
					ok0, _ := alone(this, 0)
					if ok1, _ := alone(this, 1); !ok0 || !ok1 {
						t.Outcome("fails alone") // which is not this property's
						return
					}
					t.FailKey(group, "%s; the %s goes first, and the turn passes after %v operations: the %s: %v", desc,
						names[w.first], w.turns, names[i], err)
				}
				if against {
					for i, side := range []string{"a", "b"} {
						if got := files(filepath.Join(dir, side)); got != left[i] {
							t.FailKey(group, "%s; the %s goes first, and the turn passes after %v operations: the files of the %s are not those it leaves when alone: %s", desc,
								names[w.first], w.turns, names[i], firstDiff(got, left[i]))
						}
					}
				}
				if steps[0] != na || steps[1] != nb {
					panic(fmt.Sprintf("%s: %v steps, not %d and %d", desc, steps, na, nb))
				}
				os.RemoveAll(dir)
				t.State(desc, w.first, fmt.Sprint(w.turns))
				t.Step(na + nb)
				if run%200 == 199 {
					runtime.GC()
				}
			}
			t.Nontrivial()
			t.Outcome("unaffected")
			t.Extra("interleavings", int64(len(ws)))
		})
	}
}

// others are kinds that differ from C23's in their sizes only.
func others() []*kind {
	intDigits = [2]int64{2, 3}
	a := intsKind(true, 1000)
	intDigits = [2]int64{3, 2}
	b := intsKind(false, 0)
	intDigits = [2]int64{1, 1}
	a.name += ", other digits"
	b.name += ", other digits"
	return []*kind{a, b,
		ihKind("hash store, other sizes", func(dir string) ih.HashStoreCreator {
			cr, err := ih.NewConcreteHashStoreCreator("h", dir, 3, 4, 3, false, true)
			vk.Must(err)
			return cr
		}),
		ihKind("binned hash store, other sizes", func(dir string) ih.HashStoreCreator {
			return indexedhashes3.NewHashStoreCreatorPrivate(indexedhashes3.NewHashStoreParams(16, 2, 1, 4, 2, 2), dir, false)
		}),
	}
}

func stores(c *vk.Ctx) {
	ks := append(append(others(), kinds()...), bakedKinds()...)
	for i, k := range ks {
		seqs := func(depth int, f func(seq []int)) { vk.Seqs(len(k.ops), depth, f) }
		one := func(depthA, depthB, most int, grows ...int) {
			seqs(depthA, func(sa []int) {
				sa = append([]int{}, sa...)
				seqs(depthB, func(sb []int) {
					sb = append([]int{}, sb...)
					for _, grow := range grows {
						pair(c, k.name, func(dir string) party { return k.party(dir, sa, 0) }, func(dir string) party { return k.party(dir, sb, grow) },
							k.steps(sa), k.steps(sb),
							fmt.Sprintf("%s: [%s] beside [%s] (values from %d)", k.name, vk.Names(k.ops, sa), vk.Names(k.ops, sb), grow), most, false)
					}
				})
			})
		}
		if i < len(others()) && !thorough {
			one(1, 1, 2, 100)
		} else if baked[k.name] && !thorough {
			if i < len(ks)-1 {
				one(1, 1, 1, 100)
			} // (the last, which holds two hashes in its top tier, has nothing to bake yet)
		} else {
			one(1, 1, pick(3, 20), 0) // thorough: all interleavings
			one(2, 1, pick(1, 4), 100)
		}
		if thorough {
			one(2, 1, 2, 0)
			one(2, 2, 3, 100)
		}
		for _, sa := range k.long {
			if len(sa) > 12 {
				continue
			}
			for j, sb := range k.long {
				if len(sb) > 12 || baked[k.name] && !thorough && j != 0 {
					continue
				}
				pair(c, k.name, func(dir string) party { return k.party(dir, sa, 0) }, func(dir string) party { return k.party(dir, sb, 0) }, k.steps(sa), k.steps(sb),
					fmt.Sprintf("%s: [%s] beside [%s]", k.name, vk.Names(k.ops, sa), vk.Names(k.ops, sb)), pick(1, 2), true)
			}
		}
		// beside the other kinds
		for _, l := range ks[:i] {
			sa, sb := []int{0, 0}, []int{0, 0}
			pair(c, "different kinds", func(dir string) party { return k.party(dir, sa, 0) }, func(dir string) party { return l.party(dir, sb, 0) }, k.steps(sa), l.steps(sb),
				fmt.Sprintf("%s [%s] beside %s [%s]", k.name, vk.Names(k.ops, sa), l.name, vk.Names(l.ops, sb)), pick(2, 3), false)
		}
	}
}

func life(r chain.Route, ops []int) func(dir string) party {
	w := chain.Describe(chain.Of(ops))
	return func(dir string) party {
		return func(pause func(string)) error {
			if err := os.MkdirAll(dir, 0755); err != nil {
				return err
			}
			if err := r.Hashes(w, dir); err != nil {
				return err
			}
			if err := r.Index(w, dir, 1); err != nil {
				return err
			}
			pause("hashes indexed")
			ac, ind, err := r.Store(dir)
			if err != nil {
				return err
			}
			pause("store opened")
			if err = r.Append(w, ac, ind, func(n int) error {
				pause("block appended")
				if n%2 == 1 {
					return chain.PassingFacts(chain.Live(ac), w, r, n)
				}
				return nil
			}); err != nil {
				return err
			}
			if err = ac.Sync(); err != nil {
				return err
			}
			ac.Close()
			v, err := chain.Open(r, dir)
			if err != nil {
				return err
			}
			pause("opened to read")
			return chain.Facts(v, w, r, len(w.Blocks))
		}
	}
}

func chains(c *vk.Ctx) {
	routes := []chain.Route{
		{Iface: "cri", Holder: "model", Ids: "path", Blk: chain.BlkInts, Trn: chain.TrnInts},
		{Iface: "chi", Holder: "model", Blk: chain.BlkInts[:2], Trn: chain.TrnInts[:1], SyncEvery: 2},
		{Iface: "cri", Holder: "model", Ids: "hash", Direct: true, Blk: []string{"nonce"}, Trn: []string{"locktime"}},
		{Iface: "chi", Holder: "model", Direct: true, Blk: []string{"nonce"}, Trn: []string{"locktime"}},
		{Iface: "cri", Holder: "intrinsic", Blk: chain.HolderBlk[:1], Trn: chain.HolderTrn[:1]},
		{Iface: "chi", Holder: "intrinsic", Blk: chain.HolderBlk[:1], Trn: chain.HolderTrn[:1], Adaptive: true},
	}
	worlds := [][]int{{0, 1}, {1, 3}}
	if thorough {
		worlds = append(worlds, []int{0, 1, 3, 4, 1}, []int{1, 3, 1, 0})
	}
	for i, ra := range routes {
		for j, rb := range routes {
			for x, wa := range worlds {
				for y, wb := range worlds {
					if !thorough && (i > j || i < j && (x != 0 || y != 1) || i == j && (x != 0 || y != (i+1)%2)) {
						continue
					}
					most := pick(1, 2)
					if i == j && (i < 2 || thorough) {
						most++
					}
					pair(c, "chains", life(ra, wa), life(rb, wb), 3+len(chain.Of(wa)), 3+len(chain.Of(wb)), fmt.Sprintf("a chain %v by %v beside a chain %v by %v", wa, ra, wb, rb), most, true)
				}
			}
		}
	}
}

func main() {
	if only != "" {
		thorough = os.Getenv("C26_THOROUGH") == "true"
		stores(nil)
		chains(nil)
		os.Exit(3)
	}
	vk.Main(vk.Spec{
		Property: "C26",
		Rule:     "one case per pair of histories; its steps are interleaved in every way up to the bound on how often the turn passes",
		Bounds: func(tier string) map[string]any {
			b := map[string]any{}
			for _, k := range append(append(others(), kinds()...), bakedKinds()...) {
				b[k.name] = fmt.Sprintf("pairs of histories out of %v: one operation beside one, in all interleavings with up to 3 passes of the turn (thorough: in all); two beside one (thorough: two beside two), in those with one pass of the turn (thorough: 4, 3)", k.ops)
			}
			b["chains"] = "all pairs of six ways of storing a chain of 2 or 3 blocks; the turn passes once, for two of the same way up to twice (thorough: twice and three times, four worlds)"
			return b
		},
		Assumptions: []string{
			"The two are used by one goroutine at a time (concurrent use is C16's and C17's)",
			"Each is in a folder of its own",
		},
		Shards: 8, CaseLimit: 120 * time.Second, QuickBudget: 200 * time.Second, ThoroughBudget: 14 * time.Minute, MemLimitGB: 3,
		Run: func(c *vk.Ctx) {
			thorough = c.Thorough()
			stores(c)
			chains(c)
		},
	})
}
