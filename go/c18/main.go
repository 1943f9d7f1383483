// C18: a wedding cake finds every appended hash in both directions across bakes.
package main

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"strings"
	"time"

	"github.com/KitchenMishap/pudding-shed/weddingcakefront"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

type hash = [32]byte

type reader interface {
	IndexOfHash(*hash) (int64, error)
	GetHashAtIndex(int64, *hash) error
	Close() error
}

type store interface {
	reader
	AppendHash(*hash) (int64, error)
	Sync() error
}

// creator is what every copy of the cake, real or scaled down, offers.
type creator interface {
	Exists() bool
	Create() error
	Open() (store, error)
	OpenReadOnly() (reader, error)
}

type wrap[S store, R reader] struct {
	c interface {
		HashStoreExists() bool
		CreateHashStore() error
		OpenHashStore() (S, error)
		OpenHashStoreReadOnly() (R, error)
	}
}

func (w wrap[S, R]) Exists() bool  { return w.c.HashStoreExists() }
func (w wrap[S, R]) Create() error { return w.c.CreateHashStore() }
func (w wrap[S, R]) Open() (store, error) {
	s, err := w.c.OpenHashStore()
	return s, err
}
func (w wrap[S, R]) OpenReadOnly() (reader, error) {
	r, err := w.c.OpenHashStoreReadOnly()
	return r, err
}

var kinds = map[string]func(string, byte) creator{
	"real": func(d string, r byte) creator {
		return wrap[weddingcakefront.HashReadWriter[*hash], weddingcakefront.HashReader[*hash]]{weddingcakefront.NewCakeCreator(d, r)}
	},
}

// ---------------------------------------------------------------- hashes

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

var families = []string{"spread", "last byte differs", "first byte differs", "crafted", "spread, first two bytes zero"}

// member gives the i-th hash of a family; distinct for i < 48 (any i for the spread ones).
func member(family int, i int) (h hash) {
	fill := func(from int) {
		for j := from; j < 32; j++ {
			h[j] = byte(mix(uint64(i)*32+uint64(j)) >> 16)
		}
	}
	switch family {
	case 0:
		fill(0)
	case 1:
		for j := range h {
			h[j] = byte(j)
		}
		h[31] = byte(i * 5)
	case 2:
		h[0] = byte(255 - i*5)
	case 3: // agree in nearly everything; member 0 is all zeros
		h[0] = []byte{0, 1, 255, 7}[i%4]
		h[1] = []byte{0, 255}[i/4%2]
		h[31] = []byte{0, 1, 128}[i/8%3]
		h[7] = byte(i / 24)
	case 4:
		fill(2)
	}
	return h
}

func absent(family, n int) []hash {
	var out []hash
	for i := n; i < n+6; i++ { // later members of the family, and their neighbours
		out = append(out, member(family, i))
	}
	for _, i := range []int{0, 1, n / 2, n - 1} {
		if i < 0 {
			continue
		}
		for _, j := range []int{0, 1, 2, 7, 30, 31} {
			h := member(family, i)
			h[j] ^= 0x3c
			out = append(out, h)
		}
	}
	return append(out, hash{}, hash(bytes.Repeat([]byte{0xff}, 32)))
}

// ---------------------------------------------------------------- histories

type world struct {
	t    *vk.T
	what string
	got  []hash
	at   map[hash]int64
	fam  int
}

func (w *world) check(r reader, when string) {
	n := int64(len(w.got))
	for i, h := range w.got {
		q := h
		x, err := r.IndexOfHash(&q)
		if err != nil || x != int64(i) {
			w.t.Fail("%s, %s, %d appended: hash appended at %d looks up to %d (%v)", w.what, when, n, i, x, err)
		}
		if q != h {
			w.t.Fail("%s: the look-up changed the caller's hash", w.what)
		}
		var back hash
		if err := r.GetHashAtIndex(int64(i), &back); err != nil || back != h {
			w.t.Fail("%s, %s, %d appended: index %d gives %x (%v), want %x", w.what, when, n, i, back, err, h)
		}
		w.t.Step(2)
	}
	for _, h := range absent(w.fam, len(w.got)) {
		if _, here := w.at[h]; here {
			continue
		}
		x, err := r.IndexOfHash(&h)
		if err != nil || x != -1 {
			w.t.Fail("%s, %s, %d appended: hash %x was never appended but looks up to %d (%v)", w.what, when, n, h, x, err)
		}
		w.t.Step(1)
	}
	for _, i := range []int64{n, n + 1, -1} {
		var back hash
		if err := r.GetHashAtIndex(i, &back); err == nil {
			w.t.Fail("%s, %s, %d appended: index %d gives %x", w.what, when, n, i, back)
		}
	}
}

const ( // what happens after an append
	nothing = iota
	reopen
	readonly // close, look read-only, open again
	synced
)

var events = []string{"-", "W", "R", "S"}

func history(t *vk.T, kind string, reassurance byte, fam int, after []int, look func(i int) bool) {
	dir := t.Dir()
	var name strings.Builder
	for _, e := range after {
		name.WriteString(events[e])
	}
	w := &world{t: t, what: fmt.Sprintf("cake %s, reassurance %d, family %q, after the appends %s", kind, reassurance, families[fam], name.String()), at: map[hash]int64{}, fam: fam}
	c := kinds[kind](dir, reassurance)
	if c.Exists() {
		t.Fail("%s: an empty folder is said to hold a cake", w.what)
	}
	if err := c.Create(); err != nil {
		t.Fail("%s: create: %v", w.what, err)
	}
	if !c.Exists() {
		t.Fail("%s: the created cake is said not to exist", w.what)
	}
	s, err := c.Open()
	if err != nil {
		t.Fail("%s: open: %v", w.what, err)
	}
	open := func() {
		if s, err = kinds[kind](dir, reassurance).Open(); err != nil {
			t.Fail("%s: reopen after %d: %v", w.what, len(w.got), err)
		}
	}
	shut := func(r reader) {
		if err := r.Close(); err != nil {
			t.Fail("%s: close after %d: %v", w.what, len(w.got), err)
		}
	}
	w.check(s, "empty")
	var scratch hash // the caller's one buffer, reused for every append
	for i, e := range after {
		scratch = member(fam, i)
		x, err := s.AppendHash(&scratch)
		if err != nil || x != int64(i) {
			t.Fail("%s: append %d gives index %d (%v)", w.what, i, x, err)
		}
		if scratch != member(fam, i) {
			t.Fail("%s: append %d changed the caller's hash", w.what, i)
		}
		w.got = append(w.got, scratch)
		w.at[scratch] = int64(i)
		for j := range scratch {
			scratch[j] = 0xee
		}
		t.Step(1)
		if look(i) {
			w.check(s, "after an append")
		}
		switch e {
		case reopen:
			shut(s)
			open()
			w.check(s, "after reopening")
		case readonly:
			shut(s)
			r, err := kinds[kind](dir, reassurance).OpenReadOnly()
			if err != nil {
				t.Fail("%s: open read-only after %d: %v", w.what, len(w.got), err)
			}
			w.check(r, "opened read-only")
			shut(r)
			open()
		case synced:
			if err := s.Sync(); err != nil {
				t.Fail("%s: sync: %v", w.what, err)
			}
		}
		if e != nothing || look(i) {
			t.State(kind, reassurance, fam, i, e)
		}
	}
	w.check(s, "at the end")
	shut(s)
	r, err := kinds[kind](dir, reassurance).OpenReadOnly()
	if err != nil {
		t.Fail("%s: open read-only at the end: %v", w.what, err)
	}
	w.check(r, "opened read-only at the end")
	shut(r)
	t.Nontrivial()
}

var always = func(int) bool { return true }
var never = func(int) bool { return false }

func small(c *vk.Ctx) {
	reas := []byte{0, 1, 4, 32}
	lengths := map[string]int{"c1q2": 3, "c2q2": 11, "c3q2": 11, "c2q5": 14, "c4q1": 11} // short of the first bake into the third tier
	long := map[string]int{"c1q2": 9, "c3q2": 27, "c2q5": 34, "c4q1": 28}
	k := 0
	for _, kind := range []string{"c1q2", "c2q2", "c3q2", "c2q5", "c4q1"} {
		n := lengths[kind]
		for fam := range families {
			for _, r := range reas {
				// one or two reopenings anywhere
				for a := 0; a <= n; a++ {
					for b := a; b <= n; b++ {
						k++
						if !c.Thorough() && a != b && (k+fam+int(r))%6 != 0 {
							continue
						}
						ka := 1 + k%3
						for e := 1; e <= 3; e++ {
							if !c.Thorough() && e != ka {
								continue
							}
							c.Case("small", func() string {
								return fmt.Sprintf("cake %s, reassurance %d, family %q, %d appends, %s after %d and %d", kind, r, families[fam], n, events[e], a, b)
							}, func(t *vk.T) {
								after := make([]int, n)
								if a < n {
									after[a] = e
								}
								if b < n {
									after[b] = 1 + (e+k)%2
								}
								history(t, kind, r, fam, after, always)
							})
						}
					}
				}
				c.Case("small", func() string {
					return fmt.Sprintf("cake %s, reassurance %d, family %q, %d appends, looked up only at the end; reopened after every append", kind, r, families[fam], n)
				}, func(t *vk.T) {
					history(t, kind, r, fam, make([]int, n), never)
					for e := 1; e <= 3; e++ {
						after := make([]int, n)
						for i := range after {
							after[i] = e
						}
						history(t, kind, r, fam, after, never)
					}
				})
			}
		}
		// all histories of a few appends
		vk.Seqs(3, vk.Pick(c, 5, 7), func(seq []int) {
			if len(seq) != vk.Pick(c, 5, 7) || kind == "c1q2" {
				return
			}
			after := append([]int{}, seq...)
			k++
			fam, r := k%len(families), reas[k/5%4]
			c.Case("all events", func() string {
				return fmt.Sprintf("cake %s, reassurance %d, family %q, events %v", kind, r, families[fam], after)
			}, func(t *vk.T) { history(t, kind, r, fam, after, always) })
		})
		if n := long[kind]; n > 0 {
			for fam := range families {
				if !c.Thorough() && (fam+n)%3 != 0 {
					continue
				}
				c.CaseLimit("long", 300*time.Second, func() string {
					return fmt.Sprintf("cake %s, family %q, %d appends reaching the third tier", kind, families[fam], n)
				}, func(t *vk.T) {
					after := make([]int, n)
					for i := range after {
						after[i] = []int{0, 0, 1, 0, 2}[i%5]
					}
					history(t, kind, reas[fam%4], fam, after, always)
				})
			}
		}
	}
}

// full runs the cake at its real size.
func full(c *vk.Ctx) {
	type plan struct {
		n     int
		looks []int
		again []int
	}
	plans := []plan{{65535 + 2, []int{65533, 65534, 65536}, []int{65534}}, {2*65535 + 1, nil, []int{2*65535 - 1}}}
	if c.Thorough() {
		plans = append(plans, plan{6*65535 + 10, []int{5*65535 - 1, 5 * 65535, 6 * 65535}, []int{5*65535 - 1}})
	}
	for i, p := range plans {
		for _, r := range vk.Pick(c, []byte{byte(2 * i)}, []byte{0, 1, 4}) {
			c.CaseLimit("full size", 20*time.Minute, func() string {
				return fmt.Sprintf("real cake, reassurance %d, %d appends", r, p.n)
			}, func(t *vk.T) {
				after := make([]int, p.n)
				for _, x := range p.again {
					after[x] = readonly
				}
				look := map[int]bool{}
				for _, x := range p.looks {
					look[x] = true
				}
				history(t, "real", r, 0, after, func(i int) bool { return look[i] })
			})
		}
	}
}

func main() {
	vk.Main(vk.Spec{
		Property: "C18",
		Rule:     "a history of appends, look-ups and reopenings after which a look-up in either direction differs from the list of appended hashes",
		Assumptions: []string{"appended hashes are distinct", "one handle at a time",
			"scaled-down cakes are the real source with the top tier's capacity and the tiers' forest quotas replaced by smaller numbers"},
		Bounds: func(tier string) map[string]any {
			return map[string]any{
				"scaled cakes": "top tier of 1, 2, 3 or 4 hashes, quotas of 1, 2, 3 and 5 forests: histories of 3..14 appends with up to two reopenings (for writing or read-only) or syncs at every pair of positions (quick: every position and a sixth of the pairs), after every append, and all event sequences of 5 (thorough 7) appends; five hash families, reassurance 0, 1, 4, 32; longer histories of up to 34 appends into the third tier",
				"real cake":    "65537 and 131071 appends (thorough: 393220 appends, reaching the second tier below the top)",
				"queries":      "every appended hash and index after every event, near misses and later hashes absent, indices out of range",
			}
		},
		QuickBudget:    300 * time.Second,
		ThoroughBudget: 45 * time.Minute,
		MemLimitGB:     4,
		Run: func(c *vk.Ctx) {
			debug.SetGCPercent(400)
			small(c)
			full(c)
		},
	})
}
