// C16: the ingestion pipelines store the same whatever the interface, format, worker count and schedule.
package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"time"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"github.com/KitchenMishap/pudding-shed/jobs"
	"github.com/KitchenMishap/pudding-shed/transactionindexing"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vsched"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vx"
	chain "github.com/KitchenMishap/pudding-shed/zz_verif/xchain"
	"github.com/KitchenMishap/pudding-shed/zz_verif/xnode"
)

type setting struct {
	iface   string
	json    bool
	threads int
}

func (s setting) String() string {
	f := "binary"
	if s.json {
		f = "JSON"
	}
	return fmt.Sprintf("%s, %s, %d workers", s.iface, f, s.threads)
}

func (s setting) one(dir string, n int) error {
	if s.iface == "cri" {
		return jobs.PhaseOneParallelIntrinsic(dir, s.json, int64(n), 1000, s.threads, "\n")
	}
	return jobs.PhaseOneParallelIntrinsicChi(dir, s.json, int64(n), 1000, s.threads, "\n")
}

func (s setting) three(n int, ac chainstorage.IAppendableChain, ind transactionindexing.ITransactionIndexer) error {
	if s.iface == "cri" {
		return jobs.PhaseThreeParallelIntrinsic(int64(n), s.json, 1000, ac, ind, s.threads, "\n")
	}
	return jobs.PhaseThreeParallelIntrinsicChi(int64(n), s.json, 1000, ac, ind, s.threads, "\n")
}

// store is the route that describes what the pipelines are asked to store.
var store = chain.Route{Iface: "cri", Holder: "model", Blk: chain.HolderBlk, Trn: chain.HolderTrn, Ram: true}

// snapshot is the content of every file below dir.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	vk.Must(filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !i.IsDir() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(dir, p)
			s := sha256.Sum256(b)
			m[rel] = string(s[:])
		}
		return nil
	}))
	return m
}

func differ(a, b map[string]string) string {
	var d []string
	for k, v := range a {
		if b[k] != v {
			d = append(d, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, k)
		}
	}
	sort.Strings(d)
	return fmt.Sprint(d)
}

func copyTree(from, to string) {
	vk.Must(filepath.Walk(from, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if i.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0644)
	}))
}

// read checks a finished store against the chain.
func read(dir string, w *chain.World) error {
	v, err := chain.Open(store, dir)
	if err != nil {
		return err
	}
	if err := chain.Facts(v, w, store, len(w.Blocks)); err != nil {
		return err
	}
	return nil
}

// world is the chain of the first n blocks, and a node that knows more.
func world(seq []int, n int) (*chain.World, *xnode.Node) {
	bl := chain.Of(seq)
	if n <= 0 || n > len(bl) {
		n = len(bl)
	}
	return chain.Describe(bl[:n]), xnode.New(bl, 3)
}

func schedules(c *vk.Ctx, seq []int, s setting, phase, pre, runs int) {
	desc := func() string {
		return fmt.Sprintf("phase %d, %s, %s, preemptions %d", phase, s, chain.Name(seq), pre)
	}
	c.CaseLimit(fmt.Sprintf("schedules of phase %d", phase), 14*time.Minute, desc, func(t *vk.T) {
		w, node := world(seq, 0)
		node.Use()
		n := len(w.Blocks)
		base := t.Dir()
		dir := filepath.Join(base, "run")
		var err error
		if phase == 1 {
			vx.Explore(t, vx.Options{Preempt: pre, MaxRuns: runs, MaxSteps: 20000, Note: desc()}, func() {
				vk.Must(os.RemoveAll(dir))
				vk.Must(os.MkdirAll(dir, 0755))
				node.Reset()
				err = nil
			}, func() { err = s.one(dir, n) }, func(vsched.Run) string {
				if err != nil {
					return "failed: " + err.Error()
				}
				if err := chain.CheckHashes(w, dir); err != nil {
					return err.Error()
				}
				if l := left(node); l != "" {
					return l
				}
				return ""
			})
			t.Nontrivial()
			return
		}
		src := filepath.Join(base, "src")
		ref := filepath.Join(base, "ref")
		vk.Must(os.MkdirAll(src, 0755))
		vk.Must(setting{"cri", false, 1}.one(src, n))
		vk.Must(chain.CheckHashes(w, src))
		vk.Must(store.Index(w, src, 1))
		copyTree(src, ref)
		ac, ind, e := store.Store(ref)
		vk.Must(e)
		if e := (setting{"cri", false, 1}).three(n, ac, ind); e != nil {
			t.Fail("reference run: %v", e)
		}
		chain.AllAddresses = true
		defer func() { chain.AllAddresses = false }()
		if e := read(ref, w); e != nil {
			t.Fail("reference run: %v", e)
		}
		want := snapshot(ref)
		vx.Explore(t, vx.Options{Preempt: pre, MaxRuns: runs, MaxSteps: 20000, Note: desc()}, func() {
			vk.Must(os.RemoveAll(dir))
			copyTree(src, dir)
			var e error
			ac, ind, e = store.Store(dir)
			vk.Must(e)
			node.Reset()
			err = nil
		}, func() { err = s.three(n, ac, ind) }, func(vsched.Run) string {
			if err != nil {
				return "failed: " + err.Error()
			}
			if got := snapshot(dir); differ(got, want) != "[]" {
				// the files may differ as long as everything reads back right
				if err := read(dir, w); err != nil {
					return fmt.Sprintf("%v (files that differ from the reference run's: %s)", err, differ(got, want))
				}
			}
			return left(node)
		})
		t.Nontrivial()
	})
}

func left(n *xnode.Node) string {
	if o := n.Open.Load(); o != 0 {
		n.Open.Store(0)
		return fmt.Sprintf("%d answers of the node were never closed", o)
	}
	return ""
}

// full runs all phases natively and reads everything back.
func full(t *vk.T, w *chain.World, node, node3 *xnode.Node, one, three setting, adaptive bool) {
	node.Use()
	dir := t.Dir()
	n := len(w.Blocks)
	if err := one.one(dir, n); err != nil {
		t.Fail("phase 1: %v", err)
	}
	if err := chain.CheckHashes(w, dir); err != nil {
		t.Fail("after phase 1: %v", err)
	}
	r := store
	r.Adaptive = adaptive
	vk.Must(r.Index(w, dir, one.threads))
	ac, ind, err := r.Store(dir)
	vk.Must(err)
	node3.Use()
	if err := three.three(n, ac, ind); err != nil {
		t.Fail("phase 3: %v", err)
	}
	if err := read(dir, w); err != nil {
		t.Fail("after phase 3: %v", err)
	}
	for _, n := range []*xnode.Node{node, node3} {
		if l := left(n); l != "" {
			t.Fail("%s", l)
		}
	}
	t.Step(chain.Reads)
	t.State(w.Blocks[n-1].Hash, one, three)
}

func enumerate(c *vk.Ctx) {
	var settings []setting
	for _, i := range []string{"cri", "chi"} {
		for _, j := range []bool{false, true} {
			for _, th := range []int{1, 2, 3, 8} {
				settings = append(settings, setting{i, j, th})
			}
		}
	}
	// schedules
	n := 0
	for _, s := range settings {
		if s.threads > 3 || (s.json && s.threads != 2) {
			continue
		}
		for _, seq := range [][]int{{}, {1}, {1, 5, 3}, {1, 0, 4}, {0, 1, 3, 6}} {
			schedules(c, seq, s, 1, -1, vk.Pick(c, 250, 20000))
			schedules(c, seq, s, 3, -1, vk.Pick(c, 60, 4000))
		}
		seq := []int{1, 3, 0, 5, 2, 4, 1}
		if n++; n%2 == 0 || c.Thorough() {
			schedules(c, seq, s, 1, -1, vk.Pick(c, 250, 20000))
		} else {
			schedules(c, seq, s, 3, -1, vk.Pick(c, 60, 4000))
		}
		if c.Thorough() {
			schedules(c, seq, s, 3, -1, 4000)
		}
	}
	settingsCases(c, settings)
}

func settingsCases(c *vk.Ctx, settings []setting) {
	// every order in which the downloads can complete
	five := []int{1, 3, 0, 5, 2, 4, 1}
	vk.Perms(5, func(p []int) {
		perm := append([]int(nil), p...)
		for k, ph := range []int{1, 3} {
			if !c.Thorough() && (perm[0]+perm[1]+perm[3]+k)%2 == 0 {
				continue
			}
			s := settings[(perm[0]*7+perm[1]*3+perm[2]+k*5)%len(settings)]
			s.threads = 5
			c.CaseLimit("completion orders", 60*time.Second, func() string {
				return fmt.Sprintf("phase %d, %s, blocks answered in the order %v", ph, s, perm)
			}, func(t *vk.T) {
				w, node := world(five, 5)
				var mu sync.Mutex
				cond := sync.NewCond(&mu)
				next := 0
				gate := func(r xnode.Request) {
					if r.Kind != "block" {
						return
					}
					mu.Lock()
					for perm[next] != r.Height {
						cond.Wait()
					}
					next++
					cond.Broadcast()
					mu.Unlock()
					time.Sleep(time.Millisecond)
				}
				_, plain := world(five, 5)
				if ph == 1 {
					node.Gate = gate
					full(t, w, node, plain, s, setting{"cri", false, 1}, false)
				} else {
					node.Gate = gate
					full(t, w, plain, node, setting{"chi", false, 5}, s, false)
				}
				t.Nontrivial()
			})
		}
	})
	// one block's answer held back until many others have come
	for _, hold := range []int{0, 1, 7} {
		for _, th := range []int{2, 4} {
			for i, iface := range []string{"cri", "chi"} {
				s := setting{iface, i == 0, th}
				c.CaseLimit("held back", 120*time.Second, func() string {
					return fmt.Sprintf("%s, block %d answered only when nothing else moves", s, hold)
				}, func(t *vk.T) {
					var seq []int
					for i := 0; i < vk.Pick(c, 130, 1200); i++ {
						seq = append(seq, i%2)
						if i%20 == 3 {
							seq = append(seq, 3)
						}
					}
					w, node := world(seq, 0)
					var mu sync.Mutex
					moved := time.Now()
					node.Gate = func(r xnode.Request) {
						if r.Kind == "block" && r.Height == hold {
							for {
								time.Sleep(5 * time.Millisecond)
								mu.Lock()
								d := time.Since(moved)
								mu.Unlock()
								if d > 60*time.Millisecond {
									break
								}
							}
						}
						mu.Lock()
						moved = time.Now()
						mu.Unlock()
					}
					full(t, w, node, node, s, s, false)
					t.Nontrivial()
				})
			}
		}
	}
	// many workers
	for i, th := range []int{9, 17, 33, 64, 100} {
		for k, iface := range []string{"cri", "chi"} {
			s := setting{iface, (i+k)%2 == 0, th}
			c.CaseLimit("many workers", 120*time.Second, func() string { return s.String() }, func(t *vk.T) {
				seq := []int{}
				for i := 0; i < 90; i++ {
					seq = append(seq, []int{1, 0, 4, 2, 3, 5, 0}[i*i%7])
				}
				w, node := world(seq, 0)
				full(t, w, node, node, s, s, false)
				t.Nontrivial()
			})
		}
	}
	// every setting on chains of many shapes
	depth := vk.Pick(c, 2, 4)
	n := 0
	for d := 1; d <= depth; d++ {
		vk.Seqs(len(chain.Ops), d, func(q []int) {
			seq := append([]int(nil), q...)
			n++
			for i := range settings {
				if d > 1 && i != n%len(settings) {
					continue
				}
				one, three := settings[i], settings[(i*5+n)%len(settings)]
				c.CaseLimit("settings", 60*time.Second, func() string {
					return fmt.Sprintf("phase 1: %s; phase 3: %s; %s", one, three, chain.Name(seq))
				}, func(t *vk.T) {
					w, node := world(seq, 0)
					full(t, w, node, node, one, three, n%2 == 0)
					if len(w.Blocks) > 1 {
						t.Nontrivial()
					}
				})
			}
		})
	}
	// progress reports must not end the job, wherever they go
	for _, to := range []string{"file", "pipe", "/dev/null", "closed pipe's writer"} {
		for _, items := range [][]int64{{1}, {0, 0, 5}, {3, 3, 9, 20}} {
			c.Case("progress", func() string { return fmt.Sprintf("progress %v reported to a %s", items, to) }, func(t *vk.T) {
				old := os.Stdout
				defer func() { os.Stdout = old }()
				switch to {
				case "file":
					f, err := os.Create(filepath.Join(t.Dir(), "out"))
					vk.Must(err)
					defer f.Close()
					os.Stdout = f
				case "/dev/null":
					f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
					vk.Must(err)
					defer f.Close()
					os.Stdout = f
				default:
					r, w, err := os.Pipe()
					vk.Must(err)
					defer r.Close()
					defer w.Close()
					if to != "pipe" {
						w.Close()
					}
					os.Stdout = w
				}
				// an interval of no time stands for one that has passed
				p := jobs.NewProgress(0, 10, 0, "things", "task", "\n")
				for _, i := range items {
					time.Sleep(time.Millisecond)
					if e := vk.Try(func() { p.Update(i) }); e != nil {
						t.Fail("reporting progress panicked: %v", e)
					}
				}
				t.Step(len(items))
				t.State(to, items)
			})
		}
	}
	// the whole job, as run from the command line
	for i, iface := range []string{"cri", "chi"} {
		for _, limit := range []int{1, 3, 5} {
			for _, method := range []bool{false, true} {
				c.CaseLimit("job", 120*time.Second, func() string {
					return fmt.Sprintf("%s: phases 2 and 3 of the job, adaptive %v, first %d of 5 blocks", iface, method, limit)
				}, func(t *vk.T) {
					w, node := world(five, 5)
					node.Use()
					dir := t.Dir()
					vk.Must(setting{iface, false, 2}.one(dir, 5))
					if err := jobs.RunIntrinsic(dir, i == 0, "delegated", 2, 2, 1, false, true, true, int64(limit), true, iface == "chi", method); err != nil {
						t.Fail("%v", err)
					}
					v, err := chain.Open(store, dir)
					vk.Must(err)
					// (with a limit, what it leaves out is not looked at)
					if err := chain.Facts(v, w, store, limit); err != nil {
						t.Fail("%v", err)
					}
					t.Nontrivial()
				})
			}
		}
	}
}

func main() {
	vk.Main(vk.Spec{
		Property: "C16",
		Rule:     "whatever the interface, download format, workers and schedule, ingestion ends and stores the same hashes in order and a store that answers alike",
		Bounds: func(tier string) map[string]any {
			return map[string]any{
				"schedules":         "phases 1 and 3 of both interfaces, with 1-3 workers, binary and (2 workers) JSON, on chains of 1-5 blocks: every schedule up to equivalence, within 250 (thorough: 20000) schedules per configuration of phase 1 and 60 (4000) of phase 3; the tally says how many were explored completely",
				"completion orders": "all 120 orders in which five concurrent downloads can be answered, in phase 1 or 3 (thorough: both)",
				"held back":         "one block's answer withheld until all else has stopped, chains of 130 (thorough: 1200) blocks, so that the backlog valve closes",
				"settings":          "every chain of one step through all of 2 interfaces x 2 formats x 1, 2, 3, 8 workers, of two (thorough: up to four) steps through one in turn, each phase with its own",
				"many workers":      "9 to 100 on a chain of 90 blocks, uncontrolled",
				"job":               "the job's own phases 2 and 3 with both index builders, both formats and interfaces, whole and cut short",
				"race detector":     "on for all of it",
			}
		},
		Assumptions: []string{
			"code between channel, lock and wait-group operations runs as one step in explored schedules; the race detector watches for what that hides",
			"the node answers without faults (C17 covers faults)",
			"the JSON and binary forms are of the same blocks",
		},
		CaseLimit: 60 * time.Second, QuickBudget: 200 * time.Second, ThoroughBudget: 13 * time.Minute, MemLimitGB: 8,
		Run: enumerate,
	})
}
