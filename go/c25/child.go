package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"time"

	ih "github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vfault"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
	chain "github.com/KitchenMishap/pudding-shed/zz_verif/xchain"
)

// Work that starts goroutines is run by a process of its own, which an error anywhere may end.

type job struct {
	Name   string
	Dir    string
	Target *vfault.Call
	Mode   vfault.Mode
	Buffer int
	Out    string // where the calls are to be listed
}

const quiet, told = 0, 9 // how a job ends that reported nothing, or an error

func child() {
	var j job
	if err := json.Unmarshal([]byte(os.Getenv("C25_JOB")), &j); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	bufio.VerifWriteBuffer = j.Buffer
	in := vfault.New(j.Dir, j.Target, j.Mode)
	var err error
	in.Run(func() { err = works[j.Name].do(j.Dir) })
	if j.Out != "" {
		b, _ := json.Marshal(in.Calls)
		if err := os.WriteFile(j.Out, b, 0644); err != nil {
			os.Exit(3)
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "reported:", err)
		os.Exit(told)
	}
	os.Exit(quiet)
}

type ending_ struct {
	told, hung bool
	text       string
}

func (j job) run() ending_ {
	b, _ := json.Marshal(j)
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0])
	cmd.Env = append(os.Environ(), "C25_JOB="+string(b))
	var tail tailer
	cmd.Stderr = &tail
	err := cmd.Run()
	e := ending_{text: string(tail.b)}
	if ctx.Err() != nil {
		e.hung = true
		return e
	}
	var x *exec.ExitError
	if errors.As(err, &x) {
		if x.ExitCode() == 3 {
			panic("child: " + e.text)
		}
		e.told = true // reported, or died loudly
	} else if err != nil {
		panic(err)
	}
	return e
}

type tailer struct{ b []byte }

func (t *tailer) Write(p []byte) (int, error) {
	if len(t.b) < 600 {
		t.b = append(t.b, p[:min(len(p), 600-len(t.b))]...)
	}
	return len(p), nil
}

// A work is done in a folder prepared for it, and leaves something that can be verified.
type work struct {
	prepare func(dir string)
	do      func(dir string) error
	verify  func(dir string) error // a wrong answer is of type wrong; anything else was reported
}

var works = map[string]work{}
var workNames []string

func addWork(name string, w work) {
	works[name] = w
	workNames = append(workNames, name)
}

// hashes for the index builders: three in one bin and more, so that bins overflow
func someHashes(n int) (hs [][32]byte) {
	for i := 0; i < n; i++ {
		var h [32]byte
		switch i % 3 {
		case 0:
			h[7] = byte(i) // (the first bytes decide the bin)
			h[3] = 1
		case 1:
			h[7] = 0x40
			h[0] = byte(i)
		default:
			h[7] = byte(200 + i%50)
		}
		h[20], h[31] = byte(i), byte(i*7+1)
		hs = append(hs, h)
	}
	return
}

func answers(r ih.HashReader, hs [][32]byte) error {
	n, err := r.CountHashes()
	if err != nil {
		return err
	}
	if n != int64(len(hs)) {
		return wrongf("%d hashes counted, not %d", n, len(hs))
	}
	for i, h := range hs {
		if len(hs) > 20 && i > 1 && i != 101 && i < len(hs)-1 && i%37 != 0 {
			continue
		}
		q := ih.Sha256(h)
		at, err := r.IndexOfHash(&q)
		if err != nil {
			return err
		}
		if at != int64(i) {
			return wrongf("hash %d is said to be at %d", i, at)
		}
		var back ih.Sha256
		if err := r.GetHashAtIndex(int64(i), &back); err != nil {
			return err
		}
		if back != q {
			return wrongf("hash %d reads %x", i, back)
		}
		q[31] ^= 1
		if at, err := r.IndexOfHash(&q); err == nil && at != -1 {
			return wrongf("a hash that is not there is said to be at %d", at)
		}
	}
	return nil
}

func putHashes(dir string, hs [][32]byte) {
	var raw []byte
	for _, h := range hs {
		raw = append(raw, h[:]...)
	}
	vk.Must(os.MkdirAll(filepath.Join(dir, "idx"), 0755))
	vk.Must(os.WriteFile(filepath.Join(dir, "idx", "Hashes.hsh"), raw, 0644))
}

func init() {
	// the bulk-built uniform index: a bin holds 102, so that some overflow
	var many [][32]byte
	for i := 0; i < 240; i++ {
		h := someHashes(i + 1)[i]
		if i < 230 {
			h[4], h[5], h[6], h[7] = 0, 0, 0, byte(i%2) // two full bins
		}
		h[21] = byte(i >> 3)
		many = append(many, h)
	}
	for _, passes := range []int64{2, 1000} {
		addWork(fmt.Sprintf("building the uniform index, %d bins to a pass", passes), work{
			prepare: func(dir string) { putHashes(dir, many) },
			do: func(dir string) error {
				c := ih.NewUniformHashStoreCreatorPrivate(5*75, dir, "idx", 2)
				return ih.NewMultipassPreloader(c, passes*832).IndexTheHashes()
			},
			verify: func(dir string) error {
				c, _, err := ih.NewUniformHashStoreCreatorAndPreloaderFromFile(dir, "idx", 1)
				if err != nil {
					return err
				}
				r, err := c.OpenHashStoreReadOnly()
				if err != nil {
					return err
				}
				defer r.Close()
				return answers(r, many)
			},
		})
	}
	few := someHashes(14)
	for _, threads := range []int{1, 2} {
		params := func() *indexedhashes3.HashIndexingParams {
			return indexedhashes3.NewHashStoreParams(17, 4, 2, 4, 2, 8)
		}
		open := func(dir string) error {
			cr, err := indexedhashes3.NewHashStoreCreatorFromFile(dir, "idx", threads == 2)
			if err != nil {
				return err
			}
			r, err := cr.OpenHashStoreReadOnly()
			if err != nil {
				return err
			}
			defer r.Close()
			return answers(r, few)
		}
		addWork(fmt.Sprintf("building the binned index in fixed passes, %d threads", threads), work{
			prepare: func(dir string) { putHashes(dir, few) },
			do: func(dir string) error {
				ba := indexedhashes3.NewBinsArray(1, params().BytesPerBinEntry(), 3)
				_, p, err := indexedhashes3.NewHashStoreCreatorAndPreloader(dir, "idx", params(), 1, ba)
				if err != nil {
					return err
				}
				if err = p.IndexTheHashes(threads); err != nil {
					return err
				}
				return p.TestTheHashes()
			},
			verify: open,
		})
		for _, budget := range []int{0, 1} {
			addWork(fmt.Sprintf("building the binned index in adaptive passes, %d threads, budget %d", threads, budget), work{
				prepare: func(dir string) { putHashes(dir, few) },
				do: func(dir string) error {
					_, p, err := indexedhashes3.NewHashStoreCreatorAndPreloaderAdaptive(dir, "idx", params(), budget)
					if err != nil {
						return err
					}
					return p.IndexTheHashes(threads)
				},
				verify: open,
			})
		}
	}
	for i, r := range []chain.Route{
		{Iface: "cri", Holder: "model", Ids: "path", Blk: chain.BlkInts, Trn: chain.TrnInts},
		{Iface: "chi", Holder: "model", Blk: chain.BlkInts[:2], Trn: chain.TrnInts[:1], SyncEvery: 2},
		{Iface: "cri", Holder: "model", Ids: "hash", Direct: true, Blk: []string{"nonce"}, Trn: []string{"locktime"}},
		{Iface: "chi", Holder: "model", Direct: true, Blk: []string{"nonce"}, Trn: []string{"locktime"}},
		{Iface: "cri", Holder: "intrinsic", Blk: chain.HolderBlk[:1], Trn: chain.HolderTrn[:1]},
		{Iface: "chi", Holder: "intrinsic", Blk: chain.HolderBlk[:1], Trn: chain.HolderTrn[:1], Adaptive: true},
	} {
		ops := []int{0, 1, 2, 1, 2}
		if r.Direct {
			ops = []int{0, 1, 1} // no hash twice
		}
		w := chain.Describe(chain.Of(ops))
		verify := func(dir string) error {
			chain.Reads, chain.AllAddresses = 0, true
			v, err := chain.Open(r, dir)
			if err != nil {
				return err
			}
			err = chain.Facts(v, w, r, len(w.Blocks))
			if _, is := err.(chain.Reported); err != nil && !is {
				return wrong(err.Error())
			}
			return err
		}
		name := fmt.Sprintf("chain route %d: ", i)
		addWork(name+"listing the hashes", work{
			prepare: func(dir string) {},
			do:      func(dir string) error { return r.HashesSynced(w, dir) },
			verify:  func(dir string) error { return chain.CheckHashes(w, dir) },
		})
		addWork(name+"storing the chain", work{
			prepare: func(dir string) { vk.Must(r.Hashes(w, dir)); vk.Must(r.Index(w, dir, 1)) },
			do: func(dir string) error {
				ac, ind, err := r.Store(dir)
				if err != nil {
					return err
				}
				if err = r.Append(w, ac, ind, nil); err != nil {
					return err
				}
				if err = ac.Sync(); err != nil {
					return err
				}
				if i%3 == 1 {
					ac.Close()
				} // (otherwise the process ends here)
				return nil
			},
			verify: verify,
		})
	}
}

func jobs(c *vk.Ctx) {
	for _, name := range workNames {
		w := works[name]
		// what it does when nothing fails
		base, err := os.MkdirTemp("", "job")
		vk.Must(err)
		clean := filepath.Join(base, "clean")
		vk.Must(os.MkdirAll(clean, 0755))
		out := filepath.Join(base, "calls")
		w.prepare(clean)
		end := job{Name: name, Dir: clean, Buffer: small, Out: out}.run()
		var calls []vfault.Call
		if b, err := os.ReadFile(out); err == nil {
			vk.Must(json.Unmarshal(b, &calls))
		}
		c.Case(name, func() string { return name + ": nothing fails" }, func(t *vk.T) {
			if end.told || end.hung {
				t.Fail("%v", end)
			}
			if err := w.verify(clean); err != nil {
				t.Fail("nothing failed: %v", err)
			}
			t.Outcome("nothing fails")
			t.Step(len(calls))
		})
		for _, call := range some(calls, vk.Pick(c, 3, 12)) {
			for _, mode := range call.Modes() {
				c.CaseLimit(name, 60*time.Second, func() string { return fmt.Sprintf("%s: %v %v", name, call, mode) }, func(t *vk.T) {
					dir := filepath.Join(t.Dir(), "w")
					vk.Must(os.MkdirAll(dir, 0755))
					w.prepare(dir)
					end := job{Name: name, Dir: dir, Target: &call, Mode: mode, Buffer: small}.run()
					t.Step(1)
					t.State(name, call.String(), mode)
					t.Nontrivial()
					if end.hung {
						t.Fail("it hangs")
					}
					if end.told {
						t.Outcome("reported")
						return
					}
					t.Outcome("harmless")
					if err := w.verify(dir); err != nil {
						t.Fail("nothing was reported; then: %v", err)
					}
				})
			}
		}
		// reading what was made, with a call failing
		in := vfault.New(clean, nil, vfault.Once)
		if p := vk.Try(func() { in.Run(func() { err = w.verify(clean) }) }); p != nil || err != nil {
			continue // (reported by the case in which nothing fails)
		}
		for _, call := range some(in.Calls, vk.Pick(c, 3, 12)) {
			c.CaseLimit(name+", reading", 60*time.Second, func() string { return fmt.Sprintf("%s, then reading: %v fails", name, call) }, func(t *vk.T) {
				in := vfault.New(clean, &call, vfault.Once)
				var err error
				p := vk.Try(func() { in.Run(func() { err = w.verify(clean) }) })
				if x, is := err.(wrong); is {
					if zeroHash.MatchString(string(x)) {
						t.FailKey("an address whose hash can't be read answers zeros", "%v", x)
					}
					t.Fail("reading: %v", x)
				}
				if !in.Hit {
					t.Outcome("not met")
				} else if p != nil || err != nil {
					t.Outcome("reported")
				} else {
					t.Outcome("harmless")
				}
				t.Step(1)
				t.State(name, "reading", call.String())
				t.Nontrivial()
			})
		}
		os.RemoveAll(base)
	}
}

var zeroHash = regexp.MustCompile(`^address hash of output \d+ is \[0( 0){31}\], want`)

// some leaves out calls of one kind on one file between the first few and the last.
func some(calls []vfault.Call, few int) (out []vfault.Call) {
	type kind struct{ op, rel string }
	last := map[kind]int{}
	for _, c := range calls {
		last[kind{c.Op, c.Rel}] = c.N
	}
	for _, c := range calls {
		if n := last[kind{c.Op, c.Rel}]; c.N < few || c.N == n {
			out = append(out, c)
		}
	}
	return
}
