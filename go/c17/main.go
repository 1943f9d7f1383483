// C17: hashes and blocks stream from the node completely, in order, whatever goes wrong.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/KitchenMishap/pudding-shed/corereader2"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"github.com/KitchenMishap/pudding-shed/jobs"
	"github.com/KitchenMishap/pudding-shed/zz_verif/btc"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vsched"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vx"
	chain "github.com/KitchenMishap/pudding-shed/zz_verif/xchain"
	"github.com/KitchenMishap/pudding-shed/zz_verif/xnode"
)

type hash = indexedhashes.Sha256

// node is a node with a chain of that many blocks, of which the first few can be downloaded.
func node(blocks int, seq ...int) *xnode.Node {
	bl := chain.Of(seq)
	if blocks < len(bl) {
		bl = bl[:blocks]
	}
	return xnode.New(bl, blocks-len(bl))
}

// stream asks for the hashes of n blocks; want says how many there are. Runs that meet a fault may end in an error.
func stream(t *vk.T, nd *xnode.Node, n int, faulty bool, runs int) {
	var got []hash
	var err error
	returned := false
	closed := false
	nd.Use()
	vx.Explore(t, vx.Options{Preempt: -1, MaxRuns: runs, MaxSteps: 60000, Panics: faulty, Note: "stream"}, func() {
		nd.Reset()
		got, err, returned, closed = got[:0], nil, false, false
	}, func() {
		ch := vsched.MakeChan[hash](0)
		vsched.Go(func() {
			err = corereader2.StreamBlockHashesFromGenesis(int64(n), ch)
			returned = true
		})
		for h := range vsched.Seq(ch) {
			got = append(got, h)
		}
		closed = true
	}, func(r vsched.Run) string {
		have := min(n, len(nd.Hashes))
		for i, h := range got {
			if i >= have {
				return fmt.Sprintf("%d hashes asked for, chain of %d blocks: a hash came at position %d: %x", n, len(nd.Hashes), i, h)
			}
			if btc.Hash(h) != nd.Hashes[i] {
				return fmt.Sprintf("%d hashes asked for, chain of %d blocks: position %d has %x, the block's is %x (the answers: %s)", n, len(nd.Hashes), i, h, nd.Hashes[i], log(nd))
			}
		}
		if r.Panic != nil {
			t.Outcome("failure reported")
			return ""
		}
		switch {
		case !closed || !returned:
			return "the stream does not end"
		case err != nil && !faulty && n <= len(nd.Hashes):
			return fmt.Sprintf("error although the node answers: %v", err)
		case err == nil && len(got) != have:
			return fmt.Sprintf("%d hashes asked for, chain of %d blocks: success was reported after %d (%s)", n, len(nd.Hashes), len(got), log(nd))
		case err != nil:
			t.Outcome("failure reported")
		default:
			t.Outcome("complete")
		}
		return ""
	})
	t.State(n, len(nd.Hashes), log(nd))
	if n > 0 {
		t.Nontrivial()
	}
}

func log(nd *xnode.Node) string {
	s := ""
	for _, r := range nd.Log {
		s += fmt.Sprintf("[%s %d]", r.Kind, r.Height)
	}
	return s
}

// facts lists what a parsed block says.
func facts(b *intrinsicobjects.Block) string {
	s := fmt.Sprintf("%x v%d prev %x merkle %x time %d bits %x nonce %d size %d/%d weight %d diff %v; %d transactions", b.BlockHash, b.Version, b.PrevHash, b.MerkleRoot,
		b.Time, b.NBits, b.Nonce, b.Size, b.StrippedSize, b.Weight, b.Difficulty, len(b.Transactions))
	for n := range b.Transactions {
		t := &b.Transactions[n]
		s += fmt.Sprintf("; %x v%d segwit %v %d/%d/%d/%d", t.TxId, t.Version, t.IsSegWit, t.Size, t.StrippedSize, t.Weight, t.VSize)
		for i := int64(0); i < t.TxiCount(); i++ {
			in := t.GetTxi(b.Storage, i)
			s += fmt.Sprintf(" in %x:%d", in.TxId, in.VOut)
		}
		for i := int64(0); i < t.TxoCount(); i++ {
			o := t.GetTxo(b.Storage, i)
			s += fmt.Sprintf(" out %d to %x", o.Value, b.Storage.Scripts[o.ScriptPubKeyStart:o.ScriptPubKeyStart+o.ScriptPubKeyLen])
		}
	}
	return s
}

func wanted(nd *xnode.Node, json bool) []string {
	var r []string
	for i := range nd.Bin {
		var b intrinsicobjects.Block
		if json {
			vk.Must(intrinsicobjects.ParseJsonBlock(nd.Json[i], &b))
		} else {
			intrinsicobjects.ParseBinaryBlock(nd.Bin[i], &b)
		}
		if btc.Hash(b.BlockHash) != nd.Hashes[i] {
			panic("the reference parse has another hash")
		}
		r = append(r, facts(&b))
	}
	return r
}

// download asks for every block of the node.
func download(t *vk.T, nd *xnode.Node, json bool, threads int, faulty bool, pre, runs int) {
	want := wanted(nd, json)
	nd.Use()
	var got []*corereader2.HeightNumberedBlock
	closed := false
	vx.Explore(t, vx.Options{Preempt: pre, MaxRuns: runs, MaxSteps: 60000, Panics: faulty, Stuck: false, Crowded: threads > 3, Note: fmt.Sprintf("download %d blocks with %d workers", len(want), threads)}, func() {
		nd.Reset()
		got, closed = nil, false
	}, func() {
		in := vsched.MakeChan[hash](0)
		out := vsched.MakeChan[*corereader2.HeightNumberedBlock](0)
		vsched.Go(func() {
			for i := range nd.Bin {
				vsched.SendTo(in)(hash(nd.Hashes[i]))
			}
			vsched.Close(in)
		})
		corereader2.GetAndParseBlocks(in, json, out, threads)
		for b := range vsched.Seq(out) {
			got = append(got, b)
		}
		closed = true
	}, func(r vsched.Run) string {
		seen := map[int64]bool{}
		for _, b := range got {
			h := b.BlockHeight
			switch {
			case h < 0 || h >= int64(len(want)):
				return fmt.Sprintf("a block numbered %d came out", h)
			case seen[h]:
				return fmt.Sprintf("block %d came out twice", h)
			case btc.Hash(b.BlockHash) != nd.Hashes[h]:
				return fmt.Sprintf("block %d came out with the hash %x", h, b.BlockHash)
			}
			seen[h] = true
			if f := facts(&b.Block); f != want[h] {
				return fmt.Sprintf("block %d came out as %.400s; it is %.400s (the requests: %s)", h, f, want[h], log(nd))
			}
		}
		if r.Panic != nil {
			t.Outcome("failure reported")
			return ""
		}
		if !closed {
			return "the blocks never end"
		}
		if len(got) != len(want) {
			return fmt.Sprintf("%d blocks of %d came out (%s)", len(got), len(want), log(nd))
		}
		t.Outcome("complete")
		return ""
	})
	t.State(len(want), json, threads, log(nd))
	t.Nontrivial()
}

var headerFaults = []xnode.Fault{xnode.Refused, xnode.Status503, xnode.Status404, xnode.Reset, xnode.Short, xnode.Garbage, xnode.CloseError, xnode.ResetAtOnce, xnode.LateReset, xnode.Status500WithBody}
var blockFaults = append(append([]xnode.Fault(nil), headerFaults...), xnode.BadField)

// at answers the k-th request of the kind with fs[k].
func at(kind string, fs ...xnode.Fault) func(*xnode.Node) {
	return func(nd *xnode.Node) {
		nd.Answer = func(r xnode.Request) xnode.Fault {
			if r.Kind == kind && r.Seq < len(fs) {
				return fs[r.Seq]
			}
			return xnode.None
		}
	}
}

func enumerate(c *vk.Ctx) {
	// counts and chain lengths, no faults
	near := map[int]bool{}
	for _, b := range []int{0, 1000, 1001, 1002, 2000, 2001, 2002, 3000} {
		for d := -3; d <= 3; d++ {
			near[b+d] = true
		}
	}
	for n := 0; n <= vk.Pick(c, 2010, 3100); n++ {
		var ms []int
		switch {
		case near[n]:
			ms = []int{n, n + 1, n + 2, n + 3, n + 998, n + 999, n + 1000, n + 1001, n + 1002}
		case n%vk.Pick(c, 41, 1) == 0:
			ms = []int{n, n + 1, n + 700}
		default:
			continue
		}
		for _, m := range ms {
			c.Case("hashes", func() string { return fmt.Sprintf("%d hashes of a chain of %d blocks", n, m) }, func(t *vk.T) {
				stream(t, node(max(m, 1)), n, false, 3)
			})
		}
		if n == 0 || !near[n] {
			continue
		}
		for _, more := range []int{1, 2, 3, 999, 1000, 1001, 1002} {
			c.Case("more hashes than blocks", func() string { return fmt.Sprintf("%d hashes of a chain of %d blocks", n+more, n) }, func(t *vk.T) {
				stream(t, node(n), n+more, false, 3)
			})
		}
	}
	for _, n := range []int{1, 2, 3, 4} {
		c.Case("hashes, every schedule", func() string { return fmt.Sprint(n) }, func(t *vk.T) { stream(t, node(n+2), n, false, 100000) })
	}
	// a fault at each header request
	for _, nm := range [][2]int{{1, 1}, {2, 2}, {3, 9}, {700, 701}, {1000, 1000}, {1000, 1001}, {1000, 1002}, {1001, 1001}, {1001, 2100}, {1700, 1700}, {2001, 2001}, {2500, 2600}} {
		for req := 0; req <= (nm[0]-1)/1000; req++ {
			for _, f := range headerFaults {
				fs := make([]xnode.Fault, req+1)
				fs[req] = f
				c.Case("faults at header requests", func() string { return fmt.Sprintf("%d hashes of %d, request %d: %v", nm[0], nm[1], req, f) }, func(t *vk.T) {
					nd := node(nm[1])
					at("headers", fs...)(nd)
					stream(t, nd, nm[0], true, 3)
				})
			}
			// cut after any number of bytes
			body := min(1002, nm[1]-1000*req) * 80
			for _, base := range []int{0, 80, 160, 240, body - 240, body - 160, body - 80, body} {
				for _, d := range []int{-80, -47, -44, -1, 0, 1, 4, 36, 79} {
					cut := base + d
					if cut < 0 || cut >= body {
						continue
					}
					c.Case("header answers cut short", func() string {
						return fmt.Sprintf("%d hashes of %d, request %d, after %d bytes", nm[0], nm[1], req, cut)
					}, func(t *vk.T) {
						nd := node(nm[1])
						fs := make([]xnode.Fault, req+1)
						fs[req] = xnode.CutShort
						nd.Cut = cut
						at("headers", fs...)(nd)
						stream(t, nd, nm[0], true, 3)
					})
				}
			}
		}
	}
	// blocks, every schedule
	for _, json := range []bool{false, true} {
		for _, th := range []int{1, 2, 3} {
			for _, seq := range [][]int{{}, {1}, {1, 5, 0}, {1, 3, 0, 4, 1}} {
				c.CaseLimit("blocks, every schedule", 10*time.Minute, func() string { return fmt.Sprintf("%s, json %v, %d workers", chain.Name(seq), json, th) }, func(t *vk.T) {
					download(t, node(len(chain.Of(seq)), seq...), json, th, false, -1, vk.Pick(c, 700, 30000))
				})
			}
		}
	}
	// many blocks, many workers: a few schedules
	for _, json := range []bool{false, true} {
		for _, th := range []int{1, 2, 5, 8, 9, 16, 17, 33, 50} {
			for _, n := range []int{17, 65, 130, 300} {
				if n == 300 && th > 8 && !c.Thorough() {
					continue
				}
				c.CaseLimit("many blocks", 10*time.Minute, func() string { return fmt.Sprintf("%d steps, json %v, %d workers", n, json, th) }, func(t *vk.T) {
					seq := make([]int, n)
					for i := range seq {
						seq[i] = []int{1, 0, 4, 2, 3, 5, 0}[i*i%7]
					}
					download(t, node(len(chain.Of(seq)), seq...), json, th, false, -1, 2)
				})
			}
		}
		// a big block between small ones
		for _, size := range []int{1 << 12, 1<<16 + 3, 1<<20 - 200, 1<<20 + 1, 1<<21 + 5, 4000000} {
			for _, outs := range []int{1, 40} {
				c.CaseLimit("big block", 10*time.Minute, func() string { return fmt.Sprintf("%d outputs of %d bytes together, json %v", outs, size, json) }, func(t *vk.T) {
					b := chain.NewBuilder()
					b.Do(1)
					o := make([]btc.Out, outs)
					for i := range o {
						o[i] = btc.Out{Value: int64(i), Script: btc.Bytes(size/outs, i)}
					}
					b.Block(b.Coinbase(o...))
					b.Do(0)
					b.Do(4)
					b.Relink()
					download(t, xnode.New(b.Blocks, 0), json, 2, false, -1, 2)
				})
			}
		}
	}
	// every sequence of faults of a block's requests
	depth := 3
	pool := append([]xnode.Fault{xnode.None}, blockFaults...)
	for _, json := range []bool{false, true} {
		for blk := 0; blk < 2; blk++ {
			vk.Seqs(len(pool), depth, func(s []int) {
				if len(s) != depth {
					return
				}
				for i, a := range s {
					if a == 0 && i+1 < len(s) && s[i+1] != 0 {
						return // the download is over at the first good answer
					}
				}
				fs := make([]xnode.Fault, depth)
				for i, a := range s {
					fs[i] = pool[a]
				}
				c.Case("fault sequences of a block", func() string { return fmt.Sprintf("block %d, json %v: %v", blk, json, fs) }, func(t *vk.T) {
					nd := node(3, 1, 3, 0)
					nd.Answer = func(r xnode.Request) xnode.Fault {
						if r.Kind == "block" && r.Height == blk && r.Nth < len(fs) {
							return fs[r.Nth]
						}
						return xnode.None
					}
					download(t, nd, json, 1, true, -1, 2)
				})
			})
		}
		// two blocks in trouble at once, every schedule
		for i, f := range blockFaults {
			g := blockFaults[(i*3+1)%len(blockFaults)]
			for _, th := range []int{2, 3} {
				c.CaseLimit("two blocks in trouble", 10*time.Minute, func() string { return fmt.Sprintf("json %v, %d workers, %v and %v", json, th, f, g) }, func(t *vk.T) {
					nd := node(3, 1, 3, 0)
					nd.Answer = func(r xnode.Request) xnode.Fault {
						switch {
						case r.Kind == "block" && r.Height == 0 && r.Nth == 0:
							return f
						case r.Kind == "block" && r.Height == 1 && r.Nth < 2:
							return g
						}
						return xnode.None
					}
					download(t, nd, json, th, true, -1, vk.Pick(c, 40, 3000))
				})
			}
		}
		// the body cut after any number of bytes
		for _, f := range []xnode.Fault{xnode.CutShort, xnode.CutSilently} {
			for _, blk := range []int{0, 1, 2} {
				nd := node(3, 1, 3, 0)
				l := len(nd.Bin[blk])
				step := 1
				if json {
					l = len(nd.Json[blk])
					step = vk.Pick(c, 5, 1)
				}
				for cut := 0; cut < l; cut += step {
					cut := min(cut, l)
					c.Case("blocks cut", func() string { return fmt.Sprintf("block %d, json %v, %v at %d of %d", blk, json, f, cut, l) }, func(t *vk.T) {
						nd := node(3, 1, 3, 0)
						nd.Cut = cut
						nd.Answer = func(r xnode.Request) xnode.Fault {
							if r.Kind == "block" && r.Height == blk && r.Nth == 0 {
								return f
							}
							return xnode.None
						}
						download(t, nd, json, 1, true, -1, 2)
					})
				}
			}
		}
	}
	pipelines(c)
}

// pipelines run the first phase against a node in trouble: it must not report success with anything missing.
func pipelines(c *vk.Ctx) {
	one := func(iface string, json bool, dir string, n, th int) error {
		if iface == "cri" {
			return jobs.PhaseOneParallelIntrinsic(dir, json, int64(n), 1000, th, "\n")
		}
		return jobs.PhaseOneParallelIntrinsicChi(dir, json, int64(n), 1000, th, "\n")
	}
	for _, iface := range []string{"cri", "chi"} {
		for _, json := range []bool{false, true} {
			if json != (iface == "chi") && !c.Thorough() {
				continue
			}
			for _, th := range []int{1, 2} {
				for k, f := range append(append([]xnode.Fault(nil), blockFaults...), xnode.CutShort) {
					if k%2 != th%2 && !c.Thorough() {
						continue
					}
					for _, kind := range []string{"headers", "block"} {
						if kind == "headers" && f == xnode.BadField {
							continue
						}
						for nth := 0; nth < 3; nth += 1 {
							if kind == "headers" && nth > 0 {
								continue
							}
							desc := func() string {
								return fmt.Sprintf("phase 1 through %s, json %v, %d workers, %s request %d: %v", iface, json, th, kind, nth, f)
							}
							c.CaseLimit("pipeline", 10*time.Minute, desc, func(t *vk.T) {
								nd := node(3, 1, 3, 0)
								w := chain.Describe(chain.Of([]int{1, 3, 0}))
								fs := make([]xnode.Fault, nth+1)
								fs[nth] = f
								nd.Cut = 180
								at(kind, fs...)(nd)
								nd.Use()
								dir := filepath.Join(t.Dir(), "run")
								var err error
								done := false
								vx.Explore(t, vx.Options{Preempt: -1, MaxRuns: vk.Pick(c, 60, 4000), MaxSteps: 20000, Panics: true, Leaks: true, Note: desc()}, func() {
									vk.Must(os.RemoveAll(dir))
									vk.Must(os.MkdirAll(dir, 0755))
									nd.Reset()
									err, done = nil, false
								}, func() { err = one(iface, json, dir, 3, th); done = true }, func(r vsched.Run) string {
									switch {
									case r.Panic != nil || !done || err != nil:
										t.Outcome("failure reported")
										return ""
									}
									if e := chain.CheckHashes(w, dir); e != nil {
										return fmt.Sprintf("success reported but %v", e)
									}
									t.Outcome("complete")
									return ""
								})
								t.Nontrivial()
							})
						}
					}
				}
			}
		}
	}
}

func main() {
	vk.Main(vk.Spec{
		Property: "C17",
		Rule:     "for every count, chain length, fault position, fault sequence and explored schedule: what comes out is exactly the node's, or the failure is reported",
		Bounds: func(tier string) map[string]any {
			return map[string]any{"hashes asked for": "0..2010 (thorough 3100)", "requests per stream": 4, "fault kinds": len(blockFaults) + 2, "long": "up to 300 blocks and 50 workers, 2 schedules of each; a block of up to 4 MB", "blocks": 4, "workers": 3, "faults per block": 3}
		},
		Assumptions: []string{"the answers the node completes are right", "a body cut silently at a header boundary is not told from a shorter chain"},
		Shards:      8, CaseLimit: 60 * time.Second, QuickBudget: 14 * time.Minute, ThoroughBudget: 110 * time.Minute, MemLimitGB: 3,
		Run: enumerate,
	})
}
