// C10: the sequencer emits each item exactly once in strict order, never jamming, under every schedule.
package main

import (
	"fmt"
	"sync/atomic"
	"time"

	"github.com/KitchenMishap/pudding-shed/concurrency"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vsched"
	vsync "github.com/KitchenMishap/pudding-shed/zz_verif/vsync"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vx"
)

type item struct {
	seq     int64
	payload *int64 // what the producer put there; checks that items are handed over whole
}

func (i item) SequenceNumber() int64 { return i.seq }

func newItem(seq int64) item { p := seq*31 + 7; return item{seq, &p} }

// sink collects what comes out. It is only read after the run or when all else is at rest.
type sink struct {
	n      atomic.Int64
	got    [2048]int64
	bad    atomic.Int64
	closed atomic.Bool
}

func (k *sink) drain(out chan item) {
	for it := range vsched.Seq(out) {
		if *it.payload != it.seq*31+7 {
			k.bad.Add(1)
		}
		if i := k.n.Load(); i < int64(len(k.got)) {
			k.got[i] = it.seq
		}
		k.n.Add(1)
	}
	k.closed.Store(true)
}

func (k *sink) String() string {
	n := k.n.Load()
	if n > 16 {
		n = 16
	}
	return fmt.Sprintf("%v closed=%v", k.got[:n], k.closed.Load())
}

func (k *sink) expect(first int64, n int, closed bool) string {
	if k.bad.Load() > 0 {
		return "an item changed on its way"
	}
	ok := k.n.Load() == int64(n) && k.closed.Load() == closed
	for i := 0; ok && i < n; i++ {
		ok = k.got[i] == first+int64(i)
	}
	if !ok {
		return fmt.Sprintf("came out: %v; should be %d items from %d, closed=%v", k, n, first, closed)
	}
	return ""
}

// direct: producers send their shares of an arrival order straight to the sequencer.
func direct(c *vk.Ctx, first int64, order []int, split []int, producers, limit, outCap int, slow bool) {
	n := len(order)
	desc := func() string {
		return fmt.Sprintf("direct: first number %d, order %v, sent by producers %v of %d, backlog limit %d, output buffer %d, consumer starts late: %v", first, order, split, producers, limit, outCap, slow)
	}
	c.Case("direct", desc, func(t *vk.T) {
		var k *sink
		vx.Explore(t, vx.Options{Preempt: -1, MaxRuns: vk.Pick(c, 3000, 60000), Note: desc()}, func() { k = &sink{} }, func() {
			out := vsched.MakeChan[item](outCap)
			sc := concurrency.NewSequencerContainer[item](first, limit, out)
			var wg vsync.WaitGroup
			wg.Add(producers)
			for p := 0; p < producers; p++ {
				vsched.Go(func() {
					for i, o := range order {
						if split[i] == p {
							vsched.SendTo(sc.InChan)(newItem(first + int64(o)))
						}
					}
					wg.Done()
				})
			}
			if !slow {
				vsched.Go(func() { wg.Wait(); vsched.Close(sc.InChan) })
			} else {
				// room for everything: nothing is consumed before the input is closed
				wg.Wait()
				vsched.Close(sc.InChan)
			}
			k.drain(out)
		}, func(r vsched.Run) string { return k.expect(first, n, true) })
		t.Nontrivial()
	})
}

// pipeline: a feeder in sequence behind the valve, a pool of workers that may reorder, the sequencer, a consumer.
func pipeline(c *vk.Ctx, first int64, n, workers, limit, outCap, queue int) {
	desc := func() string {
		return fmt.Sprintf("pipeline: first number %d, %d items, %d workers behind a queue of %d, backlog limit %d, output buffer %d", first, n, workers, queue, limit, outCap)
	}
	c.CaseLimit("pipeline", 10*time.Minute, desc, func(t *vk.T) {
		var k *sink
		vx.Explore(t, vx.Options{Preempt: -1, MaxRuns: vk.Pick(c, 15000, 200000), Note: desc()}, func() { k = &sink{} }, func() {
			out := vsched.MakeChan[item](outCap)
			sc := concurrency.NewSequencerContainer[item](first, limit, out)
			work := vsched.MakeChan[item](queue)
			var wg vsync.WaitGroup
			wg.Add(workers)
			for w := 0; w < workers; w++ {
				vsched.Go(func() {
					for it := range vsched.Seq(work) {
						vsched.SendTo(sc.InChan)(it)
					}
					wg.Done()
				})
			}
			vsched.Go(func() {
				for i := 0; i < n; i++ {
					sc.WaitForNotBloated()
					vsched.SendTo(work)(newItem(first + int64(i)))
				}
				vsched.Close(work)
				wg.Wait()
				vsched.Close(sc.InChan)
			})
			k.drain(out)
		}, func(r vsched.Run) string { return k.expect(first, n, true) })
		t.Nontrivial()
	})
}

// valve: one producer; after every item, when all is at rest, the output and the valve are where they should be.
func valve(c *vk.Ctx, group string, first int64, order []int, limit, outCap, runs int) {
	desc := func() string {
		o := fmt.Sprint(order)
		if len(order) > 16 {
			o = fmt.Sprintf("%v... of %d", order[:16], len(order))
		}
		return fmt.Sprintf("valve: first number %d, order %s, backlog limit %d, output buffer %d", first, o, limit, outCap)
	}
	n := len(order)
	c.Case(group, desc, func(t *vk.T) {
		var k *sink
		var wrong atomic.Pointer[string]
		vx.Explore(t, vx.Options{Preempt: -1, MaxRuns: runs, Crowded: n > 16, Note: desc()}, func() { k = &sink{}; wrong.Store(nil) }, func() {
			out := vsched.MakeChan[item](outCap)
			sc := concurrency.NewSequencerContainer[item](first, limit, out)
			vsched.Go(func() { k.drain(out) })
			passed, waits, asked := make([]atomic.Bool, n), make([]bool, n), 0
			in := map[int]bool{}
			next := 0
			for i, o := range order {
				vsched.SendTo(sc.InChan)(newItem(first + int64(o)))
				in[o] = true
				for in[next] {
					next++
				}
				backlog := i + 1 - next
				vsched.Quiesce()
				if m := k.expect(first, next, false); m != "" && wrong.Load() == nil {
					m = fmt.Sprintf("after item %d of the order: %s", i, m)
					wrong.Store(&m)
				}
				// of a long history, at most 50 waiters: about the limit and at the end
				if n > 16 && i < n-5 && (backlog < limit-1 || backlog > limit || asked >= 45) {
					continue
				}
				waits[i] = true
				asked++
				vsched.Go(func() { sc.WaitForNotBloated(); passed[i].Store(true) })
				vsched.Quiesce()
				for j := 0; j <= i; j++ {
					// an earlier waiter was let through whenever the backlog was below the limit at any time since
					if waits[j] && backlog < limit && !passed[j].Load() && wrong.Load() == nil {
						m := fmt.Sprintf("after item %d of the order the backlog is %d, below the limit %d, but the waiter from item %d is still held", i, backlog, limit, j)
						wrong.Store(&m)
					}
				}
				if backlog >= limit && passed[i].Load() && wrong.Load() == nil {
					m := fmt.Sprintf("after item %d of the order the backlog is %d, at or above the limit %d, but the valve is open", i, backlog, limit)
					wrong.Store(&m)
				}
			}
			vsched.Close(sc.InChan)
			vsched.Quiesce()
		}, func(r vsched.Run) string {
			if m := wrong.Load(); m != nil {
				return *m
			}
			return k.expect(first, n, true)
		})
		t.Nontrivial()
	})
}

// gap: one number never arrives; this must not pass silently.
func gap(c *vk.Ctx, first int64, order []int, missing, limit, outCap int) {
	desc := func() string {
		return fmt.Sprintf("gap: first number %d, order %v without %d, backlog limit %d, output buffer %d", first, order, missing, limit, outCap)
	}
	c.Case("gap", desc, func(t *vk.T) {
		var k *sink
		vx.Explore(t, vx.Options{Preempt: -1, MaxRuns: vk.Pick(c, 500, 5000), Panics: true, Stuck: true, Note: desc()}, func() { k = &sink{} }, func() {
			out := vsched.MakeChan[item](outCap)
			sc := concurrency.NewSequencerContainer[item](first, limit, out)
			vsched.Go(func() {
				for _, o := range order {
					if o != missing {
						vsched.SendTo(sc.InChan)(newItem(first + int64(o)))
					}
				}
				vsched.Close(sc.InChan)
			})
			k.drain(out)
		}, func(r vsched.Run) string {
			if k.closed.Load() || r.Panic == nil && !r.Deadlock {
				return fmt.Sprintf("a missing number went unreported; came out: %v", k)
			}
			if r.Panic == nil {
				return fmt.Sprintf("deadlock instead of a report: %v", r.Leaked)
			}
			for i := int64(0); i < k.n.Load(); i++ {
				if k.got[i] != first+i {
					return fmt.Sprintf("came out of order before the gap: %v", k)
				}
			}
			if k.n.Load() > int64(missing) {
				return fmt.Sprintf("items after the gap came out: %v", k)
			}
			return ""
		})
		t.Nontrivial()
	})
}

func main() {
	vk.Main(vk.Spec{
		Property:  "C10",
		CaseLimit: 5 * time.Minute,
		Rule:      "every arrival order, division among producers, backlog limit and output buffer up to the bound; pipelines with the valve in front of reordering workers; for each, every schedule of the rewritten real sequencer up to the equivalence of dynamic partial-order reduction, under the race detector",
		Bounds: func(tier string) map[string]any {
			return map[string]any{"items": "0..5 (quick) 0..6 (thorough) sent directly, 0..6 and 0..7 for the valve, 1..5 and 1..6 in pipelines", "long": "300 (thorough 1100) items behind the valve in four orders, 2 schedules of each; first numbers about 2^15, 2^16, 2^31, 2^32, 2^53, 2^62", "producers": "1..3", "workers": "1..3", "backlog limit": "1..items+1", "output buffer": "0,1,2"}
		},
		Assumptions: []string{"items are numbered from the first expected number without repetition", "backlog limit of at least 1", "code between two synchronisation operations acts as one step (what the race detector checks)"},
		Run: func(c *vk.Ctx) {
			for n := 0; n <= vk.Pick(c, 5, 6); n++ {
				vk.Perms(n, func(order []int) {
					order = append([]int{}, order...)
					for producers := 1; producers <= 3; producers++ {
						if producers > 1 && n > vk.Pick(c, 4, 5) {
							continue
						}
						vk.Seqs(producers, n, func(split []int) {
							// producers are alike: number them by first appearance, all used
							m := -1
							for _, p := range split {
								if p > m+1 {
									return
								}
								if p > m {
									m = p
								}
							}
							if m+1 != producers && !(n == 0 && producers == 1) {
								return
							}
							sp := append([]int{}, split...)
							for limit := 1; limit <= n+1; limit++ {
								if limit > 3 && !c.Thorough() {
									continue
								}
								for outCap := 0; outCap <= 2; outCap++ {
									if outCap == 2 && !c.Thorough() {
										continue
									}
									direct(c, int64(limit%2*5), order, sp, producers, limit, outCap, false)
								}
								if n > 0 {
									direct(c, 3, order, sp, producers, limit, n, true)
								}
							}
						})
					}
				})
			}
			for n := 0; n <= vk.Pick(c, 6, 7); n++ {
				vk.Perms(n, func(order []int) {
					order = append([]int{}, order...)
					for limit := 1; limit <= n && limit <= 4; limit++ {
						for outCap := 0; outCap <= vk.Pick(c, 1, 2); outCap++ {
							valve(c, "valve", int64(limit%2*9), order, limit, outCap, vk.Pick(c, 300, 5000))
						}
					}
				})
			}
			// first numbers about the limits of narrower integers
			for _, first := range []int64{-2, 1<<15 - 2, 1<<16 - 2, 1<<31 - 2, 1<<32 - 2, 1<<53 - 2, 1<<62 - 2} {
				for n := 3; n <= vk.Pick(c, 4, 5); n++ {
					vk.Perms(n, func(order []int) {
						valve(c, "valve-far", first, append([]int{}, order...), 2, 1, 30)
						direct(c, first, append([]int{}, order...), make([]int, n), 1, 2, 1, false)
					})
				}
			}
			// long backlogs
			for _, n := range vk.Pick(c, []int{17, 33, 65, 129, 257, 300}, []int{17, 33, 65, 100, 129, 257, 300, 513, 1025, 1100}) {
				backwards, swapped, firstLast, halves := []int{}, []int{}, []int{}, []int{}
				for i := 0; i < n; i++ {
					backwards = append(backwards, n-1-i)
					swapped = append(swapped, min(i^1, n-1)-(i^1)/n*(n-1-i))
					firstLast = append(firstLast, (i+1)%n)
					halves = append(halves, (i+n/2)%n)
				}
				for _, order := range [][]int{backwards, swapped, firstLast, halves} {
					for _, limit := range []int{1, 2, 16, n / 2, n - 1, n, n + 1} {
						valve(c, "valve-long", 0, order, limit, 1, 2)
					}
				}
			}
			for n := 2; n <= vk.Pick(c, 4, 5); n++ {
				vk.Perms(n, func(order []int) {
					order = append([]int{}, order...)
					for missing := 0; missing < n-1; missing++ {
						for _, limit := range []int{1, 2, 10} {
							gap(c, 0, order, missing, limit, limit%2)
						}
					}
				})
			}
			for workers := 1; workers <= 3; workers++ {
				for n := 1; n <= vk.Pick(c, 5, 6); n++ {
					for limit := 1; limit <= 3 && limit <= n; limit++ {
						for outCap := 0; outCap <= 1; outCap++ {
							for queue := 0; queue <= vk.Pick(c, 0, 1); queue++ {
								pipeline(c, int64(queue*4), n, workers, limit, outCap, queue)
							}
						}
					}
				}
			}
		},
	})
}
