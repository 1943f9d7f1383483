// C11: worker pool and memory valve: each task once, no lost wake-ups, under every schedule.
package main

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/KitchenMishap/pudding-shed/concurrency"
	"github.com/KitchenMishap/pudding-shed/memblocker"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vsched"
	vsync "github.com/KitchenMishap/pudding-shed/zz_verif/vsync"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vx"
)

// task is what a client of the pool writes: plain fields, so that the race detector sees whether the pool hands
// them over properly.
type task struct {
	id        int
	fails     bool
	err       error
	processed int
	set       int
	done      int
	order     string
	finished  vsync.WaitGroup
	follow    *task // submitted from within Process
	pool      *concurrency.WorkerPool
	gate      *vsync.WaitGroup // Process waits until the gate opens
	arrived   *vsync.WaitGroup
}

type taskError struct{ id int }

func (e *taskError) Error() string { return fmt.Sprint("task ", e.id) }

func newTask(id int, fails bool) *task {
	t := &task{id: id, fails: fails}
	t.finished.Add(1)
	return t
}

func (t *task) Process() error {
	t.processed++
	t.order += "P"
	if t.arrived != nil {
		t.arrived.Done()
		t.gate.Wait()
	}
	if t.follow != nil {
		vsched.SendTo(t.pool.InChan)(concurrency.Task(t.follow))
	}
	if t.fails {
		return &taskError{t.id}
	}
	return nil
}
func (t *task) SetError(e error) { t.set++; t.order += "S"; t.err = e }
func (t *task) Done()            { t.done++; t.order += "D"; t.finished.Done() }
func (t *task) GetError() error  { return t.err }

func (t *task) verdict() string {
	if t.processed != 1 || t.set != 1 || t.done != 1 || t.order != "PSD" {
		return fmt.Sprintf("task %d: processed %d times, result set %d times, done %d times, in order %s", t.id, t.processed, t.set, t.done, t.order)
	}
	e, ok := t.GetError().(*taskError)
	if t.fails && (!ok || e.id != t.id) || !t.fails && t.GetError() != nil {
		return fmt.Sprintf("task %d (fails=%v) holds the result %v", t.id, t.fails, t.GetError())
	}
	return ""
}

func pool(c *vk.Ctx, workers, tasks, submitters int, fails int, kind string) {
	desc := func() string {
		return fmt.Sprintf("%s: %d workers, %d tasks by %d submitters, failing tasks %b", kind, workers, tasks, submitters, fails)
	}
	runs, long := vk.Pick(c, 4000, 100000), ""
	if tasks > 8 {
		runs, long = vk.Pick(c, 3, 30), "/long"
	}
	c.CaseLimit("pool/"+kind+long, 10*time.Minute, desc, func(t *vk.T) {
		var all []*task
		var wrong atomic.Pointer[string]
		vx.Explore(t, vx.Options{Preempt: -1, MaxRuns: runs, Crowded: long != "", Note: desc()}, func() { all = nil; wrong.Store(nil) }, func() {
			wp := concurrency.NewWorkerPool(workers)
			ts := make([]*task, tasks)
			var gate, arrived vsync.WaitGroup
			for i := range ts {
				ts[i] = newTask(i, fails>>i&1 == 1)
				ts[i].pool = wp
				if kind == "simultaneous" {
					ts[i].gate, ts[i].arrived = &gate, &arrived
				}
			}
			all = ts
			complain := func(m string) {
				if m != "" && wrong.Load() == nil {
					wrong.Store(&m)
				}
			}
			var wg vsync.WaitGroup
			switch kind {
			case "simultaneous":
				// as many tasks as workers, none of which ends before all have begun: every free worker must take one
				gate.Add(1)
				arrived.Add(tasks)
				wg.Add(1)
				vsched.Go(func() {
					for i := range ts {
						vsched.SendTo(wp.InChan)(concurrency.Task(ts[i]))
					}
					wg.Done()
				})
				arrived.Wait()
				gate.Done()
			case "follow":
				// a task hands in the next one while it is being processed; another worker must take it
				for i := 0; i+1 < len(ts); i++ {
					ts[i].follow = ts[i+1]
				}
				vsched.SendTo(wp.InChan)(concurrency.Task(ts[0]))
			default:
				wg.Add(submitters)
				for s := 0; s < submitters; s++ {
					vsched.Go(func() {
						for i := s; i < tasks; i += submitters {
							vsched.SendTo(wp.InChan)(concurrency.Task(ts[i]))
							if kind == "each" {
								// the client that waits for Done finds the result
								ts[i].finished.Wait()
								complain(ts[i].verdict())
							}
						}
						wg.Done()
					})
				}
			}
			wg.Wait()
			for i := range ts {
				ts[i].finished.Wait()
				complain(ts[i].verdict())
			}
			vsched.Close(wp.InChan)
		}, func(r vsched.Run) string {
			if m := wrong.Load(); m != nil {
				return *m
			}
			for _, x := range all {
				if m := x.verdict(); m != "" {
					return "at the end, " + m
				}
			}
			return ""
		})
		t.Nontrivial()
	})
}

// valve: waiters for spare memory and freers that announce, over a modelled heap.
//
// usage starts at start; waiters pass when it is below limit, each allocating alloc afterwards; freer f takes drops[f]
// steps of one unit, each announced, and then announces until every waiter has passed or it has done so often enough.
func valve(c *vk.Ctx, limit, start int64, waiters int, drops []int, alloc int64, extra int, late bool) {
	desc := func() string {
		return fmt.Sprintf("valve: limit %d, heap %d, %d waiters allocating %d each, freers dropping %v then %d bare announcements, arriving late: %v", limit, start, waiters, alloc, drops, extra, late)
	}
	c.CaseLimit("valve", 10*time.Minute, desc, func(t *vk.T) {
		var heap atomic.Int64
		var seen [64]atomic.Int64 // what each goroutine last read of the heap, plus one
		var wrong atomic.Pointer[string]
		vsched.Heap = func(m *runtime.MemStats) {
			v := heap.Load()
			seen[vsched.Me()].Store(v + 1)
			*m = runtime.MemStats{Alloc: uint64(v), HeapAlloc: uint64(v), TotalAlloc: uint64(start + 100), Sys: uint64(start + 1000), HeapSys: uint64(start + 500), HeapInuse: uint64(start + 50)}
		}
		defer func() { vsched.Heap = nil }()
		vx.Explore(t, vx.Options{Preempt: -1, MaxRuns: vk.Pick(c, 4000, 100000), Note: desc()}, func() {
			heap.Store(start)
			wrong.Store(nil)
			for i := range seen {
				seen[i].Store(0)
			}
		}, func() {
			mb := memblocker.NewMemBlocker(uint64(limit))
			var wg vsync.WaitGroup
			wg.Add(waiters)
			if late {
				mb.StartFreeingMem()
			}
			for w := 0; w < waiters; w++ {
				vsched.Go(func() {
					mb.WaitForSpareMemory()
					if v := seen[vsched.Me()].Load(); v == 0 || v-1 >= limit {
						m := fmt.Sprintf("waiter %d went on having seen a heap of %d under a limit of %d", w, v-1, limit)
						wrong.Store(&m)
					}
					if alloc > 0 {
						vsched.HeapChange()
						heap.Add(alloc)
					}
					wg.Done()
				})
			}
			if late {
				mb.MemoryWasFreed()
			}
			var fw vsync.WaitGroup
			fw.Add(len(drops))
			for _, d := range drops {
				vsched.Go(func() {
					for i := 0; i < d; i++ {
						mb.StartFreeingMem()
						vsched.HeapChange()
						heap.Add(-1)
						mb.MemoryWasFreed()
					}
					fw.Done()
				})
			}
			fw.Wait()
			// memory is below the limit for good now: announce once per waiter
			for i := 0; i < extra; i++ {
				mb.StartFreeingMem()
				mb.MemoryWasFreed()
			}
			wg.Wait()
			if !mb.IsThereFreeMemory() != (heap.Load() >= limit) {
				m := fmt.Sprintf("IsThereFreeMemory is %v for a heap of %d under a limit of %d", mb.IsThereFreeMemory(), heap.Load(), limit)
				wrong.Store(&m)
			}
			if mb.LastHeapSize() != uint64(heap.Load()) {
				m := fmt.Sprintf("LastHeapSize is %d after a reading of %d", mb.LastHeapSize(), heap.Load())
				wrong.Store(&m)
			}
		}, func(r vsched.Run) string {
			if m := wrong.Load(); m != nil {
				return *m
			}
			return ""
		})
		t.Nontrivial()
	})
}

func main() {
	vk.Main(vk.Spec{
		Property:  "C11",
		CaseLimit: 5 * time.Minute,
		Rule:      "every worker, task and submitter count with every set of failing tasks; every waiter count, heap level, limit and division of the freeing among freers; for each, every schedule of the rewritten real code up to the equivalence of dynamic partial-order reduction, under the race detector, with the heap size modelled",
		Bounds: func(tier string) map[string]any {
			return map[string]any{"workers": "1..3", "tasks": "1..4 (quick) 1..5 (thorough)", "long": "up to 50 workers, 300 tasks: 3 (thorough 30) schedules of each; heaps about powers of two to 2^60", "submitters": "1..3", "waiters": "1..3", "freers": "1..2", "schedules per configuration": "4000 (quick) 100000 (thorough); configurations that reach this are counted under outcome_tallies"}
		},
		Assumptions: []string{"freed often enough: once the heap is below the limit for good, one announcement per waiter follows", "IsThereFreeMemory and LastHeapSize are called by one goroutine while nobody waits", "runtime.ReadMemStats reports the modelled heap"},
		Run: func(c *vk.Ctx) {
			for workers := 1; workers <= 3; workers++ {
				for tasks := 1; tasks <= vk.Pick(c, 4, 5); tasks++ {
					for fails := 0; fails < 1<<tasks; fails++ {
						if tasks > 3 && fails != 0b0101 && fails != 0b0010 && !c.Thorough() {
							continue
						}
						for submitters := 1; submitters <= 3 && submitters <= tasks; submitters++ {
							if submitters == 3 && workers == 3 && tasks == 4 && !c.Thorough() {
								continue
							}
							pool(c, workers, tasks, submitters, fails, "all")
							pool(c, workers, tasks, submitters, fails, "each")
						}
						if tasks <= workers {
							pool(c, workers, tasks, 1, fails, "simultaneous")
							pool(c, workers, tasks, 1, fails, "follow")
						}
					}
				}
			}
			// many tasks, many workers: a few schedules of each
			for _, workers := range []int{1, 2, 3, 7, 8, 9, 16, 17, 32, 33, 50} {
				if workers >= 9 {
					pool(c, workers, workers, 1, 1<<(workers/2), "simultaneous")
					pool(c, workers, workers, 1, 0x5a5a5a5a5a5a, "follow")
				}
				for _, tasks := range []int{9, 17, 33, 65, 129, 300} {
					for submitters := 1; submitters <= 3; submitters++ {
						pool(c, workers, tasks, submitters, 0x5a5a5a5a5a5a, "all")
						pool(c, workers, tasks, submitters, -1, "each")
					}
				}
			}
			for waiters := 1; waiters <= 3; waiters++ {
				for above := int64(-1); above <= 2; above++ { // heap relative to the limit at the start
					for _, alloc := range []int64{0, 1} {
						need := int(above) + 1 + int(alloc)*(waiters-1)
						if need < 0 {
							need = 0
						}
						for more := 0; more <= 1; more++ {
							total := need + more
							for first := 0; first <= total/2; first++ {
								drops := []int{total - first, first}
								if first == 0 {
									drops = drops[:1]
								}
								for _, late := range []bool{false, true} {
									valve(c, 10, 10+above, waiters, drops, alloc, waiters, late)
									if waiters == 1 {
										// limits a unit below, at and above what narrower integers, and megabytes or gigabytes, can say
										for _, big := range []int64{1<<20 - 1, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<33 + 12345, 1 << 53, 1<<53 + 1, 1 << 60} {
											valve(c, big, big+above, waiters, drops, alloc, waiters, late)
										}
									}
								}
							}
						}
					}
				}
			}
		},
	})
}
