// Package vsched is a controlled scheduler for stateless model checking of the real code. The checks rewrite the
// code under test (see tools/instr) so that goroutines, channels, locks, wait groups, condition variables and atomics
// go through this package. While an exploration is active exactly one goroutine runs at a time, every operation is a
// scheduling point, and Explore enumerates the schedules depth first, either all of them up to the equivalence of
// dynamic partial-order reduction (with sleep sets), or all with a bounded number of preemptions.
// When no exploration is active every operation is the native one.
//
// The package is compiled without race instrumentation, and its hand-overs are hidden from the race detector, so in a
// -race build the only ordering the detector sees is that of the modelled operations: each explored schedule is
// checked for data races by happens-before.
//
// State shared between goroutines must not use maps, append or copy here: those are race-instrumented in the runtime.
package vsched

import (
	"bufio"
	"fmt"
	"io"
	"iter"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

type kind uint8

const (
	kStart kind = iota
	kSend
	kSendWait
	kRecv
	kClose
	kLen
	kLock
	kUnlock
	kRLock
	kRUnlock
	kTryLock
	kWgAdd
	kWgDone
	kWgWait
	kCondEnq
	kCondWake
	kCondSignal
	kCondBroadcast
	kAtomicLoad
	kAtomicRMW
	kFileRead
	kFileWrite
	kYield
	kSelect
	kChoice
	kQuiesce
	kEnd
)

var kindNames = [...]string{"start", "send", "send-taken", "recv", "close", "len", "lock", "unlock", "rlock", "runlock", "trylock", "wg.add", "wg.done", "wg.wait", "cond.wait", "cond.woken", "cond.signal", "cond.broadcast", "load", "rmw", "file-read", "file-write", "yield", "select", "choice", "quiesce", "end"}

const maxG = 64

// TooMany is the panic of a program that starts more goroutines in a run than there is room for.
const TooMany = "vsched: too many goroutines"

type node struct {
	val   any
	taken bool
	sent  byte // addresses for the race detector
	recvd byte
}

type obj struct {
	id     int
	key    unsafe.Pointer
	keep   any
	what   byte // 'c' channel, 'm' mutex, 'w' wait group, 'o' cond, 'a' atomic, 'f' file
	cap    int
	capSet bool
	closed bool
	nodes  []*node
	sent   int
	recvd  int
	locked bool
	reads  int // readers holding a RWMutex
	count  int // wait group
	enq    int // cond tickets handed out
	woken  int // tickets below this have been woken
	rel    byte
	rel2   byte
	clo    byte
}

type selCase struct {
	o    *obj
	send bool
	val  any
}

type op struct {
	k    kind
	o    *obj
	n    int
	sel  []selCase
	dflt bool
	pc   uintptr
}

type G struct {
	id      int
	wake    chan struct{}
	op      op
	done    bool
	started bool
	parent  int // entry index during which it was spawned
	exited  chan struct{}
	name    string
}

type frame struct {
	choice    bool // a data choice rather than a scheduling choice
	chosen    int
	enabled   uint64
	backtrack uint64
	done      uint64
	sleep     uint64
	k         kind
	o         int
	n         int
	cap       int
	closedRcv bool
	preempts  int
	cur       int
	pc        uintptr
	sel       []int // objects of a select
}

// Result of one explored schedule.
type Run struct {
	Panic      any // what a goroutine of the program panicked with, uncaught
	PanicStack string
	PanicG     int
	Deadlock   bool // the main body never finished and nothing can run
	Limit      bool // too many steps
	Leaked     []string
	Steps      int
}

type Config struct {
	Preempt  int // -1: partial-order reduction, all schedules; >=0: every schedule with at most this many preemptions
	MaxSteps int
	MaxRuns  int
	Deadline time.Time
}

type Stats struct {
	Runs, Pruned, Diverged int
	Transitions            int64
	MaxDepth               int
	Complete               bool
}

type sched struct {
	cfg       Config
	gs        [maxG]*G
	ng        int
	cur       *G
	objs      [8192]*obj
	objList   []*obj
	nobj      int
	frames    []*frame
	depth     int
	replayLen int
	sleep     uint64
	preempts  int
	dead      bool
	diverged  bool
	pruned    bool
	limit     bool
	failed    bool
	finished  chan struct{}
	panicV    any
	panicS    string
	panicG    int
	useSleep  bool
}

var (
	s      *sched
	active uint32
	// Everything a goroutine of a run did happens before what follows the run.
	runTag byte
)

// Active says whether a schedule is being explored right now.
func Active() bool { return atomic.LoadUint32(&active) == 1 }

// ---- objects

func (s *sched) obj(key unsafe.Pointer, keep any, what byte) *obj {
	h := (uintptr(key) >> 3) * 0x9E3779B1 >> 4
	for i := uintptr(0); ; i++ {
		p := (h + i) % 8192
		o := s.objs[p]
		if o == nil {
			o = &obj{id: s.nobj, key: key, keep: keep, what: what}
			s.objs[p] = o
			if s.nobj == len(s.objList) {
				n := make([]*obj, 2*s.nobj+64)
				for j := 0; j < s.nobj; j++ {
					n[j] = s.objList[j]
				}
				s.objList = n
			}
			s.objList[s.nobj] = o
			s.nobj++
			if s.nobj > 8000 {
				panic("vsched: too many objects")
			}
			return o
		}
		if o.key == key && o.what == what {
			return o
		}
	}
}

func (o *obj) push(n *node) {
	if o.sent == len(o.nodes) {
		m := make([]*node, 2*o.sent+8)
		for j := 0; j < o.sent; j++ {
			m[j] = o.nodes[j]
		}
		o.nodes = m
	}
	o.nodes[o.sent] = n
	o.sent++
}

// ---- enabledness

func (o *obj) canSend() bool {
	if o.key == nil {
		return false
	}
	return o.closed || o.cap == 0 || o.sent-o.recvd < o.cap
}

func (o *obj) canRecv() bool {
	if o.key == nil {
		return false
	}
	return o.sent > o.recvd || o.closed
}

func (s *sched) enabled(g *G) bool {
	p := &g.op
	switch p.k {
	case kSend:
		return p.o.canSend()
	case kSendWait:
		return p.o.nodes[p.n].taken
	case kRecv:
		return p.o.canRecv()
	case kLock:
		return !p.o.locked && p.o.reads == 0
	case kRLock:
		return !p.o.locked
	case kWgWait:
		return p.o.count == 0
	case kCondWake:
		return p.n < p.o.woken
	case kQuiesce:
		for i := 0; i < s.ng; i++ {
			o := s.gs[i]
			if o != g && !o.done && (o.op.k != kQuiesce && s.enabled(o) || o.op.k == kQuiesce && i < g.id) {
				return false
			}
		}
		return true
	case kSelect:
		if p.dflt {
			return true
		}
		for i := range p.sel {
			if s.selReady(&p.sel[i]) {
				return true
			}
		}
		return false
	}
	return true
}

func (s *sched) selReady(c *selCase) bool {
	if c.send {
		// a select send on an unbuffered channel needs a receiver that is already waiting
		if c.o.key != nil && c.o.cap == 0 && !c.o.closed {
			for i := 0; i < s.ng; i++ {
				g := s.gs[i]
				if !g.done && g != s.cur && g.op.k == kRecv && g.op.o == c.o && c.o.sent == c.o.recvd {
					return true
				}
			}
			return false
		}
		return c.o.canSend()
	}
	return c.o.canRecv()
}

// conflict: would exchanging two adjacent operations of different goroutines be visible?
func conflictKinds(k1 kind, o1 int, k2 kind, o2 int) bool {
	if o1 != o2 || o1 < 0 {
		return false
	}
	if k1 > k2 {
		k1, k2 = k2, k1
	}
	switch k1 {
	case kSend:
		return k2 == kSend || k2 == kClose || k2 == kLen
	case kRecv:
		return k2 == kRecv || k2 == kLen
	case kClose:
		return k2 == kClose || k2 == kLen
	case kLock:
		return k2 == kLock || k2 == kRLock || k2 == kTryLock
	case kUnlock, kRLock, kRUnlock:
		return k2 == kTryLock
	case kTryLock:
		return k2 == kTryLock
	case kWgAdd:
		return k2 == kWgWait || k2 == kWgDone
	case kCondEnq:
		return k2 == kCondEnq || k2 == kCondSignal || k2 == kCondBroadcast
	case kAtomicLoad:
		return k2 == kAtomicRMW
	case kAtomicRMW:
		return k2 == kAtomicRMW
	case kFileRead:
		return k2 == kFileWrite
	case kFileWrite:
		return k2 == kFileWrite
	}
	return false
}

func objID(o *obj) int {
	if o == nil {
		return -1
	}
	return o.id
}

// independent is used for sleep sets: conservative about select.
func (s *sched) independent(a, b *op) bool {
	if a.k == kSelect || b.k == kSelect {
		if a.k != kSelect {
			a, b = b, a
		}
		for i := range a.sel {
			if b.k == kSelect {
				for j := range b.sel {
					if a.sel[i].o == b.sel[j].o {
						return false
					}
				}
			} else if b.o == a.sel[i].o {
				return false
			}
		}
		return true
	}
	if conflictKinds(a.k, objID(a.o), b.k, objID(b.o)) {
		return false
	}
	return true
}

// ---- scheduling

func (s *sched) newFrame() *frame {
	if s.depth == len(s.frames) {
		m := make([]*frame, 2*s.depth+256)
		for j := 0; j < s.depth; j++ {
			m[j] = s.frames[j]
		}
		for j := s.depth; j < len(m); j++ {
			m[j] = &frame{}
		}
		s.frames = m
	}
	return s.frames[s.depth]
}

// pick chooses the next goroutine to run, or nil when this run is over.
func (s *sched) pick() *G {
	if s.failed {
		return nil
	}
	if s.depth >= s.cfg.MaxSteps {
		s.limit = true
		return nil
	}
	var mask uint64
	for i := 0; i < s.ng; i++ {
		if !s.gs[i].done && s.enabled(s.gs[i]) {
			mask |= 1 << uint(i)
		}
	}
	if mask == 0 {
		return nil
	}
	cur := s.cur.id
	curOn := mask&(1<<uint(cur)) != 0
	f := s.newFrame()
	var chosen int
	if s.depth < s.replayLen {
		chosen = f.chosen
		if f.choice || mask&(1<<uint(chosen)) == 0 || f.enabled != mask {
			s.diverged = true
			return nil
		}
	} else {
		cand := mask
		if s.useSleep {
			cand &^= s.sleep
		}
		if cand == 0 {
			s.pruned = true
			return nil
		}
		if cand&(1<<uint(cur)) != 0 {
			chosen = cur
		} else {
			for chosen = 0; cand&(1<<uint(chosen)) == 0; chosen++ {
			}
		}
		*f = frame{chosen: chosen, enabled: mask, backtrack: 1 << uint(chosen), sleep: s.sleep}
		if s.cfg.Preempt >= 0 && (!curOn || s.preempts < s.cfg.Preempt) {
			f.backtrack = mask
		}
	}
	g := s.gs[chosen]
	f.k, f.o, f.cur, f.pc = g.op.k, objID(g.op.o), cur, g.op.pc
	f.n, f.cap, f.closedRcv, f.sel = g.op.n, 0, false, nil
	if g.op.o != nil {
		f.cap = g.op.o.cap
		switch g.op.k {
		case kSend:
			f.n = g.op.o.sent
		case kRecv:
			f.n = g.op.o.recvd
			f.closedRcv = g.op.o.sent == g.op.o.recvd
		}
	}
	if g.op.k == kSelect {
		sel := make([]int, len(g.op.sel))
		for i := range sel {
			sel[i] = objID(g.op.sel[i].o)
		}
		f.sel = sel
	}
	if s.useSleep {
		var next uint64
		from := (f.sleep | f.done) &^ (1 << uint(chosen))
		for i := 0; i < s.ng; i++ {
			if from&(1<<uint(i)) != 0 && s.independent(&s.gs[i].op, &g.op) {
				next |= 1 << uint(i)
			}
		}
		s.sleep = next
	}
	if curOn && chosen != cur {
		s.preempts++
	}
	s.depth++
	s.cur = g
	return g
}

// choose is a data choice of 0..n-1 by the running goroutine.
func (s *sched) choose(n int) int {
	if n <= 1 {
		return 0
	}
	f := s.newFrame()
	if s.depth < s.replayLen {
		if !f.choice {
			s.diverged = true
			s.failed = true
			return 0
		}
	} else {
		*f = frame{choice: true, chosen: 0, enabled: 1<<uint(n) - 1, backtrack: 1<<uint(n) - 1}
	}
	f.k, f.o, f.cur = kChoice, -1, s.cur.id
	s.depth++
	return f.chosen
}

func callerPC() uintptr {
	var pcs [12]uintptr
	n := runtime.Callers(4, pcs[:])
	for i := 0; i < n; i++ {
		fn := runtime.FuncForPC(pcs[i] - 1)
		if fn != nil {
			file, _ := fn.FileLine(pcs[i] - 1)
			if !strings.Contains(file, "/zz_verif/v") && !strings.Contains(file, "/verif/go/v") {
				return pcs[i]
			}
		}
	}
	return 0
}

var TracePCs = false

func (s *sched) park(g *G) {
	raceOff()
	<-g.wake
	raceOn()
	if s.dead {
		runtime.Goexit()
	}
}

func (s *sched) unpark(g *G) {
	raceOff()
	g.wake <- struct{}{}
	raceOn()
}

func (s *sched) end() {
	raceOff()
	s.finished <- struct{}{}
	raceOn()
}

// point announces an operation of the running goroutine and returns when it is to be carried out.
func (s *sched) point(o op) {
	g := s.cur
	if TracePCs {
		o.pc = callerPC()
	}
	g.op = o
	n := s.pick()
	if n == g {
		return
	}
	if n == nil {
		s.end()
	} else {
		s.unpark(n)
	}
	s.park(g)
}

func (s *sched) spawn(name string, fn func()) *G {
	if s.ng >= maxG {
		panic(TooMany)
	}
	g := &G{id: s.ng, wake: kept(&wakes[s.ng]), exited: kept(&exits[s.ng]), parent: s.depth - 1, name: name}
	g.op = op{k: kStart}
	s.gs[s.ng] = g
	s.ng++
	go gmain(s, g, fn)
	return g
}

// The channels of the hand-overs outlive the runs: they are touched after a goroutine's last ordering release, and the
// race detector would blame whoever the memory goes to next.
var wakes, exits [maxG]chan struct{}
var ends chan struct{}

func kept(c *chan struct{}) chan struct{} {
	if *c == nil {
		*c = make(chan struct{}, 1)
	}
	select {
	case <-*c:
	default:
	}
	return *c
}

func gmain(s *sched, g *G, fn func()) {
	normal := false
	defer func() {
		raceRelease(unsafe.Pointer(&runTag))
		if s.dead {
			recover()
			raceOff()
			g.exited <- struct{}{}
			raceOn()
			return
		}
		g.done = true
		if !normal {
			if r := recover(); r != nil {
				s.panicV, s.panicS, s.panicG = r, string(debug.Stack()), g.id
				s.failed = true
				raceRelease(unsafe.Pointer(&runTag))
			}
		}
		n := s.pick()
		if n == nil {
			s.end()
		} else {
			s.unpark(n)
		}
	}()
	s.park(g)
	fn()
	normal = true
}

// ---- exploration

// Explore runs body under every schedule. before prepares a run and after judges it (both outside the controlled
// program); after returns a message to stop at this schedule, which is then described by the returned trace.
func Explore(cfg Config, before func(), body func(), after func(Run) string) (st Stats, msg string, trace string) {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20000
	}
	x := &sched{cfg: cfg, useSleep: cfg.Preempt < 0}
	for {
		before()
		r := x.run(body)
		st.Transitions += int64(x.depth)
		if x.depth > st.MaxDepth {
			st.MaxDepth = x.depth
		}
		if x.diverged {
			st.Diverged++
		} else if x.pruned {
			st.Pruned++
		} else {
			st.Runs++
			if m := after(r); m != "" {
				// once more along the same schedule, noting source positions
				TracePCs = true
				x.replayLen = x.depth
				before()
				x.run(body)
				TracePCs = false
				return st, m, x.describe()
			}
		}
		if cfg.Preempt < 0 && !x.diverged {
			x.analyse()
		}
		if !x.backtrack() {
			st.Complete = st.Diverged == 0
			return st, "", ""
		}
		if cfg.MaxRuns > 0 && st.Runs+st.Pruned >= cfg.MaxRuns || !cfg.Deadline.IsZero() && time.Now().After(cfg.Deadline) {
			return st, "", ""
		}
	}
}

func (x *sched) run(body func()) Run {
	x.ng, x.nobj, x.depth, x.sleep, x.preempts = 0, 0, 0, 0, 0
	for i := range x.objs {
		x.objs[i] = nil
	}
	for i := range x.gs {
		x.gs[i] = nil
	}
	x.dead, x.diverged, x.pruned, x.limit, x.failed = false, false, false, false, false
	x.panicV, x.panicS, x.panicG = nil, "", 0
	x.finished = kept(&ends)
	s = x
	g0 := x.spawn("main", body)
	x.cur = g0
	atomic.StoreUint32(&active, 1)
	n := x.pick()
	x.unpark(n)
	<-x.finished
	r := Run{Panic: x.panicV, PanicStack: x.panicS, PanicG: x.panicG, Limit: x.limit, Steps: x.depth}
	if !x.failed && !x.pruned && !x.diverged && !x.limit {
		r.Deadlock = !g0.done
		for i := 0; i < x.ng; i++ {
			if g := x.gs[i]; !g.done {
				r.Leaked = append(r.Leaked, fmt.Sprintf("goroutine %d blocked at %s of object %d", g.id, kindNames[g.op.k], objID(g.op.o)))
			}
		}
	}
	// release whatever is left
	x.dead = true
	for i := 0; i < x.ng; i++ {
		if g := x.gs[i]; !g.done {
			g.wake <- struct{}{}
			<-g.exited
		}
	}
	raceAcquire(unsafe.Pointer(&runTag))
	atomic.StoreUint32(&active, 0)
	s = nil
	return r
}

type entry struct {
	g, o, n, cap int
	k            kind
	closedRcv    bool
	sel          []int
	frame        int
	parent       int
}

func race(a, b *entry) bool {
	if a.k == kSelect || b.k == kSelect {
		if a.k != kSelect {
			a, b = b, a
		}
		for _, o := range a.sel {
			if b.k == kSelect {
				for _, q := range b.sel {
					if o == q {
						return true
					}
				}
			} else if o == b.o && o >= 0 {
				return true
			}
		}
		return false
	}
	return conflictKinds(a.k, a.o, b.k, b.o)
}

// ordered: does the earlier entry a have to come before b (besides program order)?
func ordered(a, b *entry) bool {
	if race(a, b) {
		return true
	}
	if a.o != b.o || a.o < 0 {
		return false
	}
	switch b.k {
	case kRecv:
		return a.k == kSend && (a.n == b.n) || a.k == kClose && b.closedRcv
	case kSendWait:
		return a.k == kRecv && a.n == b.n
	case kSend:
		return a.k == kRecv && b.cap > 0 && a.n+b.cap <= b.n
	case kLock, kTryLock:
		return a.k == kUnlock || a.k == kRUnlock
	case kRLock:
		return a.k == kUnlock
	case kWgWait:
		return a.k == kWgDone
	case kCondWake:
		return a.k == kCondSignal || a.k == kCondBroadcast
	}
	return false
}

// analyse adds backtracking points for every reversible race of the run just made.
func (x *sched) analyse() {
	var es []entry
	for i := 0; i < x.depth; i++ {
		f := x.frames[i]
		if f.choice {
			continue
		}
		es = append(es, entry{g: f.chosen, o: f.o, n: f.n, cap: f.cap, k: f.k, closedRcv: f.closedRcv, sel: f.sel, frame: i})
	}
	real := len(es)
	for i := 0; i < x.ng; i++ {
		if g := x.gs[i]; !g.done {
			e := entry{g: i, o: objID(g.op.o), n: g.op.n, k: g.op.k, frame: -1}
			if g.op.o != nil {
				e.cap = g.op.o.cap
				if g.op.k == kSend {
					e.n = g.op.o.sent
				} else if g.op.k == kRecv {
					e.n = g.op.o.recvd
				}
			}
			for _, c := range g.op.sel {
				e.sel = append(e.sel, objID(c.o))
			}
			es = append(es, e)
		}
	}
	ng := x.ng
	clocks := make([][]int32, real)
	counts := make([]int32, ng) // how many entries of each goroutine so far
	last := make([]int, ng)     // last entry of each goroutine
	pos := make([]int32, real)  // position of an entry within its goroutine (from 1)
	for i := range last {
		last[i] = -1
	}
	frameToEntry := map[int]int{}
	byObj := map[int][]int{}
	var selects []int
	for j := range es {
		e := &es[j]
		p := e.g
		// clock of p before this entry
		c := make([]int32, ng)
		if last[p] >= 0 {
			copyClock(c, clocks[last[p]])
		} else if par := x.gs[p].parent; par >= 0 {
			for ; par >= 0; par-- {
				if k, ok := frameToEntry[par]; ok {
					copyClock(c, clocks[k])
					break
				}
			}
		}
		// candidates: entries on the same object(s)
		var cand []int
		if e.k == kSelect {
			seen := map[int]bool{}
			for _, o := range e.sel {
				for _, i := range byObj[o] {
					if !seen[i] {
						seen[i] = true
						cand = append(cand, i)
					}
				}
			}
			sort.Ints(cand)
		} else if e.o >= 0 {
			cand = byObj[e.o]
		}
		for q := len(cand) - 1; q >= 0; q-- {
			i := cand[q]
			a := &es[i]
			if a.g == p || !race(a, e) {
				continue
			}
			if pos[i] <= c[a.g] {
				continue // already ordered before p got here
			}
			f := x.frames[a.frame]
			if f.enabled&(1<<uint(p)) != 0 {
				f.backtrack |= 1 << uint(p)
			} else {
				f.backtrack |= f.enabled
			}
			break
		}
		if j >= real {
			continue
		}
		for _, i := range cand {
			if es[i].g != p && ordered(&es[i], e) {
				for g := range c {
					if clocks[i][g] > c[g] {
						c[g] = clocks[i][g]
					}
				}
			}
		}
		if e.k == kQuiesce {
			for _, i := range last {
				if i >= 0 {
					for g := range c {
						if clocks[i][g] > c[g] {
							c[g] = clocks[i][g]
						}
					}
				}
			}
		}
		counts[p]++
		pos[j] = counts[p]
		c[p] = counts[p]
		clocks[j] = c
		last[p] = j
		frameToEntry[e.frame] = j
		if e.k == kSelect {
			for _, o := range e.sel {
				if o >= 0 {
					byObj[o] = append(byObj[o], j)
				}
			}
			selects = append(selects, j)
		} else if e.o >= 0 {
			byObj[e.o] = append(byObj[e.o], j)
		}
	}
}

func copyClock(dst, src []int32) {
	for i := range src {
		if i < len(dst) {
			dst[i] = src[i]
		}
	}
}

// backtrack moves to the next unexplored choice; false when there is none.
func (x *sched) backtrack() bool {
	d := x.depth
	if x.diverged {
		// The program took another path on the same choices: give up the deepest choice replayed.
		if x.replayLen < d {
			d = x.replayLen
		} else {
			d = x.replayLen
		}
	}
	for d--; d >= 0; d-- {
		f := x.frames[d]
		f.done |= 1 << uint(f.chosen)
		alt := f.backtrack &^ f.done
		if x.useSleep && !f.choice {
			alt &^= f.sleep
		}
		if alt != 0 {
			for f.chosen = 0; alt&(1<<uint(f.chosen)) == 0; f.chosen++ {
			}
			x.replayLen = d + 1
			return true
		}
	}
	return false
}

func (x *sched) describe() string {
	var b strings.Builder
	last := -1
	for i := 0; i < x.depth && i < 600; i++ {
		f := x.frames[i]
		if f.choice {
			fmt.Fprintf(&b, " choice=%d", f.chosen)
			continue
		}
		if f.chosen != last {
			fmt.Fprintf(&b, "\n  g%d:", f.chosen)
			last = f.chosen
		}
		fmt.Fprintf(&b, " %s", kindNames[f.k])
		if f.o >= 0 {
			fmt.Fprintf(&b, "(%d)", f.o)
		}
		if f.pc != 0 {
			fn := runtime.FuncForPC(f.pc - 1)
			file, line := fn.FileLine(f.pc - 1)
			fmt.Fprintf(&b, "@%s:%d", file[strings.LastIndexByte(file, '/')+1:], line)
		}
	}
	return b.String()
}

// ---- operations

// Go starts a goroutine.
func Go(fn func()) {
	if s == nil {
		go fn()
		return
	}
	if s.dead {
		return
	}
	s.spawn("", fn)
}

func chanObj(p unsafe.Pointer, c int, keep any) *obj {
	o := s.obj(p, keep, 'c')
	if !o.capSet {
		o.capSet = true
		o.cap = c
	}
	return o
}

func chanKey[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func ptrOf(i unsafe.Pointer) unsafe.Pointer { return *(*unsafe.Pointer)(i) }

// MakeChan replaces make(chan T, n).
func MakeChan[T any](n int) chan T {
	if s == nil || s.dead {
		return make(chan T, n)
	}
	ch := make(chan T)
	o := s.obj(chanKey(ch), ch, 'c')
	o.capSet, o.cap = true, n
	return ch
}

// SendTo(ch)(v) replaces ch <- v.
func SendTo[T any](ch chan<- T) func(T) {
	if s == nil {
		return func(v T) { ch <- v }
	}
	return func(v T) { sendAny(ptrOf(unsafe.Pointer(&ch)), cap(ch), ch, v) }
}

func sendAny(p unsafe.Pointer, c int, keep any, v any) {
	if s.dead {
		return
	}
	o := chanObj(p, c, keep)
	s.point(op{k: kSend, o: o})
	s.doSend(o, v)
}

func (s *sched) doSend(o *obj, v any) {
	if o.closed {
		panic("send on closed channel")
	}
	n := &node{val: v}
	k := o.sent
	if o.cap > 0 && k >= o.cap {
		raceAcquire(unsafe.Pointer(&o.nodes[k-o.cap].recvd))
	}
	raceRelease(unsafe.Pointer(&n.sent))
	o.push(n)
	if o.cap == 0 {
		s.point(op{k: kSendWait, o: o, n: k})
		raceAcquire(unsafe.Pointer(&n.recvd))
	}
}

func recvAny(p unsafe.Pointer, c int, keep any) (any, bool) {
	if s.dead {
		return nil, false
	}
	o := chanObj(p, c, keep)
	s.point(op{k: kRecv, o: o})
	return s.doRecv(o)
}

func (s *sched) doRecv(o *obj) (any, bool) {
	if o.recvd < o.sent {
		n := o.nodes[o.recvd]
		o.recvd++
		n.taken = true
		raceAcquire(unsafe.Pointer(&n.sent))
		raceRelease(unsafe.Pointer(&n.recvd))
		return n.val, true
	}
	raceAcquire(unsafe.Pointer(&o.clo))
	return nil, false
}

// Recv2 replaces v, ok := <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	if s == nil {
		v, ok = <-ch
		return
	}
	x, ok := recvAny(ptrOf(unsafe.Pointer(&ch)), cap(ch), ch)
	if x != nil {
		v = x.(T)
	}
	return v, ok
}

func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Seq replaces range over a channel.
func Seq[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

func Close[T any](ch chan<- T) {
	if s == nil {
		close(ch)
		return
	}
	closeAny(ptrOf(unsafe.Pointer(&ch)), cap(ch), ch)
}

func closeAny(p unsafe.Pointer, c int, keep any) {
	if s.dead {
		return
	}
	if p == nil {
		panic("close of nil channel")
	}
	o := chanObj(p, c, keep)
	s.point(op{k: kClose, o: o})
	if o.closed {
		panic("close of closed channel")
	}
	o.closed = true
	raceRelease(unsafe.Pointer(&o.clo))
}

func Len[T any](ch <-chan T) int {
	if s == nil {
		return len(ch)
	}
	if s.dead {
		return 0
	}
	o := chanObj(ptrOf(unsafe.Pointer(&ch)), cap(ch), ch)
	s.point(op{k: kLen, o: o})
	if o.cap == 0 {
		return 0
	}
	return o.sent - o.recvd
}

func Cap[T any](ch <-chan T) int {
	if s == nil || s.dead {
		return cap(ch)
	}
	return chanObj(ptrOf(unsafe.Pointer(&ch)), cap(ch), ch).cap
}

// Case is one case of a select.
type Case struct {
	key  unsafe.Pointer
	capn int
	keep any
	send bool
	val  any
	try  func() (any, bool, bool)
}

func CaseRecv[T any](ch <-chan T) Case {
	return Case{key: ptrOf(unsafe.Pointer(&ch)), capn: cap(ch), keep: ch, try: func() (any, bool, bool) {
		select {
		case v, ok := <-ch:
			return v, ok, true
		default:
			return nil, false, false
		}
	}}
}

func CaseSend[T any](ch chan<- T, v T) Case {
	return Case{key: ptrOf(unsafe.Pointer(&ch)), capn: cap(ch), keep: ch, send: true, val: v, try: func() (any, bool, bool) {
		select {
		case ch <- v:
			return nil, false, true
		default:
			return nil, false, false
		}
	}}
}

// Val gives the received value its type.
func Val[T any](_ <-chan T, v any) (r T) {
	if v != nil {
		r = v.(T)
	}
	return
}

// Select returns the index of the case taken (-1: default), and what it received.
func Select(dflt bool, cases ...Case) (int, any, bool) {
	if s == nil {
		for {
			for i := range cases {
				if v, ok, did := cases[i].try(); did {
					return i, v, ok
				}
			}
			if dflt {
				return -1, nil, false
			}
			time.Sleep(10 * time.Microsecond)
		}
	}
	if s.dead {
		return -1, nil, false
	}
	sel := make([]selCase, len(cases))
	for i := range cases {
		sel[i] = selCase{o: chanObj(cases[i].key, cases[i].capn, cases[i].keep), send: cases[i].send, val: cases[i].val}
	}
	s.point(op{k: kSelect, sel: sel, dflt: dflt})
	n := 0
	for i := range sel {
		if s.selReady(&sel[i]) {
			n++
		}
	}
	if n == 0 {
		return -1, nil, false
	}
	pick := s.choose(n)
	for i := range sel {
		if s.selReady(&sel[i]) {
			if pick == 0 {
				if sel[i].send {
					s.doSend(sel[i].o, sel[i].val)
					return i, nil, false
				}
				v, ok := s.doRecv(sel[i].o)
				return i, v, ok
			}
			pick--
		}
	}
	panic("vsched: select")
}

// Lock and the rest model a mutex at an address; false means that no exploration is active.
func Lock(p unsafe.Pointer, keep any) bool {
	if s == nil {
		return false
	}
	if s.dead {
		return true
	}
	o := s.obj(p, keep, 'm')
	s.point(op{k: kLock, o: o})
	o.locked = true
	raceAcquire(unsafe.Pointer(&o.rel))
	raceAcquire(unsafe.Pointer(&o.rel2))
	return true
}

func TryLock(p unsafe.Pointer, keep any) (bool, bool) {
	if s == nil {
		return false, false
	}
	if s.dead {
		return true, true
	}
	o := s.obj(p, keep, 'm')
	s.point(op{k: kTryLock, o: o})
	if o.locked || o.reads > 0 {
		return false, true
	}
	o.locked = true
	raceAcquire(unsafe.Pointer(&o.rel))
	raceAcquire(unsafe.Pointer(&o.rel2))
	return true, true
}

func Unlock(p unsafe.Pointer, keep any) bool {
	if s == nil {
		return false
	}
	if s.dead {
		return true
	}
	o := s.obj(p, keep, 'm')
	s.point(op{k: kUnlock, o: o})
	if !o.locked {
		panic("sync: unlock of unlocked mutex")
	}
	o.locked = false
	raceRelease(unsafe.Pointer(&o.rel))
	return true
}

func RLock(p unsafe.Pointer, keep any) bool {
	if s == nil {
		return false
	}
	if s.dead {
		return true
	}
	o := s.obj(p, keep, 'm')
	s.point(op{k: kRLock, o: o})
	o.reads++
	raceAcquire(unsafe.Pointer(&o.rel))
	return true
}

func RUnlock(p unsafe.Pointer, keep any) bool {
	if s == nil {
		return false
	}
	if s.dead {
		return true
	}
	o := s.obj(p, keep, 'm')
	s.point(op{k: kRUnlock, o: o})
	if o.reads == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	o.reads--
	raceRelease(unsafe.Pointer(&o.rel2))
	return true
}

func WgAdd(p unsafe.Pointer, keep any, n int) bool {
	if s == nil {
		return false
	}
	if s.dead {
		return true
	}
	o := s.obj(p, keep, 'w')
	k := kWgAdd
	if n < 0 {
		k = kWgDone
	}
	s.point(op{k: k, o: o, n: n})
	o.count += n
	if o.count < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if n < 0 {
		raceRelease(unsafe.Pointer(&o.rel))
	}
	return true
}

func WgWait(p unsafe.Pointer, keep any) bool {
	if s == nil {
		return false
	}
	if s.dead {
		return true
	}
	o := s.obj(p, keep, 'w')
	s.point(op{k: kWgWait, o: o})
	raceAcquire(unsafe.Pointer(&o.rel))
	return true
}

// CondEnq announces a waiter and returns its ticket.
func CondEnq(p unsafe.Pointer, keep any) (int, bool) {
	if s == nil {
		return 0, false
	}
	if s.dead {
		return 0, true
	}
	o := s.obj(p, keep, 'o')
	s.point(op{k: kCondEnq, o: o})
	o.enq++
	return o.enq - 1, true
}

func CondWake(p unsafe.Pointer, keep any, ticket int) {
	if s.dead {
		return
	}
	o := s.obj(p, keep, 'o')
	s.point(op{k: kCondWake, o: o, n: ticket})
	raceAcquire(unsafe.Pointer(&o.rel))
}

func CondSignal(p unsafe.Pointer, keep any, all bool) bool {
	if s == nil {
		return false
	}
	if s.dead {
		return true
	}
	o := s.obj(p, keep, 'o')
	k := kCondSignal
	if all {
		k = kCondBroadcast
	}
	s.point(op{k: k, o: o})
	raceRelease(unsafe.Pointer(&o.rel))
	if all {
		o.woken = o.enq
	} else if o.woken < o.enq {
		o.woken++
	}
	return true
}

// Atomic is the scheduling point before an atomic operation, which itself is then done natively.
func Atomic(p unsafe.Pointer, keep any, write bool) {
	if s == nil || s.dead {
		return
	}
	o := s.obj(p, keep, 'a')
	k := kAtomicLoad
	if write {
		k = kAtomicRMW
	}
	s.point(op{k: k, o: o})
}

// Yield is a scheduling point without effect.
func Yield() {
	if s == nil || s.dead {
		return
	}
	s.point(op{k: kYield})
}

// Quiesce returns once no other goroutine can do anything.
func Quiesce() {
	if s == nil || s.dead {
		return
	}
	s.point(op{k: kQuiesce})
	raceAcquire(unsafe.Pointer(&runTag))
}

var heapTag byte

// Heap is what ReadMemStats reports during an exploration.
var Heap func(m *runtime.MemStats)

// HeapChange is the scheduling point before a change of what Heap reports.
func HeapChange() { Atomic(unsafe.Pointer(&heapTag), nil, true) }

func ReadMemStats(m *runtime.MemStats) {
	if s == nil || s.dead || Heap == nil {
		runtime.ReadMemStats(m)
		return
	}
	Atomic(unsafe.Pointer(&heapTag), nil, false)
	Heap(m)
}

// Me is the number of the running goroutine of the exploration.
func Me() int {
	if s == nil {
		return -1
	}
	return s.cur.id
}

var fileNames [512]string
var nFileNames int
var fileKeys [512]byte

func fileKey(name string) unsafe.Pointer {
	for i := 0; i < nFileNames; i++ {
		if fileNames[i] == name {
			return unsafe.Pointer(&fileKeys[i])
		}
	}
	if nFileNames == len(fileNames) {
		nFileNames = 0 // names are only compared within one run; wrapping merges objects, which is safe
	}
	fileNames[nFileNames] = name
	nFileNames++
	return unsafe.Pointer(&fileKeys[nFileNames-1])
}

// FR and FW are scheduling points before a read or write of an open file.
func FR(f *os.File) *os.File { fileOp(f, kFileRead); return f }
func FW(f *os.File) *os.File { fileOp(f, kFileWrite); return f }

func fileOp(f *os.File, k kind) {
	if s == nil || s.dead || f == nil || f == os.Stdout || f == os.Stderr {
		return
	}
	s.point(op{k: k, o: s.obj(fileKey(f.Name()), nil, 'f')})
}

// ---- stand-ins for library calls

func Sleep(d time.Duration) {
	if s == nil {
		time.Sleep(d)
		return
	}
	Yield()
}

func Gosched() {
	if s == nil {
		runtime.Gosched()
		return
	}
	Yield()
}

func GC() {
	if s == nil {
		runtime.GC()
	}
}

// NewReaderSize keeps huge read buffers small during exploration.
func NewReaderSize(r io.Reader, n int) *bufio.Reader {
	if s != nil && n > 1<<16 && n%4096 == 0 {
		n = 4096
	}
	return bufio.NewReaderSize(r, n)
}

func NewWriterSize(w io.Writer, n int) *bufio.Writer {
	if s != nil && n > 1<<16 && n%4096 == 0 {
		n = 4096
	}
	return bufio.NewWriterSize(w, n)
}

// MapSeq ranges over a map in a fixed order, so that schedules can be replayed.
func MapSeq[K comparable, V any](m map[K]V) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if s == nil {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
			return
		}
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return less(any(keys[i]), any(keys[j])) })
		if MapReverse {
			for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapReverse makes map ranges run the other way round.
var MapReverse bool

func less(a, b any) bool {
	switch x := a.(type) {
	case int:
		return x < b.(int)
	case int64:
		return x < b.(int64)
	case string:
		return x < b.(string)
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

var _ sync.Locker
