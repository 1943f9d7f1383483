// Package vk is the exploration kernel shared by all checks: it runs enumerated cases of real-code-versus-model
// comparison in sharded child processes, records what was covered, attributes crashes and hangs to the case that
// caused them, confirms every violation by re-running it, and writes evidence and replay files.
package vk

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Spec describes a check.
type Spec struct {
	Property string
	Level    string // model_checking by default
	Shards   int    // child processes
	// Limit is the wall time after which a single case is taken to hang (cases normally take milliseconds).
	CaseLimit time.Duration
	// Budget is the exploration time after which remaining cases are skipped (reported as not exhaustive).
	QuickBudget, ThoroughBudget time.Duration
	Rule                        string
	Bounds                      func(tier string) map[string]any
	Assumptions                 []string
	MemLimitGB                  int
	Run                         func(c *Ctx)
}

type Ctx struct {
	Tier     string
	Seed     int64
	shard    int
	nshards  int
	only     string // replay exactly this case
	noKnown  bool
	slot     *os.File
	slotBuf  [512]byte
	scratch  string
	dirN     int
	deadline time.Time
	caseLim  time.Duration
	known    []Known
	res      Result
	states   map[uint64]struct{}
	outcomes map[string]int64
	groups   map[string]*groupStat
	order    []string
	stop     bool
	errW     *os.File
	spec     *Spec
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier, t in the thorough tier.
func Pick[T any](c *Ctx, q, t T) T {
	if c.Thorough() {
		return t
	}
	return q
}

type groupStat struct {
	Cases   int64 `json:"cases"`
	Skipped int64 `json:"skipped"`
	n       int64
}

type Violation struct {
	Case  string `json:"case"`
	Key   string `json:"key"`
	Desc  string `json:"desc"`
	Msg   string `json:"msg"`
	Known bool   `json:"known"`
	Repro int    `json:"reproduced_of_5"`
}

type Result struct {
	Evals       int64                 `json:"evals"`
	Transitions int64                 `json:"transitions"`
	Nontrivial  int64                 `json:"nontrivial"`
	Skipped     int64                 `json:"skipped"`
	Violations  []Violation           `json:"violations"`
	KnownHits   map[string]string     `json:"known_hits"`
	Outcomes    map[string]int64      `json:"outcomes"`
	Groups      map[string]*groupStat `json:"groups"`
	GroupOrder  []string              `json:"group_order"`
	Samples     []string              `json:"samples"`
	Extra       map[string]int64      `json:"extra"`
	Flaky       []string              `json:"flaky"`
	Complete    bool                  `json:"complete"`
}

type Known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

type vkFail struct{ key, msg string }

// T is one running case.
type T struct {
	c     *Ctx
	group string
	id    string
	desc  func() string
	dirs  []string
	trace []string
	quiet bool
	defs  []func()
}

// Tracef appends to the step trace included in a violation report.
func (t *T) Tracef(f string, a ...any) {
	if len(t.trace) < 400 {
		t.trace = append(t.trace, fmt.Sprintf(f, a...))
	}
}

func (t *T) Fail(f string, a ...any) { panic(vkFail{t.group, fmt.Sprintf(f, a...)}) }

// FailKey fails with a key that identifies the specific failing input or site (for known findings).
func (t *T) FailKey(key string, f string, a ...any) { panic(vkFail{key, fmt.Sprintf(f, a...)}) }

// Step counts executed model transitions (each also executed on the implementation).
func (t *T) Step(n int) {
	if !t.quiet {
		t.c.res.Transitions += int64(n)
	}
}

// State records a reached model state.
func (t *T) State(parts ...any) {
	if t.quiet {
		return
	}
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	t.c.states[h.Sum64()] = struct{}{}
}

// StateHash records a reached model state by a hash the caller computed.
func (t *T) StateHash(h uint64) {
	if !t.quiet {
		t.c.states[h] = struct{}{}
	}
}

// Outcome tallies distinct observed outcomes.
func (t *T) Outcome(s string) {
	if t.quiet {
		return
	}
	if len(t.c.outcomes) < 5000 || t.c.outcomes[s] > 0 {
		t.c.outcomes[s]++
	}
}

// Nontrivial counts a case that exercised the interesting path.
func (t *T) Nontrivial() {
	if !t.quiet {
		t.c.res.Nontrivial++
	}
}

func (t *T) Extra(name string, n int64) {
	if !t.quiet {
		t.c.res.Extra[name] += n
	}
}

func (t *T) Thorough() bool { return t.c.Thorough() }

// Defer runs f when the case ends, whatever happens.
func (t *T) Defer(f func()) { t.defs = append(t.defs, f) }

// Dir makes a fresh empty scratch directory for this case.
func (t *T) Dir() string {
	t.c.dirN++
	d := filepath.Join(t.c.scratch, fmt.Sprintf("d%d", t.c.dirN))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(harnessError{err})
	}
	t.dirs = append(t.dirs, d)
	return d
}

type harnessError struct{ err error }

// Must aborts the check (not a violation) when the harness itself cannot work.
func Must(err error) {
	if err != nil {
		panic(harnessError{err})
	}
}

// Try runs f and returns what it panicked with, if anything.
func Try(f func()) (p any) {
	defer func() {
		p = recover()
		switch p.(type) {
		case vkFail, harnessError:
			panic(p)
		}
	}()
	f()
	return nil
}

// Case runs one enumerated case.
func (c *Ctx) Case(group string, desc func() string, fn func(t *T)) {
	c.CaseLimit(group, 0, desc, fn)
}

// Active says whether the next case of the group would run here (lets callers skip expensive preparation).
func (c *Ctx) CaseLimit(group string, lim time.Duration, desc func() string, fn func(t *T)) {
	g := c.groups[group]
	if g == nil {
		g = &groupStat{}
		c.groups[group] = g
		c.order = append(c.order, group)
	}
	idx := g.n
	g.n++
	id := ""
	if c.only != "" {
		id = group + "#" + strconv.FormatInt(idx, 10)
		if id != c.only {
			return
		}
	} else {
		if int(idx)%c.nshards != c.shard || c.stop {
			return
		}
		if time.Now().After(c.deadline) {
			g.Skipped++
			c.res.Skipped++
			return
		}
		id = group + "#" + strconv.FormatInt(idx, 10)
	}
	c.mark(id, lim)
	g.Cases++
	c.res.Evals++
	t := &T{c: c, group: group, id: id, desc: desc}
	f := c.runOnce(t, fn)
	if len(c.res.Samples) < 6 && (g.Cases == 1 || g.Cases == 7) && desc != nil {
		c.res.Samples = append(c.res.Samples, group+": "+desc())
	}
	if f == nil {
		return
	}
	// Confirm by re-running.
	repro := 0
	for i := 0; i < 5; i++ {
		c.mark(id, lim)
		t2 := &T{c: c, group: group, id: id, desc: desc, quiet: true}
		if f2 := c.runOnce(t2, fn); f2 != nil {
			repro++
			t.trace = t2.trace
		}
	}
	d := ""
	if desc != nil {
		d = desc()
	}
	msg := f.msg
	if len(t.trace) > 0 {
		msg += "\n  trace: " + strings.Join(t.trace, "\n         ")
	}
	if repro < 3 {
		c.res.Flaky = append(c.res.Flaky, id+": "+f.msg)
		return
	}
	v := Violation{Case: id, Key: f.key, Desc: d, Msg: msg, Repro: repro}
	for _, k := range c.known {
		if k.Property == c.spec.Property && k.Key == f.key && k.Status != "fixed" {
			c.res.KnownHits[k.Key] = k.What
			v.Known = true
		}
	}
	if v.Known {
		return
	}
	c.res.Violations = append(c.res.Violations, v)
	if len(c.res.Violations) >= 3 {
		c.stop = true
	}
}

func (c *Ctx) mark(id string, lim time.Duration) {
	if c.slot == nil {
		return
	}
	if lim == 0 {
		lim = c.caseLim
	}
	s := fmt.Sprintf("%d %d %s\n", time.Now().UnixNano(), lim.Nanoseconds(), id)
	n := copy(c.slotBuf[:], s)
	for i := n; i < len(c.slotBuf); i++ {
		c.slotBuf[i] = 0
	}
	c.slot.WriteAt(c.slotBuf[:], 0)
}

func (c *Ctx) runOnce(t *T, fn func(t *T)) (f *vkFail) {
	defer func() {
		for i := len(t.defs) - 1; i >= 0; i-- {
			func() {
				defer func() { recover() }()
				t.defs[i]()
			}()
		}
		for _, d := range t.dirs {
			os.RemoveAll(d)
		}
	}()
	defer func() {
		if p := recover(); p != nil {
			switch x := p.(type) {
			case vkFail:
				f = &x
			case harnessError:
				fmt.Fprintf(c.errW, "HARNESS-ERROR in %s: %v\n", t.id, x.err)
				os.Exit(3)
			default:
				st := string(debug.Stack())
				f = &vkFail{t.group, fmt.Sprintf("panic: %v\n%s", p, trimStack(st))}
			}
		}
	}()
	fn(t)
	return nil
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "pudding-shed") || strings.Contains(lines[i], "/repo/") {
			out = append(out, "    "+strings.TrimSpace(lines[i]))
		}
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Main is the entry point of a check's binary.
func Main(spec Spec) {
	if spec.Level == "" {
		spec.Level = "model_checking"
	}
	if spec.Shards == 0 {
		spec.Shards = 8
	}
	if spec.CaseLimit == 0 {
		spec.CaseLimit = 60 * time.Second
	}
	if spec.QuickBudget == 0 {
		spec.QuickBudget = 200 * time.Second
	}
	if spec.ThoroughBudget == 0 {
		spec.ThoroughBudget = 1500 * time.Second
	}
	if spec.MemLimitGB == 0 {
		spec.MemLimitGB = 8
	}
	if os.Getenv("VK_CHILD") != "" {
		child(&spec)
		return
	}
	os.Exit(parent(&spec))
}

func loadKnown() []Known {
	var ks []Known
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &ks); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(3)
		}
	}
	return ks
}

func verifDir() string {
	if d := os.Getenv("VK_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func tier() string {
	t := os.Getenv("VK_TIER")
	if t != "thorough" {
		t = "quick"
	}
	return t
}

func seed() int64 {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if s == 0 {
		s = 1
	}
	return s
}

func child(spec *Spec) {
	c := &Ctx{Tier: tier(), Seed: seed(), spec: spec}
	c.shard, _ = strconv.Atoi(os.Getenv("VK_SHARD"))
	c.nshards, _ = strconv.Atoi(os.Getenv("VK_NSHARDS"))
	c.only = os.Getenv("VK_ONLY")
	c.caseLim = spec.CaseLimit
	c.scratch = os.Getenv("VK_SCRATCH")
	c.known = loadKnown()
	c.states = map[uint64]struct{}{}
	c.outcomes = map[string]int64{}
	c.groups = map[string]*groupStat{}
	c.res.KnownHits = map[string]string{}
	c.res.Extra = map[string]int64{}
	ns, _ := strconv.ParseInt(os.Getenv("VK_DEADLINE"), 10, 64)
	c.deadline = time.Unix(0, ns)
	c.errW = os.Stderr
	// The code under test prints; keep that out of the way.
	null, _ := os.OpenFile("/dev/null", os.O_RDWR, 0)
	os.Stdout = null
	// The builtin println writes to fd 2 and log to os.Stderr; the parent keeps only the tail of it.
	if p := os.Getenv("VK_SLOT"); p != "" {
		c.slot, _ = os.OpenFile(p, os.O_RDWR|os.O_CREATE, 0o644)
	}
	if !raceBuild { // the race detector reserves address space far beyond any limit
		lim := syscall.Rlimit{Cur: uint64(spec.MemLimitGB) << 30, Max: uint64(spec.MemLimitGB) << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	// Work in the scratch dir so that relative paths stay contained.
	os.Chdir(c.scratch)
	if p := os.Getenv("VK_PROF"); p != "" { // development only
		f, _ := os.Create(p + strconv.Itoa(c.shard))
		pprof.StartCPUProfile(f)
	}
	spec.Run(c)
	if os.Getenv("VK_PROF") != "" {
		pprof.StopCPUProfile()
	}
	c.res.Complete = true
	c.res.Outcomes = c.outcomes
	c.res.Groups = c.groups
	c.res.GroupOrder = c.order
	if c.slot != nil {
		c.mark("-", 24*time.Hour)
	}
	b, _ := json.Marshal(c.res)
	os.WriteFile(os.Getenv("VK_OUT"), b, 0o644)
	f, _ := os.Create(os.Getenv("VK_OUT") + ".states")
	w := bufio.NewWriter(f)
	var b8 [8]byte
	for s := range c.states {
		binary.LittleEndian.PutUint64(b8[:], s)
		w.Write(b8[:])
	}
	w.Flush()
	f.Close()
	os.Exit(0)
}

type tailBuf struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.buf = append(t.buf, p...)
	if len(t.buf) > 1<<17 {
		// keep head of the last crash: drop the oldest half
		t.buf = append([]byte(nil), t.buf[len(t.buf)-(1<<16):]...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.buf) }

type childOut struct {
	res     *Result
	states  []uint64
	crashed bool
	hung    bool
	oom     bool
	harness bool
	caseID  string
	tail    string
	exit    string
}

func runChild(spec *Spec, base string, shard, n int, only string, deadline time.Time, tag string) *childOut {
	out := &childOut{}
	dir := filepath.Join(base, fmt.Sprintf("s%d%s", shard, tag))
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	scratch := filepath.Join(dir, "w")
	os.MkdirAll(scratch, 0o755)
	slot := filepath.Join(dir, "slot")
	of := filepath.Join(dir, "out")
	self, _ := os.Executable()
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "VK_CHILD=1", fmt.Sprintf("VK_SHARD=%d", shard), fmt.Sprintf("VK_NSHARDS=%d", n),
		"VK_ONLY="+only, "VK_SLOT="+slot, "VK_OUT="+of, "VK_SCRATCH="+scratch,
		fmt.Sprintf("VK_DEADLINE=%d", deadline.UnixNano()), "GOTRACEBACK=all", "GOMAXPROCS="+gomax(spec))
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	tb := &tailBuf{}
	cmd.Stderr = tb
	cmd.Stdout = tb
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		out.harness = true
		out.exit = err.Error()
		return out
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	readSlot := func() (time.Time, time.Duration, string) {
		b, err := os.ReadFile(slot)
		if err != nil {
			return time.Time{}, 0, ""
		}
		b = bytes.TrimRight(b, "\x00\n")
		f := strings.SplitN(string(b), " ", 3)
		if len(f) != 3 {
			return time.Time{}, 0, ""
		}
		ns, _ := strconv.ParseInt(f[0], 10, 64)
		l, _ := strconv.ParseInt(f[1], 10, 64)
		return time.Unix(0, ns), time.Duration(l), f[2]
	}
	var err error
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
wait:
	for {
		select {
		case err = <-done:
			break wait
		case <-tick.C:
			st, lim, id := readSlot()
			if id != "" && id != "-" && time.Since(st) > lim {
				out.hung = true
				cmd.Process.Signal(syscall.SIGQUIT)
				select {
				case <-done:
				case <-time.After(3 * time.Second):
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					<-done
				}
				_, _, out.caseID = readSlot()
				out.tail = tb.String()
				return out
			}
		}
	}
	_, _, out.caseID = readSlot()
	out.tail = tb.String()
	if err != nil {
		out.exit = err.Error()
		if ee, ok := err.(*exec.ExitError); ok {
			if ee.ExitCode() == 3 {
				out.harness = true
				return out
			}
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
				out.oom = true
			}
		}
		out.crashed = true
		return out
	}
	b, err := os.ReadFile(of)
	r := &Result{}
	if err != nil || json.Unmarshal(b, r) != nil || !r.Complete {
		// The code under test ended the process with status 0 (os.Exit(0)).
		out.crashed = true
		out.exit = "process exited with status 0 in the middle of a case"
		return out
	}
	out.res = r
	sb, _ := os.ReadFile(of + ".states")
	for i := 0; i+8 <= len(sb); i += 8 {
		out.states = append(out.states, binary.LittleEndian.Uint64(sb[i:]))
	}
	return out
}

func gomax(spec *Spec) string {
	n := runtime.NumCPU() / spec.Shards
	if n < 2 {
		n = 2
	}
	return strconv.Itoa(n)
}

func crashSummary(tail string) string {
	for _, mark := range []string{"fatal error:", "panic:", "WARNING: DATA RACE", "SIGSEGV", "unexpected fault"} {
		if i := strings.Index(tail, mark); i >= 0 {
			s := tail[i:]
			if len(s) > 1800 {
				s = s[:1800]
			}
			return s
		}
	}
	if len(tail) > 800 {
		return tail[len(tail)-800:]
	}
	return tail
}

func parent(spec *Spec) int {
	start := time.Now()
	tr := tier()
	budget := spec.QuickBudget
	if tr == "thorough" {
		budget = spec.ThoroughBudget
	}
	if s := os.Getenv("VK_BUDGET_S"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	base := os.Getenv("VK_BASE")
	if base == "" {
		b, err := os.MkdirTemp("", "vk")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		base = b
		defer os.RemoveAll(base)
	}
	deadline := start.Add(budget)
	if only := os.Getenv("VK_REPLAY"); only != "" {
		o := runChild(spec, base, 0, 1, only, time.Now().Add(time.Hour), "r")
		if o.res != nil {
			b, _ := json.MarshalIndent(o.res, "", " ")
			fmt.Println(string(b))
			if len(o.res.Violations) > 0 {
				return 1
			}
			return 0
		}
		fmt.Println("child ended:", o.exit, "hung:", o.hung, "\n", crashSummary(o.tail))
		return 1
	}
	n := spec.Shards
	outs := make([]*childOut, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			outs[i] = runChild(spec, base, i, n, "", deadline, "")
		}(i)
	}
	wg.Wait()
	tot := Result{KnownHits: map[string]string{}, Outcomes: map[string]int64{}, Groups: map[string]*groupStat{}, Extra: map[string]int64{}, Complete: true}
	states := map[uint64]struct{}{}
	known := loadKnown()
	crashes := 0
	for i, o := range outs {
		if o.harness {
			fmt.Fprintf(os.Stderr, "harness error in shard %d: %s\n%s\n", i, o.exit, crashSummary(o.tail))
			return 3
		}
		if o.crashed || o.hung {
			tot.Complete = false
			crashes++
			if crashes > 2 {
				continue
			}
			id := o.caseID
			what := "process ended abnormally (" + o.exit + ")"
			if o.hung {
				what = "case did not terminate"
			}
			if id == "" || id == "-" {
				fmt.Fprintf(os.Stderr, "shard %d: %s outside any case\n%s\n", i, what, crashSummary(o.tail))
				return 3
			}
			// Confirm: the single case alone, else the whole shard again.
			repro, tail := 0, o.tail
			if os.Getenv("VK_DEBUG") != "" {
				os.WriteFile("/tmp/vk.tail."+strconv.Itoa(i), []byte(id+"\n"+o.tail), 0o644)
			}
			tries := 3
			if o.hung {
				tries = 1
			}
			for k := 0; k < tries; k++ {
				o2 := runChild(spec, base, i, n, id, time.Now().Add(time.Hour), fmt.Sprintf("c%d", k))
				if o2.crashed || o2.hung {
					repro++
					tail = o2.tail
				} else if o2.res != nil && len(o2.res.Violations) > 0 {
					repro++
				}
			}
			if repro == 0 {
				o2 := runChild(spec, base, i, n, "", time.Now().Add(budget), "again")
				if o2.crashed || o2.hung {
					repro++
					id = o2.caseID
					tail = o2.tail
				} else if o2.res != nil {
					outs[i] = o2
					o = o2
					tot.Flaky = append(tot.Flaky, id+": "+what+" (not reproduced)")
				}
			}
			if repro > 0 {
				v := Violation{Case: id, Key: strings.SplitN(id, "#", 2)[0] + "/crash", Desc: "shard process", Msg: what + "\n" + crashSummary(tail), Repro: repro}
				for _, k := range known {
					if k.Property == spec.Property && k.Key == v.Key && k.Status != "fixed" {
						tot.KnownHits[k.Key] = k.What
						v.Known = true
					}
				}
				if !v.Known {
					tot.Violations = append(tot.Violations, v)
				}
				continue
			}
			if o.res == nil {
				continue
			}
			tot.Complete = true
		}
		r := o.res
		tot.Evals += r.Evals
		tot.Transitions += r.Transitions
		tot.Nontrivial += r.Nontrivial
		tot.Skipped += r.Skipped
		tot.Violations = append(tot.Violations, r.Violations...)
		tot.Flaky = append(tot.Flaky, r.Flaky...)
		for k, v := range r.KnownHits {
			tot.KnownHits[k] = v
		}
		for k, v := range r.Outcomes {
			tot.Outcomes[k] += v
		}
		for k, v := range r.Extra {
			tot.Extra[k] += v
		}
		for _, k := range r.GroupOrder {
			g := tot.Groups[k]
			if g == nil {
				g = &groupStat{}
				tot.Groups[k] = g
				tot.GroupOrder = append(tot.GroupOrder, k)
			}
			g.Cases += r.Groups[k].Cases
			g.Skipped += r.Groups[k].Skipped
		}
		if len(tot.Samples) < 10 {
			for _, s := range r.Samples {
				if len(tot.Samples) < 10 {
					tot.Samples = append(tot.Samples, s)
				}
			}
		}
		for _, s := range o.states {
			states[s] = struct{}{}
		}
	}
	exhaustive := tot.Skipped == 0 && tot.Complete && len(tot.Violations) == 0
	cov := map[string]any{
		"exhaustive":        exhaustive,
		"groups":            tot.Groups,
		"distinct_outcomes": len(tot.Outcomes),
		"samples":           tot.Samples,
		"skipped_cases":     tot.Skipped,
		"rule":              spec.Rule,
	}
	if spec.Bounds != nil {
		cov["bounds"] = spec.Bounds(tr)
	}
	for k, v := range tot.Extra {
		cov[k] = v
	}
	cov["outcome_tallies"] = topOutcomes(tot.Outcomes)
	switch spec.Level {
	case "model_checking":
		cov["states"] = len(states)
		cov["transitions"] = tot.Transitions
		cov["traces_validated_against_impl"] = tot.Evals
	default:
		cov["evaluations"] = tot.Evals
		cov["distinct_nontrivial"] = tot.Nontrivial
		cov["states"] = len(states)
		cov["transitions"] = tot.Transitions
	}
	if len(tot.Flaky) > 0 {
		cov["unreproduced"] = tot.Flaky
	}
	ev := map[string]any{
		"property": spec.Property, "tier": tr, "seed": seed(), "level": spec.Level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "assumptions": spec.Assumptions, "violations": len(tot.Violations),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", spec.Property+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("%s %s: cases=%d states=%d transitions=%d outcomes=%d skipped=%d exhaustive=%v wall=%.1fs\n", spec.Property, tr, tot.Evals, len(states), tot.Transitions, len(tot.Outcomes), tot.Skipped, exhaustive, time.Since(start).Seconds())
	for _, g := range tot.GroupOrder {
		fmt.Printf("  %-40s cases=%d skipped=%d\n", g, tot.Groups[g].Cases, tot.Groups[g].Skipped)
	}
	for _, f := range tot.Flaky {
		fmt.Println("note: not reproduced, not reported:", firstLine(f))
	}
	keys := make([]string, 0)
	for k := range tot.KnownHits {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", spec.Property, tot.KnownHits[k], k)
	}
	if len(tot.Violations) > 0 {
		rd := filepath.Join(verifDir(), "evidence", "replay")
		os.MkdirAll(rd, 0o755)
		for i, v := range tot.Violations {
			if i >= 5 {
				break
			}
			p := filepath.Join(rd, fmt.Sprintf("%s-%d.json", spec.Property, i))
			vb, _ := json.MarshalIndent(map[string]any{"property": spec.Property, "tier": tr, "violation": v,
				"replay": fmt.Sprintf("VK_REPLAY='%s' /verif/check.sh %s %s", v.Case, spec.Property, tr)}, "", " ")
			os.WriteFile(p, append(vb, '\n'), 0o644)
			fmt.Printf("case %s: %s\n%s\n", v.Case, v.Desc, v.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", spec.Property, p)
		}
		return 1
	}
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func topOutcomes(m map[string]int64) map[string]int64 {
	type kv struct {
		k string
		v int64
	}
	var l []kv
	for k, v := range m {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v || l[i].v == l[j].v && l[i].k < l[j].k })
	r := map[string]int64{}
	for i, e := range l {
		if i >= 25 {
			break
		}
		r[e.k] = e.v
	}
	return r
}

var _ io.Writer = (*tailBuf)(nil)

// Seqs calls f with every sequence of length depth over 0..n-1 (a fresh slice each time).
func Seqs(n, depth int, f func(seq []int)) {
	seq := make([]int, depth)
	for {
		f(append([]int(nil), seq...))
		i := depth - 1
		for i >= 0 {
			seq[i]++
			if seq[i] < n {
				break
			}
			seq[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

// Perms calls f with every permutation of 0..n-1 (a fresh slice each time), identity first.
func Perms(n int, f func(p []int)) {
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(p) == n {
			f(append([]int(nil), p...))
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				rec()
				p = p[:len(p)-1]
				used[i] = false
			}
		}
	}
	rec()
}

// Names renders a sequence of alphabet indices.
func Names(alphabet []string, seq []int) string {
	var n []string
	for _, i := range seq {
		n = append(n, alphabet[i])
	}
	return strings.Join(n, ",")
}
