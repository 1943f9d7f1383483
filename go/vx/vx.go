// Package vx joins the schedule explorer to the case kernel.
package vx

import (
	"fmt"
	"os"

	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vsched"
)

// Options of one exploration.
type Options struct {
	Preempt  int // -1: all schedules up to equivalence
	MaxRuns  int
	MaxSteps int
	Panics   bool // hand panics to after instead of failing on them
	Leaks    bool // goroutines left blocked at the end are for after to judge
	Stuck    bool // deadlocks are for after to judge
	Crowded  bool // the program may start more goroutines than the scheduler has room for; then the case says nothing
	Note     string
}

// Explore runs body under every schedule and fails the case at the first schedule that crashes, deadlocks, leaves
// goroutines behind or that after objects to.
func Explore(t *vk.T, o Options, before, body func(), after func(vsched.Run) string) {
	crowded := false
	st, msg, trace := vsched.Explore(vsched.Config{Preempt: o.Preempt, MaxRuns: o.MaxRuns, MaxSteps: o.MaxSteps}, before, body, func(r vsched.Run) string {
		switch {
		case r.Panic == vsched.TooMany && o.Crowded:
			crowded = true
			return vsched.TooMany
		case r.Panic != nil && !o.Panics:
			return fmt.Sprintf("crash: %v\n%s", r.Panic, r.PanicStack)
		case r.Deadlock && !o.Stuck:
			return fmt.Sprintf("deadlock: %v", r.Leaked)
		case r.Limit:
			return "no end in sight"
		case r.Panic == nil && len(r.Leaked) > 0 && !o.Leaks && !o.Stuck:
			return fmt.Sprintf("goroutines left behind: %v", r.Leaked)
		}
		return after(r)
	})
	t.Step(int(st.Transitions))
	t.Extra("schedules", int64(st.Runs))
	t.Extra("schedules cut as equivalent", int64(st.Pruned))
	t.Extra("replay divergences", int64(st.Diverged))
	if st.MaxDepth > 0 {
		t.State(o.Note)
	}
	if crowded {
		t.Outcome("more goroutines than the scheduler has room for")
		return
	}
	if msg != "" {
		t.Fail("%s\n  schedule:%s", msg, trace)
		return
	}
	if st.Complete {
		t.Outcome("all schedules explored")
	} else {
		t.Outcome("schedule limit reached")
		t.Extra("configurations cut at the schedule limit", 1)
	}
	if os.Getenv("VK_DEBUG") != "" {
		if f, err := os.OpenFile("/tmp/vk.debug", os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "%s\t%d runs %d cut %d diverged depth %d %v\n", o.Note, st.Runs, st.Pruned, st.Diverged, st.MaxDepth, st.Complete)
			f.Close()
		}
	}
}
