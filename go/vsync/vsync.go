// Package sync stands in for the standard package in code under a controlled scheduler.
package sync

import (
	"sync"
	"unsafe"

	"github.com/KitchenMishap/pudding-shed/zz_verif/vsched"
)

type (
	Locker = sync.Locker
	Pool   = sync.Pool
	Map    = sync.Map
)

func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return sync.OnceValues(f) }

type Mutex struct{ real sync.Mutex }

func (m *Mutex) Lock() {
	if !vsched.Lock(unsafe.Pointer(m), m) {
		m.real.Lock()
	}
}

func (m *Mutex) Unlock() {
	if !vsched.Unlock(unsafe.Pointer(m), m) {
		m.real.Unlock()
	}
}

func (m *Mutex) TryLock() bool {
	got, active := vsched.TryLock(unsafe.Pointer(m), m)
	if !active {
		return m.real.TryLock()
	}
	return got
}

type RWMutex struct{ real sync.RWMutex }

func (m *RWMutex) Lock() {
	if !vsched.Lock(unsafe.Pointer(m), m) {
		m.real.Lock()
	}
}

func (m *RWMutex) Unlock() {
	if !vsched.Unlock(unsafe.Pointer(m), m) {
		m.real.Unlock()
	}
}

func (m *RWMutex) RLock() {
	if !vsched.RLock(unsafe.Pointer(m), m) {
		m.real.RLock()
	}
}

func (m *RWMutex) RUnlock() {
	if !vsched.RUnlock(unsafe.Pointer(m), m) {
		m.real.RUnlock()
	}
}

func (m *RWMutex) TryLock() bool {
	got, active := vsched.TryLock(unsafe.Pointer(m), m)
	if !active {
		return m.real.TryLock()
	}
	return got
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()            { r.m.RLock() }
func (r rlocker) Unlock()          { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct{ real sync.WaitGroup }

func (w *WaitGroup) Add(n int) {
	if !vsched.WgAdd(unsafe.Pointer(w), w, n) {
		w.real.Add(n)
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if !vsched.WgWait(unsafe.Pointer(w), w) {
		w.real.Wait()
	}
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Cond struct {
	L    Locker
	real *sync.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

func (c *Cond) Wait() {
	ticket, active := vsched.CondEnq(unsafe.Pointer(c), c)
	if !active {
		c.real.Wait()
		return
	}
	c.L.Unlock()
	vsched.CondWake(unsafe.Pointer(c), c, ticket)
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !vsched.CondSignal(unsafe.Pointer(c), c, false) {
		c.real.Signal()
	}
}

func (c *Cond) Broadcast() {
	if !vsched.CondSignal(unsafe.Pointer(c), c, true) {
		c.real.Broadcast()
	}
}
