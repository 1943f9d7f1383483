// Package atomic stands in for sync/atomic in code under a controlled scheduler: every operation is a scheduling point.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/KitchenMishap/pudding-shed/zz_verif/vsched"
)

type Value = atomic.Value

func AddInt32(p *int32, d int32) int32 {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	return atomic.AddInt32(p, d)
}
func LoadInt32(p *int32) int32 {
	vsched.Atomic(unsafe.Pointer(p), p, false)
	return atomic.LoadInt32(p)
}
func StoreInt32(p *int32, v int32) {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	atomic.StoreInt32(p, v)
}
func SwapInt32(p *int32, v int32) int32 {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	return atomic.SwapInt32(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	return atomic.CompareAndSwapInt32(p, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Add(d int32) int32  { vsched.Atomic(unsafe.Pointer(x), x, true); return x.v.Add(d) }
func (x *Int32) Load() int32        { vsched.Atomic(unsafe.Pointer(x), x, false); return x.v.Load() }
func (x *Int32) Store(v int32)      { vsched.Atomic(unsafe.Pointer(x), x, true); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32 { vsched.Atomic(unsafe.Pointer(x), x, true); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	vsched.Atomic(unsafe.Pointer(x), x, true)
	return x.v.CompareAndSwap(o, n)
}

func AddInt64(p *int64, d int64) int64 {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	return atomic.AddInt64(p, d)
}
func LoadInt64(p *int64) int64 {
	vsched.Atomic(unsafe.Pointer(p), p, false)
	return atomic.LoadInt64(p)
}
func StoreInt64(p *int64, v int64) {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	atomic.StoreInt64(p, v)
}
func SwapInt64(p *int64, v int64) int64 {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	return atomic.SwapInt64(p, v)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	return atomic.CompareAndSwapInt64(p, o, n)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Add(d int64) int64  { vsched.Atomic(unsafe.Pointer(x), x, true); return x.v.Add(d) }
func (x *Int64) Load() int64        { vsched.Atomic(unsafe.Pointer(x), x, false); return x.v.Load() }
func (x *Int64) Store(v int64)      { vsched.Atomic(unsafe.Pointer(x), x, true); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64 { vsched.Atomic(unsafe.Pointer(x), x, true); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	vsched.Atomic(unsafe.Pointer(x), x, true)
	return x.v.CompareAndSwap(o, n)
}

func AddUint32(p *uint32, d uint32) uint32 {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	return atomic.AddUint32(p, d)
}
func LoadUint32(p *uint32) uint32 {
	vsched.Atomic(unsafe.Pointer(p), p, false)
	return atomic.LoadUint32(p)
}
func StoreUint32(p *uint32, v uint32) {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	atomic.StoreUint32(p, v)
}
func SwapUint32(p *uint32, v uint32) uint32 {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	return atomic.SwapUint32(p, v)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	return atomic.CompareAndSwapUint32(p, o, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Add(d uint32) uint32  { vsched.Atomic(unsafe.Pointer(x), x, true); return x.v.Add(d) }
func (x *Uint32) Load() uint32         { vsched.Atomic(unsafe.Pointer(x), x, false); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { vsched.Atomic(unsafe.Pointer(x), x, true); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32 { vsched.Atomic(unsafe.Pointer(x), x, true); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	vsched.Atomic(unsafe.Pointer(x), x, true)
	return x.v.CompareAndSwap(o, n)
}

func AddUint64(p *uint64, d uint64) uint64 {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	return atomic.AddUint64(p, d)
}
func LoadUint64(p *uint64) uint64 {
	vsched.Atomic(unsafe.Pointer(p), p, false)
	return atomic.LoadUint64(p)
}
func StoreUint64(p *uint64, v uint64) {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	atomic.StoreUint64(p, v)
}
func SwapUint64(p *uint64, v uint64) uint64 {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	return atomic.SwapUint64(p, v)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Add(d uint64) uint64  { vsched.Atomic(unsafe.Pointer(x), x, true); return x.v.Add(d) }
func (x *Uint64) Load() uint64         { vsched.Atomic(unsafe.Pointer(x), x, false); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { vsched.Atomic(unsafe.Pointer(x), x, true); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64 { vsched.Atomic(unsafe.Pointer(x), x, true); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	vsched.Atomic(unsafe.Pointer(x), x, true)
	return x.v.CompareAndSwap(o, n)
}

func AddUintptr(p *uintptr, d uintptr) uintptr {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	return atomic.AddUintptr(p, d)
}
func LoadUintptr(p *uintptr) uintptr {
	vsched.Atomic(unsafe.Pointer(p), p, false)
	return atomic.LoadUintptr(p)
}
func StoreUintptr(p *uintptr, v uintptr) {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	atomic.StoreUintptr(p, v)
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	return atomic.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vsched.Atomic(unsafe.Pointer(p), p, true)
	return atomic.CompareAndSwapUintptr(p, o, n)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Add(d uintptr) uintptr {
	vsched.Atomic(unsafe.Pointer(x), x, true)
	return x.v.Add(d)
}
func (x *Uintptr) Load() uintptr   { vsched.Atomic(unsafe.Pointer(x), x, false); return x.v.Load() }
func (x *Uintptr) Store(v uintptr) { vsched.Atomic(unsafe.Pointer(x), x, true); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr {
	vsched.Atomic(unsafe.Pointer(x), x, true)
	return x.v.Swap(v)
}
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	vsched.Atomic(unsafe.Pointer(x), x, true)
	return x.v.CompareAndSwap(o, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool       { vsched.Atomic(unsafe.Pointer(x), x, false); return x.v.Load() }
func (x *Bool) Store(v bool)     { vsched.Atomic(unsafe.Pointer(x), x, true); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { vsched.Atomic(unsafe.Pointer(x), x, true); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	vsched.Atomic(unsafe.Pointer(x), x, true)
	return x.v.CompareAndSwap(o, n)
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { vsched.Atomic(unsafe.Pointer(x), x, false); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { vsched.Atomic(unsafe.Pointer(x), x, true); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { vsched.Atomic(unsafe.Pointer(x), x, true); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vsched.Atomic(unsafe.Pointer(x), x, true)
	return x.v.CompareAndSwap(o, n)
}
