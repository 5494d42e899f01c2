// Package atomic is the simulation-aware replacement of sync/atomic: the
// operations are preemption points and their ordering is reported to the race
// detector.
package atomic

import (
	"unsafe"

	"simrt"
)

func in(p unsafe.Pointer)  { simrt.Y(0); simrt.Acquire(p) }
func out(p unsafe.Pointer) { simrt.Release(p) }

func LoadInt32(p *int32) int32     { in(unsafe.Pointer(p)); return *p }
func StoreInt32(p *int32, v int32) { in(unsafe.Pointer(p)); *p = v; out(unsafe.Pointer(p)) }
func AddInt32(p *int32, d int32) int32 {
	in(unsafe.Pointer(p))
	*p += d
	out(unsafe.Pointer(p))
	return *p
}
func SwapInt32(p *int32, v int32) int32 {
	in(unsafe.Pointer(p))
	o := *p
	*p = v
	out(unsafe.Pointer(p))
	return o
}
func CompareAndSwapInt32(p *int32, old, new int32) bool {
	in(unsafe.Pointer(p))
	if *p != old {
		return false
	}
	*p = new
	out(unsafe.Pointer(p))
	return true
}
func AndInt32(p *int32, m int32) int32 {
	in(unsafe.Pointer(p))
	o := *p
	*p &= m
	out(unsafe.Pointer(p))
	return o
}
func OrInt32(p *int32, m int32) int32 {
	in(unsafe.Pointer(p))
	o := *p
	*p |= m
	out(unsafe.Pointer(p))
	return o
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                        { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                      { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32                  { return AddInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32                 { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(old, new int32) bool { return CompareAndSwapInt32(&x.v, old, new) }
func (x *Int32) And(m int32) int32                  { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32                   { return OrInt32(&x.v, m) }

func LoadInt64(p *int64) int64     { in(unsafe.Pointer(p)); return *p }
func StoreInt64(p *int64, v int64) { in(unsafe.Pointer(p)); *p = v; out(unsafe.Pointer(p)) }
func AddInt64(p *int64, d int64) int64 {
	in(unsafe.Pointer(p))
	*p += d
	out(unsafe.Pointer(p))
	return *p
}
func SwapInt64(p *int64, v int64) int64 {
	in(unsafe.Pointer(p))
	o := *p
	*p = v
	out(unsafe.Pointer(p))
	return o
}
func CompareAndSwapInt64(p *int64, old, new int64) bool {
	in(unsafe.Pointer(p))
	if *p != old {
		return false
	}
	*p = new
	out(unsafe.Pointer(p))
	return true
}
func AndInt64(p *int64, m int64) int64 {
	in(unsafe.Pointer(p))
	o := *p
	*p &= m
	out(unsafe.Pointer(p))
	return o
}
func OrInt64(p *int64, m int64) int64 {
	in(unsafe.Pointer(p))
	o := *p
	*p |= m
	out(unsafe.Pointer(p))
	return o
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                        { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                      { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64                  { return AddInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64                 { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(old, new int64) bool { return CompareAndSwapInt64(&x.v, old, new) }
func (x *Int64) And(m int64) int64                  { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64                   { return OrInt64(&x.v, m) }

func LoadUint32(p *uint32) uint32     { in(unsafe.Pointer(p)); return *p }
func StoreUint32(p *uint32, v uint32) { in(unsafe.Pointer(p)); *p = v; out(unsafe.Pointer(p)) }
func AddUint32(p *uint32, d uint32) uint32 {
	in(unsafe.Pointer(p))
	*p += d
	out(unsafe.Pointer(p))
	return *p
}
func SwapUint32(p *uint32, v uint32) uint32 {
	in(unsafe.Pointer(p))
	o := *p
	*p = v
	out(unsafe.Pointer(p))
	return o
}
func CompareAndSwapUint32(p *uint32, old, new uint32) bool {
	in(unsafe.Pointer(p))
	if *p != old {
		return false
	}
	*p = new
	out(unsafe.Pointer(p))
	return true
}
func AndUint32(p *uint32, m uint32) uint32 {
	in(unsafe.Pointer(p))
	o := *p
	*p &= m
	out(unsafe.Pointer(p))
	return o
}
func OrUint32(p *uint32, m uint32) uint32 {
	in(unsafe.Pointer(p))
	o := *p
	*p |= m
	out(unsafe.Pointer(p))
	return o
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                        { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                      { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32                 { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32                { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(old, new uint32) bool { return CompareAndSwapUint32(&x.v, old, new) }
func (x *Uint32) And(m uint32) uint32                 { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32                  { return OrUint32(&x.v, m) }

func LoadUint64(p *uint64) uint64     { in(unsafe.Pointer(p)); return *p }
func StoreUint64(p *uint64, v uint64) { in(unsafe.Pointer(p)); *p = v; out(unsafe.Pointer(p)) }
func AddUint64(p *uint64, d uint64) uint64 {
	in(unsafe.Pointer(p))
	*p += d
	out(unsafe.Pointer(p))
	return *p
}
func SwapUint64(p *uint64, v uint64) uint64 {
	in(unsafe.Pointer(p))
	o := *p
	*p = v
	out(unsafe.Pointer(p))
	return o
}
func CompareAndSwapUint64(p *uint64, old, new uint64) bool {
	in(unsafe.Pointer(p))
	if *p != old {
		return false
	}
	*p = new
	out(unsafe.Pointer(p))
	return true
}
func AndUint64(p *uint64, m uint64) uint64 {
	in(unsafe.Pointer(p))
	o := *p
	*p &= m
	out(unsafe.Pointer(p))
	return o
}
func OrUint64(p *uint64, m uint64) uint64 {
	in(unsafe.Pointer(p))
	o := *p
	*p |= m
	out(unsafe.Pointer(p))
	return o
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                        { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                      { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64                 { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64                { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(old, new uint64) bool { return CompareAndSwapUint64(&x.v, old, new) }
func (x *Uint64) And(m uint64) uint64                 { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64                  { return OrUint64(&x.v, m) }

func LoadUintptr(p *uintptr) uintptr     { in(unsafe.Pointer(p)); return *p }
func StoreUintptr(p *uintptr, v uintptr) { in(unsafe.Pointer(p)); *p = v; out(unsafe.Pointer(p)) }
func AddUintptr(p *uintptr, d uintptr) uintptr {
	in(unsafe.Pointer(p))
	*p += d
	out(unsafe.Pointer(p))
	return *p
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	in(unsafe.Pointer(p))
	o := *p
	*p = v
	out(unsafe.Pointer(p))
	return o
}
func CompareAndSwapUintptr(p *uintptr, old, new uintptr) bool {
	in(unsafe.Pointer(p))
	if *p != old {
		return false
	}
	*p = new
	out(unsafe.Pointer(p))
	return true
}
func AndUintptr(p *uintptr, m uintptr) uintptr {
	in(unsafe.Pointer(p))
	o := *p
	*p &= m
	out(unsafe.Pointer(p))
	return o
}
func OrUintptr(p *uintptr, m uintptr) uintptr {
	in(unsafe.Pointer(p))
	o := *p
	*p |= m
	out(unsafe.Pointer(p))
	return o
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                        { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                      { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr                { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(v uintptr) uintptr               { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(old, new uintptr) bool { return CompareAndSwapUintptr(&x.v, old, new) }
func (x *Uintptr) And(m uintptr) uintptr                { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr                 { return OrUintptr(&x.v, m) }

type Bool struct{ v bool }

func (x *Bool) Load() bool   { in(unsafe.Pointer(x)); return x.v }
func (x *Bool) Store(v bool) { in(unsafe.Pointer(x)); x.v = v; out(unsafe.Pointer(x)) }
func (x *Bool) Swap(v bool) bool {
	in(unsafe.Pointer(x))
	o := x.v
	x.v = v
	out(unsafe.Pointer(x))
	return o
}
func (x *Bool) CompareAndSwap(old, new bool) bool {
	in(unsafe.Pointer(x))
	if x.v != old {
		return false
	}
	x.v = new
	out(unsafe.Pointer(x))
	return true
}

// Pointer keeps its value behind the non-generic functions below, so that no
// access is compiled into the (race-instrumented) package that instantiates it.
type Pointer[T any] struct {
	_ [0]*T
	v unsafe.Pointer
}

func (x *Pointer[T]) Load() *T     { return (*T)(LoadPointer(&x.v)) }
func (x *Pointer[T]) Store(v *T)   { StorePointer(&x.v, unsafe.Pointer(v)) }
func (x *Pointer[T]) Swap(v *T) *T { return (*T)(SwapPointer(&x.v, unsafe.Pointer(v))) }
func (x *Pointer[T]) CompareAndSwap(old, new *T) bool {
	return CompareAndSwapPointer(&x.v, unsafe.Pointer(old), unsafe.Pointer(new))
}

type Value struct{ v any }

func (x *Value) Load() any   { in(unsafe.Pointer(x)); return x.v }
func (x *Value) Store(v any) { in(unsafe.Pointer(x)); x.v = v; out(unsafe.Pointer(x)) }
func (x *Value) Swap(v any) any {
	in(unsafe.Pointer(x))
	o := x.v
	x.v = v
	out(unsafe.Pointer(x))
	return o
}
func (x *Value) CompareAndSwap(old, new any) bool {
	in(unsafe.Pointer(x))
	if x.v != old {
		return false
	}
	x.v = new
	out(unsafe.Pointer(x))
	return true
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { in(unsafe.Pointer(p)); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	in(unsafe.Pointer(p))
	*p = v
	out(unsafe.Pointer(p))
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	in(unsafe.Pointer(p))
	o := *p
	*p = v
	out(unsafe.Pointer(p))
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, old, new unsafe.Pointer) bool {
	in(unsafe.Pointer(p))
	if *p != old {
		return false
	}
	*p = new
	out(unsafe.Pointer(p))
	return true
}
