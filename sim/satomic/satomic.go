// Package satomic replaces sync/atomic: every operation is a scheduling point followed by the real one.
package satomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/vsim/core"
)

func LoadInt32(p *int32) int32          { core.Yield(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { core.Yield(); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, d int32) int32  { core.Yield(); return atomic.AddInt32(p, d) }
func SwapInt32(p *int32, v int32) int32 { core.Yield(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	core.Yield()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func AndInt32(p *int32, m int32) int32 {
	core.Yield()
	for {
		o := atomic.LoadInt32(p)
		if atomic.CompareAndSwapInt32(p, o, o&m) {
			return o
		}
	}
}
func OrInt32(p *int32, m int32) int32 {
	core.Yield()
	for {
		o := atomic.LoadInt32(p)
		if atomic.CompareAndSwapInt32(p, o, o|m) {
			return o
		}
	}
}

// Int32 is an atomic int32.
type Int32 struct {
	_ noCopy
	_ align64
	v int32
}

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) And(m int32) int32              { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32               { return OrInt32(&x.v, m) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

func LoadInt64(p *int64) int64          { core.Yield(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { core.Yield(); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, d int64) int64  { core.Yield(); return atomic.AddInt64(p, d) }
func SwapInt64(p *int64, v int64) int64 { core.Yield(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	core.Yield()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AndInt64(p *int64, m int64) int64 {
	core.Yield()
	for {
		o := atomic.LoadInt64(p)
		if atomic.CompareAndSwapInt64(p, o, o&m) {
			return o
		}
	}
}
func OrInt64(p *int64, m int64) int64 {
	core.Yield()
	for {
		o := atomic.LoadInt64(p)
		if atomic.CompareAndSwapInt64(p, o, o|m) {
			return o
		}
	}
}

// Int64 is an atomic int64.
type Int64 struct {
	_ noCopy
	_ align64
	v int64
}

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) And(m int64) int64              { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64               { return OrInt64(&x.v, m) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

func LoadUint32(p *uint32) uint32           { core.Yield(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { core.Yield(); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32  { core.Yield(); return atomic.AddUint32(p, d) }
func SwapUint32(p *uint32, v uint32) uint32 { core.Yield(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	core.Yield()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AndUint32(p *uint32, m uint32) uint32 {
	core.Yield()
	for {
		o := atomic.LoadUint32(p)
		if atomic.CompareAndSwapUint32(p, o, o&m) {
			return o
		}
	}
}
func OrUint32(p *uint32, m uint32) uint32 {
	core.Yield()
	for {
		o := atomic.LoadUint32(p)
		if atomic.CompareAndSwapUint32(p, o, o|m) {
			return o
		}
	}
}

// Uint32 is an atomic uint32.
type Uint32 struct {
	_ noCopy
	_ align64
	v uint32
}

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) And(m uint32) uint32             { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32              { return OrUint32(&x.v, m) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

func LoadUint64(p *uint64) uint64           { core.Yield(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { core.Yield(); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64  { core.Yield(); return atomic.AddUint64(p, d) }
func SwapUint64(p *uint64, v uint64) uint64 { core.Yield(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	core.Yield()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AndUint64(p *uint64, m uint64) uint64 {
	core.Yield()
	for {
		o := atomic.LoadUint64(p)
		if atomic.CompareAndSwapUint64(p, o, o&m) {
			return o
		}
	}
}
func OrUint64(p *uint64, m uint64) uint64 {
	core.Yield()
	for {
		o := atomic.LoadUint64(p)
		if atomic.CompareAndSwapUint64(p, o, o|m) {
			return o
		}
	}
}

// Uint64 is an atomic uint64.
type Uint64 struct {
	_ noCopy
	_ align64
	v uint64
}

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) And(m uint64) uint64             { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64              { return OrUint64(&x.v, m) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

func LoadUintptr(p *uintptr) uintptr            { core.Yield(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { core.Yield(); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr  { core.Yield(); return atomic.AddUintptr(p, d) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { core.Yield(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	core.Yield()
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AndUintptr(p *uintptr, m uintptr) uintptr {
	core.Yield()
	for {
		o := atomic.LoadUintptr(p)
		if atomic.CompareAndSwapUintptr(p, o, o&m) {
			return o
		}
	}
}
func OrUintptr(p *uintptr, m uintptr) uintptr {
	core.Yield()
	for {
		o := atomic.LoadUintptr(p)
		if atomic.CompareAndSwapUintptr(p, o, o|m) {
			return o
		}
	}
}

// Uintptr is an atomic uintptr.
type Uintptr struct {
	_ noCopy
	_ align64
	v uintptr
}

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) And(m uintptr) uintptr            { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr             { return OrUintptr(&x.v, m) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

type noCopy struct{}

func (*noCopy) Lock()   {}
func (*noCopy) Unlock() {}

type align64 struct{ _ [0]uint64 }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { core.Yield(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { core.Yield(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	core.Yield()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	core.Yield()
	return atomic.CompareAndSwapPointer(p, o, n)
}

// Bool is an atomic boolean.
type Bool struct {
	_ noCopy
	v uint32
}

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b32(v)) }
func (x *Bool) Swap(v bool) bool              { return SwapUint32(&x.v, b32(v)) != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&x.v, b32(o), b32(n)) }

// Pointer is an atomic *T.
type Pointer[T any] struct {
	_ [0]*T
	_ noCopy
	v unsafe.Pointer
}

func (x *Pointer[T]) Load() *T     { return (*T)(LoadPointer(&x.v)) }
func (x *Pointer[T]) Store(v *T)   { StorePointer(&x.v, unsafe.Pointer(v)) }
func (x *Pointer[T]) Swap(v *T) *T { return (*T)(SwapPointer(&x.v, unsafe.Pointer(v))) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	return CompareAndSwapPointer(&x.v, unsafe.Pointer(o), unsafe.Pointer(n))
}

// Value wraps the real atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() interface{}              { core.Yield(); return x.v.Load() }
func (x *Value) Store(v interface{})            { core.Yield(); x.v.Store(v) }
func (x *Value) Swap(v interface{}) interface{} { core.Yield(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n interface{}) bool {
	core.Yield()
	return x.v.CompareAndSwap(o, n)
}
