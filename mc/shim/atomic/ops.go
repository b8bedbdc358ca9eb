package atomic

import (
	ratomic "sync/atomic"
	"unsafe"
)

func LoadInt32(p *int32) int32     { pt(unsafe.Pointer(p)); return ratomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32) { o := pt(unsafe.Pointer(p)); ratomic.StoreInt32(p, v); after(o) }
func AddInt32(p *int32, d int32) int32 {
	o := pt(unsafe.Pointer(p))
	v := ratomic.AddInt32(p, d)
	after(o)
	return v
}
func SwapInt32(p *int32, n int32) int32 {
	o := pt(unsafe.Pointer(p))
	v := ratomic.SwapInt32(p, n)
	after(o)
	return v
}
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	o := pt(unsafe.Pointer(p))
	v := ratomic.CompareAndSwapInt32(p, a, b)
	after(o)
	return v
}
func AndInt32(p *int32, m int32) int32 {
	o := pt(unsafe.Pointer(p))
	v := ratomic.AndInt32(p, m)
	after(o)
	return v
}
func OrInt32(p *int32, m int32) int32 {
	o := pt(unsafe.Pointer(p))
	v := ratomic.OrInt32(p, m)
	after(o)
	return v
}

type Int32 struct{ v ratomic.Int32 }

func (x *Int32) Load() int32        { pt(unsafe.Pointer(x)); return x.v.Load() }
func (x *Int32) Store(v int32)      { o := pt(unsafe.Pointer(x)); x.v.Store(v); after(o) }
func (x *Int32) Add(d int32) int32  { o := pt(unsafe.Pointer(x)); v := x.v.Add(d); after(o); return v }
func (x *Int32) Swap(n int32) int32 { o := pt(unsafe.Pointer(x)); v := x.v.Swap(n); after(o); return v }
func (x *Int32) CompareAndSwap(a, b int32) bool {
	o := pt(unsafe.Pointer(x))
	v := x.v.CompareAndSwap(a, b)
	after(o)
	return v
}
func (x *Int32) And(m int32) int32 { o := pt(unsafe.Pointer(x)); v := x.v.And(m); after(o); return v }
func (x *Int32) Or(m int32) int32  { o := pt(unsafe.Pointer(x)); v := x.v.Or(m); after(o); return v }

func LoadInt64(p *int64) int64     { pt(unsafe.Pointer(p)); return ratomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64) { o := pt(unsafe.Pointer(p)); ratomic.StoreInt64(p, v); after(o) }
func AddInt64(p *int64, d int64) int64 {
	o := pt(unsafe.Pointer(p))
	v := ratomic.AddInt64(p, d)
	after(o)
	return v
}
func SwapInt64(p *int64, n int64) int64 {
	o := pt(unsafe.Pointer(p))
	v := ratomic.SwapInt64(p, n)
	after(o)
	return v
}
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	o := pt(unsafe.Pointer(p))
	v := ratomic.CompareAndSwapInt64(p, a, b)
	after(o)
	return v
}
func AndInt64(p *int64, m int64) int64 {
	o := pt(unsafe.Pointer(p))
	v := ratomic.AndInt64(p, m)
	after(o)
	return v
}
func OrInt64(p *int64, m int64) int64 {
	o := pt(unsafe.Pointer(p))
	v := ratomic.OrInt64(p, m)
	after(o)
	return v
}

type Int64 struct{ v ratomic.Int64 }

func (x *Int64) Load() int64        { pt(unsafe.Pointer(x)); return x.v.Load() }
func (x *Int64) Store(v int64)      { o := pt(unsafe.Pointer(x)); x.v.Store(v); after(o) }
func (x *Int64) Add(d int64) int64  { o := pt(unsafe.Pointer(x)); v := x.v.Add(d); after(o); return v }
func (x *Int64) Swap(n int64) int64 { o := pt(unsafe.Pointer(x)); v := x.v.Swap(n); after(o); return v }
func (x *Int64) CompareAndSwap(a, b int64) bool {
	o := pt(unsafe.Pointer(x))
	v := x.v.CompareAndSwap(a, b)
	after(o)
	return v
}
func (x *Int64) And(m int64) int64 { o := pt(unsafe.Pointer(x)); v := x.v.And(m); after(o); return v }
func (x *Int64) Or(m int64) int64  { o := pt(unsafe.Pointer(x)); v := x.v.Or(m); after(o); return v }

func LoadUint32(p *uint32) uint32 { pt(unsafe.Pointer(p)); return ratomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32) {
	o := pt(unsafe.Pointer(p))
	ratomic.StoreUint32(p, v)
	after(o)
}
func AddUint32(p *uint32, d uint32) uint32 {
	o := pt(unsafe.Pointer(p))
	v := ratomic.AddUint32(p, d)
	after(o)
	return v
}
func SwapUint32(p *uint32, n uint32) uint32 {
	o := pt(unsafe.Pointer(p))
	v := ratomic.SwapUint32(p, n)
	after(o)
	return v
}
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	o := pt(unsafe.Pointer(p))
	v := ratomic.CompareAndSwapUint32(p, a, b)
	after(o)
	return v
}
func AndUint32(p *uint32, m uint32) uint32 {
	o := pt(unsafe.Pointer(p))
	v := ratomic.AndUint32(p, m)
	after(o)
	return v
}
func OrUint32(p *uint32, m uint32) uint32 {
	o := pt(unsafe.Pointer(p))
	v := ratomic.OrUint32(p, m)
	after(o)
	return v
}

type Uint32 struct{ v ratomic.Uint32 }

func (x *Uint32) Load() uint32   { pt(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uint32) Store(v uint32) { o := pt(unsafe.Pointer(x)); x.v.Store(v); after(o) }
func (x *Uint32) Add(d uint32) uint32 {
	o := pt(unsafe.Pointer(x))
	v := x.v.Add(d)
	after(o)
	return v
}
func (x *Uint32) Swap(n uint32) uint32 {
	o := pt(unsafe.Pointer(x))
	v := x.v.Swap(n)
	after(o)
	return v
}
func (x *Uint32) CompareAndSwap(a, b uint32) bool {
	o := pt(unsafe.Pointer(x))
	v := x.v.CompareAndSwap(a, b)
	after(o)
	return v
}
func (x *Uint32) And(m uint32) uint32 {
	o := pt(unsafe.Pointer(x))
	v := x.v.And(m)
	after(o)
	return v
}
func (x *Uint32) Or(m uint32) uint32 { o := pt(unsafe.Pointer(x)); v := x.v.Or(m); after(o); return v }

func LoadUint64(p *uint64) uint64 { pt(unsafe.Pointer(p)); return ratomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64) {
	o := pt(unsafe.Pointer(p))
	ratomic.StoreUint64(p, v)
	after(o)
}
func AddUint64(p *uint64, d uint64) uint64 {
	o := pt(unsafe.Pointer(p))
	v := ratomic.AddUint64(p, d)
	after(o)
	return v
}
func SwapUint64(p *uint64, n uint64) uint64 {
	o := pt(unsafe.Pointer(p))
	v := ratomic.SwapUint64(p, n)
	after(o)
	return v
}
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	o := pt(unsafe.Pointer(p))
	v := ratomic.CompareAndSwapUint64(p, a, b)
	after(o)
	return v
}
func AndUint64(p *uint64, m uint64) uint64 {
	o := pt(unsafe.Pointer(p))
	v := ratomic.AndUint64(p, m)
	after(o)
	return v
}
func OrUint64(p *uint64, m uint64) uint64 {
	o := pt(unsafe.Pointer(p))
	v := ratomic.OrUint64(p, m)
	after(o)
	return v
}

type Uint64 struct{ v ratomic.Uint64 }

func (x *Uint64) Load() uint64   { pt(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uint64) Store(v uint64) { o := pt(unsafe.Pointer(x)); x.v.Store(v); after(o) }
func (x *Uint64) Add(d uint64) uint64 {
	o := pt(unsafe.Pointer(x))
	v := x.v.Add(d)
	after(o)
	return v
}
func (x *Uint64) Swap(n uint64) uint64 {
	o := pt(unsafe.Pointer(x))
	v := x.v.Swap(n)
	after(o)
	return v
}
func (x *Uint64) CompareAndSwap(a, b uint64) bool {
	o := pt(unsafe.Pointer(x))
	v := x.v.CompareAndSwap(a, b)
	after(o)
	return v
}
func (x *Uint64) And(m uint64) uint64 {
	o := pt(unsafe.Pointer(x))
	v := x.v.And(m)
	after(o)
	return v
}
func (x *Uint64) Or(m uint64) uint64 { o := pt(unsafe.Pointer(x)); v := x.v.Or(m); after(o); return v }

func LoadUintptr(p *uintptr) uintptr { pt(unsafe.Pointer(p)); return ratomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr) {
	o := pt(unsafe.Pointer(p))
	ratomic.StoreUintptr(p, v)
	after(o)
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	o := pt(unsafe.Pointer(p))
	v := ratomic.AddUintptr(p, d)
	after(o)
	return v
}
func SwapUintptr(p *uintptr, n uintptr) uintptr {
	o := pt(unsafe.Pointer(p))
	v := ratomic.SwapUintptr(p, n)
	after(o)
	return v
}
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	o := pt(unsafe.Pointer(p))
	v := ratomic.CompareAndSwapUintptr(p, a, b)
	after(o)
	return v
}
func AndUintptr(p *uintptr, m uintptr) uintptr {
	o := pt(unsafe.Pointer(p))
	v := ratomic.AndUintptr(p, m)
	after(o)
	return v
}
func OrUintptr(p *uintptr, m uintptr) uintptr {
	o := pt(unsafe.Pointer(p))
	v := ratomic.OrUintptr(p, m)
	after(o)
	return v
}

type Uintptr struct{ v ratomic.Uintptr }

func (x *Uintptr) Load() uintptr   { pt(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uintptr) Store(v uintptr) { o := pt(unsafe.Pointer(x)); x.v.Store(v); after(o) }
func (x *Uintptr) Add(d uintptr) uintptr {
	o := pt(unsafe.Pointer(x))
	v := x.v.Add(d)
	after(o)
	return v
}
func (x *Uintptr) Swap(n uintptr) uintptr {
	o := pt(unsafe.Pointer(x))
	v := x.v.Swap(n)
	after(o)
	return v
}
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool {
	o := pt(unsafe.Pointer(x))
	v := x.v.CompareAndSwap(a, b)
	after(o)
	return v
}
func (x *Uintptr) And(m uintptr) uintptr {
	o := pt(unsafe.Pointer(x))
	v := x.v.And(m)
	after(o)
	return v
}
func (x *Uintptr) Or(m uintptr) uintptr {
	o := pt(unsafe.Pointer(x))
	v := x.v.Or(m)
	after(o)
	return v
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	pt(unsafe.Pointer(p))
	return ratomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	o := pt(unsafe.Pointer(p))
	ratomic.StorePointer(p, v)
	after(o)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	o := pt(unsafe.Pointer(p))
	r := ratomic.SwapPointer(p, v)
	after(o)
	return r
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	o := pt(unsafe.Pointer(p))
	r := ratomic.CompareAndSwapPointer(p, a, b)
	after(o)
	return r
}

// Bool is an atomic bool.
type Bool struct{ v ratomic.Bool }

func (x *Bool) Load() bool       { pt(unsafe.Pointer(x)); return x.v.Load() }
func (x *Bool) Store(v bool)     { o := pt(unsafe.Pointer(x)); x.v.Store(v); after(o) }
func (x *Bool) Swap(n bool) bool { o := pt(unsafe.Pointer(x)); v := x.v.Swap(n); after(o); return v }
func (x *Bool) CompareAndSwap(a, b bool) bool {
	o := pt(unsafe.Pointer(x))
	v := x.v.CompareAndSwap(a, b)
	after(o)
	return v
}

// Pointer is an atomic pointer.
type Pointer[T any] struct{ v ratomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { pt(unsafe.Pointer(x)); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { o := pt(unsafe.Pointer(x)); x.v.Store(v); after(o) }
func (x *Pointer[T]) Swap(n *T) *T { o := pt(unsafe.Pointer(x)); v := x.v.Swap(n); after(o); return v }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool {
	o := pt(unsafe.Pointer(x))
	v := x.v.CompareAndSwap(a, b)
	after(o)
	return v
}

// Value is an atomic interface value.
type Value struct{ v ratomic.Value }

func (x *Value) Load() any      { pt(unsafe.Pointer(x)); return x.v.Load() }
func (x *Value) Store(v any)    { o := pt(unsafe.Pointer(x)); x.v.Store(v); after(o) }
func (x *Value) Swap(n any) any { o := pt(unsafe.Pointer(x)); v := x.v.Swap(n); after(o); return v }
func (x *Value) CompareAndSwap(a, b any) bool {
	o := pt(unsafe.Pointer(x))
	v := x.v.CompareAndSwap(a, b)
	after(o)
	return v
}
