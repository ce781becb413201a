// Package vatomic replaces sync/atomic in rewritten code. 
package vatomic

import (
	"unsafe"

	"ustack/vrt"
)

func obj(p unsafe.Pointer) *vrt.HObj {
	if !vrt.Active() {
		return nil
	}
	m := vrt.Ext("atomic", func() any { return map[unsafe.Pointer]*vrt.HObj{} }).(map[unsafe.Pointer]*vrt.HObj)
	o := m[p]
	if o == nil {
		o = &vrt.HObj{}
		m[p] = o
	}
	return o
}

func pre(p unsafe.Pointer, what string) {
	vrt.Point(what)
	if o := obj(p); o != nil {
		o.Acquire()
		vrt.AtomicAccess(p, what != "atomic.load")
		o.Release()
	}
}

// post is a second scheduling point, needed only where plain memory guarded by
// the atomic is touched by operations that are not points themselves.
func post() {
	if vrt.CopyPoints {
		vrt.Point("after atomic")
	}
}

func AddInt32(p *int32, d int32) int32 {
	pre(unsafe.Pointer(p), "atomic.add")
	*p += d
	r := *p
	post()
	return r
}
func LoadInt32(p *int32) int32 {
	pre(unsafe.Pointer(p), "atomic.load")
	r := *p
	return r
}
func StoreInt32(p *int32, v int32) {
	pre(unsafe.Pointer(p), "atomic.store")
	*p = v
	post()
}
func SwapInt32(p *int32, v int32) int32 {
	pre(unsafe.Pointer(p), "atomic.swap")
	o := *p
	*p = v
	post()
	return o
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	pre(unsafe.Pointer(p), "atomic.cas")
	if *p != o {
		return false
	}
	*p = n
	post()
	return true
}
func AndInt32(p *int32, m int32) int32 {
	pre(unsafe.Pointer(p), "atomic.and")
	o := *p
	*p &= m
	return o
}
func OrInt32(p *int32, m int32) int32 {
	pre(unsafe.Pointer(p), "atomic.or")
	o := *p
	*p |= m
	return o
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) And(m int32) int32              { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32               { return OrInt32(&x.v, m) }

func AddInt64(p *int64, d int64) int64 {
	pre(unsafe.Pointer(p), "atomic.add")
	*p += d
	r := *p
	post()
	return r
}
func LoadInt64(p *int64) int64 {
	pre(unsafe.Pointer(p), "atomic.load")
	r := *p
	return r
}
func StoreInt64(p *int64, v int64) {
	pre(unsafe.Pointer(p), "atomic.store")
	*p = v
	post()
}
func SwapInt64(p *int64, v int64) int64 {
	pre(unsafe.Pointer(p), "atomic.swap")
	o := *p
	*p = v
	post()
	return o
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	pre(unsafe.Pointer(p), "atomic.cas")
	if *p != o {
		return false
	}
	*p = n
	post()
	return true
}
func AndInt64(p *int64, m int64) int64 {
	pre(unsafe.Pointer(p), "atomic.and")
	o := *p
	*p &= m
	return o
}
func OrInt64(p *int64, m int64) int64 {
	pre(unsafe.Pointer(p), "atomic.or")
	o := *p
	*p |= m
	return o
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) And(m int64) int64              { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64               { return OrInt64(&x.v, m) }

func AddUint32(p *uint32, d uint32) uint32 {
	pre(unsafe.Pointer(p), "atomic.add")
	*p += d
	r := *p
	post()
	return r
}
func LoadUint32(p *uint32) uint32 {
	pre(unsafe.Pointer(p), "atomic.load")
	r := *p
	return r
}
func StoreUint32(p *uint32, v uint32) {
	pre(unsafe.Pointer(p), "atomic.store")
	*p = v
	post()
}
func SwapUint32(p *uint32, v uint32) uint32 {
	pre(unsafe.Pointer(p), "atomic.swap")
	o := *p
	*p = v
	post()
	return o
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pre(unsafe.Pointer(p), "atomic.cas")
	if *p != o {
		return false
	}
	*p = n
	post()
	return true
}
func AndUint32(p *uint32, m uint32) uint32 {
	pre(unsafe.Pointer(p), "atomic.and")
	o := *p
	*p &= m
	return o
}
func OrUint32(p *uint32, m uint32) uint32 {
	pre(unsafe.Pointer(p), "atomic.or")
	o := *p
	*p |= m
	return o
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) And(m uint32) uint32             { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32              { return OrUint32(&x.v, m) }

func AddUint64(p *uint64, d uint64) uint64 {
	pre(unsafe.Pointer(p), "atomic.add")
	*p += d
	r := *p
	post()
	return r
}
func LoadUint64(p *uint64) uint64 {
	pre(unsafe.Pointer(p), "atomic.load")
	r := *p
	return r
}
func StoreUint64(p *uint64, v uint64) {
	pre(unsafe.Pointer(p), "atomic.store")
	*p = v
	post()
}
func SwapUint64(p *uint64, v uint64) uint64 {
	pre(unsafe.Pointer(p), "atomic.swap")
	o := *p
	*p = v
	post()
	return o
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pre(unsafe.Pointer(p), "atomic.cas")
	if *p != o {
		return false
	}
	*p = n
	post()
	return true
}
func AndUint64(p *uint64, m uint64) uint64 {
	pre(unsafe.Pointer(p), "atomic.and")
	o := *p
	*p &= m
	return o
}
func OrUint64(p *uint64, m uint64) uint64 {
	pre(unsafe.Pointer(p), "atomic.or")
	o := *p
	*p |= m
	return o
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) And(m uint64) uint64             { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64              { return OrUint64(&x.v, m) }

func AddUintptr(p *uintptr, d uintptr) uintptr {
	pre(unsafe.Pointer(p), "atomic.add")
	*p += d
	r := *p
	post()
	return r
}
func LoadUintptr(p *uintptr) uintptr {
	pre(unsafe.Pointer(p), "atomic.load")
	r := *p
	return r
}
func StoreUintptr(p *uintptr, v uintptr) {
	pre(unsafe.Pointer(p), "atomic.store")
	*p = v
	post()
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	pre(unsafe.Pointer(p), "atomic.swap")
	o := *p
	*p = v
	post()
	return o
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pre(unsafe.Pointer(p), "atomic.cas")
	if *p != o {
		return false
	}
	*p = n
	post()
	return true
}
func AndUintptr(p *uintptr, m uintptr) uintptr {
	pre(unsafe.Pointer(p), "atomic.and")
	o := *p
	*p &= m
	return o
}
func OrUintptr(p *uintptr, m uintptr) uintptr {
	pre(unsafe.Pointer(p), "atomic.or")
	o := *p
	*p |= m
	return o
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) And(m uintptr) uintptr            { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr             { return OrUintptr(&x.v, m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	pre(unsafe.Pointer(p), "atomic.load")
	return *p
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	pre(unsafe.Pointer(p), "atomic.store")
	*p = v
	post()
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pre(unsafe.Pointer(p), "atomic.swap")
	o := *p
	*p = v
	post()
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pre(unsafe.Pointer(p), "atomic.cas")
	if *p != o {
		return false
	}
	*p = n
	post()
	return true
}

type Bool struct{ v bool }

func (x *Bool) Load() bool {
	pre(unsafe.Pointer(x), "atomic.load")
	return x.v
}
func (x *Bool) Store(v bool) {
	pre(unsafe.Pointer(x), "atomic.store")
	x.v = v
	post()
}
func (x *Bool) Swap(v bool) bool {
	pre(unsafe.Pointer(x), "atomic.swap")
	o := x.v
	x.v = v
	post()
	return o
}
func (x *Bool) CompareAndSwap(o, n bool) bool {
	pre(unsafe.Pointer(x), "atomic.cas")
	if x.v != o {
		return false
	}
	x.v = n
	post()
	return true
}

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T {
	pre(unsafe.Pointer(x), "atomic.load")
	return x.v
}
func (x *Pointer[T]) Store(v *T) {
	pre(unsafe.Pointer(x), "atomic.store")
	x.v = v
	post()
}
func (x *Pointer[T]) Swap(v *T) *T {
	pre(unsafe.Pointer(x), "atomic.swap")
	o := x.v
	x.v = v
	post()
	return o
}
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	pre(unsafe.Pointer(x), "atomic.cas")
	if x.v != o {
		return false
	}
	x.v = n
	post()
	return true
}

type Value struct{ v any }

func (x *Value) Load() any {
	pre(unsafe.Pointer(x), "atomic.load")
	return x.v
}
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	pre(unsafe.Pointer(x), "atomic.store")
	x.v = v
	post()
}
func (x *Value) Swap(v any) any {
	pre(unsafe.Pointer(x), "atomic.swap")
	o := x.v
	x.v = v
	post()
	return o
}
func (x *Value) CompareAndSwap(o, n any) bool {
	pre(unsafe.Pointer(x), "atomic.cas")
	if x.v != o {
		return false
	}
	x.v = n
	post()
	return true
}
