// Package vatomic stands in for sync/atomic.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif/vs"
)

func AddInt32(p *int32, d int32) int32 {
	vs.Atom("add", unsafe.Pointer(p), true)
	return atomic.AddInt32(p, d)
}
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	vs.Atom("cas", unsafe.Pointer(p), true)
	return atomic.CompareAndSwapInt32(p, a, b)
}
func LoadInt32(p *int32) int32 { vs.Atom("load", unsafe.Pointer(p), false); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32) {
	vs.Atom("store", unsafe.Pointer(p), true)
	atomic.StoreInt32(p, v)
}
func SwapInt32(p *int32, v int32) int32 {
	vs.Atom("swap", unsafe.Pointer(p), true)
	return atomic.SwapInt32(p, v)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32        { vs.Atom("load", unsafe.Pointer(x), false); return x.v.Load() }
func (x *Int32) Store(v int32)      { vs.Atom("store", unsafe.Pointer(x), true); x.v.Store(v) }
func (x *Int32) Add(v int32) int32  { vs.Atom("add", unsafe.Pointer(x), true); return x.v.Add(v) }
func (x *Int32) And(v int32) int32  { vs.Atom("and", unsafe.Pointer(x), true); return x.v.And(v) }
func (x *Int32) Or(v int32) int32   { vs.Atom("or", unsafe.Pointer(x), true); return x.v.Or(v) }
func (x *Int32) Swap(v int32) int32 { vs.Atom("swap", unsafe.Pointer(x), true); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(a, b int32) bool {
	vs.Atom("cas", unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(a, b)
}

func AddInt64(p *int64, d int64) int64 {
	vs.Atom("add", unsafe.Pointer(p), true)
	return atomic.AddInt64(p, d)
}
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	vs.Atom("cas", unsafe.Pointer(p), true)
	return atomic.CompareAndSwapInt64(p, a, b)
}
func LoadInt64(p *int64) int64 { vs.Atom("load", unsafe.Pointer(p), false); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64) {
	vs.Atom("store", unsafe.Pointer(p), true)
	atomic.StoreInt64(p, v)
}
func SwapInt64(p *int64, v int64) int64 {
	vs.Atom("swap", unsafe.Pointer(p), true)
	return atomic.SwapInt64(p, v)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64        { vs.Atom("load", unsafe.Pointer(x), false); return x.v.Load() }
func (x *Int64) Store(v int64)      { vs.Atom("store", unsafe.Pointer(x), true); x.v.Store(v) }
func (x *Int64) Add(v int64) int64  { vs.Atom("add", unsafe.Pointer(x), true); return x.v.Add(v) }
func (x *Int64) And(v int64) int64  { vs.Atom("and", unsafe.Pointer(x), true); return x.v.And(v) }
func (x *Int64) Or(v int64) int64   { vs.Atom("or", unsafe.Pointer(x), true); return x.v.Or(v) }
func (x *Int64) Swap(v int64) int64 { vs.Atom("swap", unsafe.Pointer(x), true); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(a, b int64) bool {
	vs.Atom("cas", unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(a, b)
}

func AddUint32(p *uint32, d uint32) uint32 {
	vs.Atom("add", unsafe.Pointer(p), true)
	return atomic.AddUint32(p, d)
}
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	vs.Atom("cas", unsafe.Pointer(p), true)
	return atomic.CompareAndSwapUint32(p, a, b)
}
func LoadUint32(p *uint32) uint32 {
	vs.Atom("load", unsafe.Pointer(p), false)
	return atomic.LoadUint32(p)
}
func StoreUint32(p *uint32, v uint32) {
	vs.Atom("store", unsafe.Pointer(p), true)
	atomic.StoreUint32(p, v)
}
func SwapUint32(p *uint32, v uint32) uint32 {
	vs.Atom("swap", unsafe.Pointer(p), true)
	return atomic.SwapUint32(p, v)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32         { vs.Atom("load", unsafe.Pointer(x), false); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { vs.Atom("store", unsafe.Pointer(x), true); x.v.Store(v) }
func (x *Uint32) Add(v uint32) uint32  { vs.Atom("add", unsafe.Pointer(x), true); return x.v.Add(v) }
func (x *Uint32) And(v uint32) uint32  { vs.Atom("and", unsafe.Pointer(x), true); return x.v.And(v) }
func (x *Uint32) Or(v uint32) uint32   { vs.Atom("or", unsafe.Pointer(x), true); return x.v.Or(v) }
func (x *Uint32) Swap(v uint32) uint32 { vs.Atom("swap", unsafe.Pointer(x), true); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool {
	vs.Atom("cas", unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(a, b)
}

func AddUint64(p *uint64, d uint64) uint64 {
	vs.Atom("add", unsafe.Pointer(p), true)
	return atomic.AddUint64(p, d)
}
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	vs.Atom("cas", unsafe.Pointer(p), true)
	return atomic.CompareAndSwapUint64(p, a, b)
}
func LoadUint64(p *uint64) uint64 {
	vs.Atom("load", unsafe.Pointer(p), false)
	return atomic.LoadUint64(p)
}
func StoreUint64(p *uint64, v uint64) {
	vs.Atom("store", unsafe.Pointer(p), true)
	atomic.StoreUint64(p, v)
}
func SwapUint64(p *uint64, v uint64) uint64 {
	vs.Atom("swap", unsafe.Pointer(p), true)
	return atomic.SwapUint64(p, v)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64         { vs.Atom("load", unsafe.Pointer(x), false); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { vs.Atom("store", unsafe.Pointer(x), true); x.v.Store(v) }
func (x *Uint64) Add(v uint64) uint64  { vs.Atom("add", unsafe.Pointer(x), true); return x.v.Add(v) }
func (x *Uint64) And(v uint64) uint64  { vs.Atom("and", unsafe.Pointer(x), true); return x.v.And(v) }
func (x *Uint64) Or(v uint64) uint64   { vs.Atom("or", unsafe.Pointer(x), true); return x.v.Or(v) }
func (x *Uint64) Swap(v uint64) uint64 { vs.Atom("swap", unsafe.Pointer(x), true); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool {
	vs.Atom("cas", unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(a, b)
}

func AddUintptr(p *uintptr, d uintptr) uintptr {
	vs.Atom("add", unsafe.Pointer(p), true)
	return atomic.AddUintptr(p, d)
}
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	vs.Atom("cas", unsafe.Pointer(p), true)
	return atomic.CompareAndSwapUintptr(p, a, b)
}
func LoadUintptr(p *uintptr) uintptr {
	vs.Atom("load", unsafe.Pointer(p), false)
	return atomic.LoadUintptr(p)
}
func StoreUintptr(p *uintptr, v uintptr) {
	vs.Atom("store", unsafe.Pointer(p), true)
	atomic.StoreUintptr(p, v)
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	vs.Atom("swap", unsafe.Pointer(p), true)
	return atomic.SwapUintptr(p, v)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr         { vs.Atom("load", unsafe.Pointer(x), false); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)       { vs.Atom("store", unsafe.Pointer(x), true); x.v.Store(v) }
func (x *Uintptr) Add(v uintptr) uintptr { vs.Atom("add", unsafe.Pointer(x), true); return x.v.Add(v) }
func (x *Uintptr) And(v uintptr) uintptr { vs.Atom("and", unsafe.Pointer(x), true); return x.v.And(v) }
func (x *Uintptr) Or(v uintptr) uintptr  { vs.Atom("or", unsafe.Pointer(x), true); return x.v.Or(v) }
func (x *Uintptr) Swap(v uintptr) uintptr {
	vs.Atom("swap", unsafe.Pointer(x), true)
	return x.v.Swap(v)
}
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool {
	vs.Atom("cas", unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(a, b)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool       { vs.Atom("load", unsafe.Pointer(x), false); return x.v.Load() }
func (x *Bool) Store(v bool)     { vs.Atom("store", unsafe.Pointer(x), true); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { vs.Atom("swap", unsafe.Pointer(x), true); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(a, b bool) bool {
	vs.Atom("cas", unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(a, b)
}

type Value struct{ v atomic.Value }

func (x *Value) Load() any      { vs.Atom("load", unsafe.Pointer(x), false); return x.v.Load() }
func (x *Value) Store(v any)    { vs.Atom("store", unsafe.Pointer(x), true); x.v.Store(v) }
func (x *Value) Swap(v any) any { vs.Atom("swap", unsafe.Pointer(x), true); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(a, b any) bool {
	vs.Atom("cas", unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(a, b)
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { vs.Atom("load", unsafe.Pointer(x), false); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { vs.Atom("store", unsafe.Pointer(x), true); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { vs.Atom("swap", unsafe.Pointer(x), true); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool {
	vs.Atom("cas", unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(a, b)
}
