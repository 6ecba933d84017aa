// Package atomic stands in for sync/atomic: every operation is a scheduling
// point.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"verifmc/shim/sched"
)

//go:norace
func at[T any](op string, p *T) { sched.Point(op, uintptr(unsafe.Pointer(p))) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	at("LoadPointer", p)
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	at("StorePointer", p)
	atomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	at("SwapPointer", p)
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	at("CompareAndSwapPointer", p)
	return atomic.CompareAndSwapPointer(p, o, n)
}

func LoadInt32(p *int32) int32          { at("LoadInt32", p); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { at("StoreInt32", p); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, d int32) int32  { at("AddInt32", p); return atomic.AddInt32(p, d) }
func SwapInt32(p *int32, v int32) int32 { at("SwapInt32", p); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	at("CompareAndSwapInt32", p)
	return atomic.CompareAndSwapInt32(p, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (a *Int32) Load() int32        { at("Int32.Load", a); return a.v.Load() }
func (a *Int32) Store(v int32)      { at("Int32.Store", a); a.v.Store(v) }
func (a *Int32) Add(d int32) int32  { at("Int32.Add", a); return a.v.Add(d) }
func (a *Int32) Swap(v int32) int32 { at("Int32.Swap", a); return a.v.Swap(v) }
func (a *Int32) CompareAndSwap(o, n int32) bool {
	at("Int32.CompareAndSwap", a)
	return a.v.CompareAndSwap(o, n)
}

func LoadInt64(p *int64) int64          { at("LoadInt64", p); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { at("StoreInt64", p); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, d int64) int64  { at("AddInt64", p); return atomic.AddInt64(p, d) }
func SwapInt64(p *int64, v int64) int64 { at("SwapInt64", p); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	at("CompareAndSwapInt64", p)
	return atomic.CompareAndSwapInt64(p, o, n)
}

type Int64 struct{ v atomic.Int64 }

func (a *Int64) Load() int64        { at("Int64.Load", a); return a.v.Load() }
func (a *Int64) Store(v int64)      { at("Int64.Store", a); a.v.Store(v) }
func (a *Int64) Add(d int64) int64  { at("Int64.Add", a); return a.v.Add(d) }
func (a *Int64) Swap(v int64) int64 { at("Int64.Swap", a); return a.v.Swap(v) }
func (a *Int64) CompareAndSwap(o, n int64) bool {
	at("Int64.CompareAndSwap", a)
	return a.v.CompareAndSwap(o, n)
}

func LoadUint32(p *uint32) uint32           { at("LoadUint32", p); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { at("StoreUint32", p); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32  { at("AddUint32", p); return atomic.AddUint32(p, d) }
func SwapUint32(p *uint32, v uint32) uint32 { at("SwapUint32", p); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	at("CompareAndSwapUint32", p)
	return atomic.CompareAndSwapUint32(p, o, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (a *Uint32) Load() uint32         { at("Uint32.Load", a); return a.v.Load() }
func (a *Uint32) Store(v uint32)       { at("Uint32.Store", a); a.v.Store(v) }
func (a *Uint32) Add(d uint32) uint32  { at("Uint32.Add", a); return a.v.Add(d) }
func (a *Uint32) Swap(v uint32) uint32 { at("Uint32.Swap", a); return a.v.Swap(v) }
func (a *Uint32) CompareAndSwap(o, n uint32) bool {
	at("Uint32.CompareAndSwap", a)
	return a.v.CompareAndSwap(o, n)
}

func LoadUint64(p *uint64) uint64           { at("LoadUint64", p); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { at("StoreUint64", p); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64  { at("AddUint64", p); return atomic.AddUint64(p, d) }
func SwapUint64(p *uint64, v uint64) uint64 { at("SwapUint64", p); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	at("CompareAndSwapUint64", p)
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (a *Uint64) Load() uint64         { at("Uint64.Load", a); return a.v.Load() }
func (a *Uint64) Store(v uint64)       { at("Uint64.Store", a); a.v.Store(v) }
func (a *Uint64) Add(d uint64) uint64  { at("Uint64.Add", a); return a.v.Add(d) }
func (a *Uint64) Swap(v uint64) uint64 { at("Uint64.Swap", a); return a.v.Swap(v) }
func (a *Uint64) CompareAndSwap(o, n uint64) bool {
	at("Uint64.CompareAndSwap", a)
	return a.v.CompareAndSwap(o, n)
}

func LoadUintptr(p *uintptr) uintptr           { at("LoadUintptr", p); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)       { at("StoreUintptr", p); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr { at("AddUintptr", p); return atomic.AddUintptr(p, d) }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	at("SwapUintptr", p)
	return atomic.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	at("CompareAndSwapUintptr", p)
	return atomic.CompareAndSwapUintptr(p, o, n)
}

type Uintptr struct{ v atomic.Uintptr }

func (a *Uintptr) Load() uintptr          { at("Uintptr.Load", a); return a.v.Load() }
func (a *Uintptr) Store(v uintptr)        { at("Uintptr.Store", a); a.v.Store(v) }
func (a *Uintptr) Add(d uintptr) uintptr  { at("Uintptr.Add", a); return a.v.Add(d) }
func (a *Uintptr) Swap(v uintptr) uintptr { at("Uintptr.Swap", a); return a.v.Swap(v) }
func (a *Uintptr) CompareAndSwap(o, n uintptr) bool {
	at("Uintptr.CompareAndSwap", a)
	return a.v.CompareAndSwap(o, n)
}

func AndInt32(p *int32, m int32) int32 { at("AndInt32", p); return atomic.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32  { at("OrInt32", p); return atomic.OrInt32(p, m) }
func (a *Int32) And(m int32) int32     { at("Int32.And", a); return a.v.And(m) }
func (a *Int32) Or(m int32) int32      { at("Int32.Or", a); return a.v.Or(m) }

func AndInt64(p *int64, m int64) int64 { at("AndInt64", p); return atomic.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64  { at("OrInt64", p); return atomic.OrInt64(p, m) }
func (a *Int64) And(m int64) int64     { at("Int64.And", a); return a.v.And(m) }
func (a *Int64) Or(m int64) int64      { at("Int64.Or", a); return a.v.Or(m) }

func AndUint32(p *uint32, m uint32) uint32 { at("AndUint32", p); return atomic.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32  { at("OrUint32", p); return atomic.OrUint32(p, m) }
func (a *Uint32) And(m uint32) uint32      { at("Uint32.And", a); return a.v.And(m) }
func (a *Uint32) Or(m uint32) uint32       { at("Uint32.Or", a); return a.v.Or(m) }

func AndUint64(p *uint64, m uint64) uint64 { at("AndUint64", p); return atomic.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64  { at("OrUint64", p); return atomic.OrUint64(p, m) }
func (a *Uint64) And(m uint64) uint64      { at("Uint64.And", a); return a.v.And(m) }
func (a *Uint64) Or(m uint64) uint64       { at("Uint64.Or", a); return a.v.Or(m) }

func AndUintptr(p *uintptr, m uintptr) uintptr { at("AndUintptr", p); return atomic.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr  { at("OrUintptr", p); return atomic.OrUintptr(p, m) }
func (a *Uintptr) And(m uintptr) uintptr       { at("Uintptr.And", a); return a.v.And(m) }
func (a *Uintptr) Or(m uintptr) uintptr        { at("Uintptr.Or", a); return a.v.Or(m) }

type Bool struct{ v atomic.Bool }

func (a *Bool) Load() bool       { at("Bool.Load", a); return a.v.Load() }
func (a *Bool) Store(v bool)     { at("Bool.Store", a); a.v.Store(v) }
func (a *Bool) Swap(v bool) bool { at("Bool.Swap", a); return a.v.Swap(v) }
func (a *Bool) CompareAndSwap(o, n bool) bool {
	at("Bool.CompareAndSwap", a)
	return a.v.CompareAndSwap(o, n)
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (a *Pointer[T]) Load() *T     { at("Pointer.Load", a); return a.v.Load() }
func (a *Pointer[T]) Store(v *T)   { at("Pointer.Store", a); a.v.Store(v) }
func (a *Pointer[T]) Swap(v *T) *T { at("Pointer.Swap", a); return a.v.Swap(v) }
func (a *Pointer[T]) CompareAndSwap(o, n *T) bool {
	at("Pointer.CompareAndSwap", a)
	return a.v.CompareAndSwap(o, n)
}

type Value struct{ v atomic.Value }

func (a *Value) Load() any      { at("Value.Load", a); return a.v.Load() }
func (a *Value) Store(v any)    { at("Value.Store", a); a.v.Store(v) }
func (a *Value) Swap(v any) any { at("Value.Swap", a); return a.v.Swap(v) }
func (a *Value) CompareAndSwap(o, n any) bool {
	at("Value.CompareAndSwap", a)
	return a.v.CompareAndSwap(o, n)
}
