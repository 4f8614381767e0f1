//go:build go1.21

// Package atomic stands for sync/atomic: every access is a scheduling point.
package atomic

import (
	a "sync/atomic"
	"unsafe"

	z "github.com/l1va/goosli/zzsched"
)

func AddInt32(p *int32, d int32) int32  { z.AtomicW(unsafe.Pointer(p)); return a.AddInt32(p, d) }
func LoadInt32(p *int32) int32          { z.AtomicR(unsafe.Pointer(p)); return a.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { z.AtomicW(unsafe.Pointer(p)); a.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { z.AtomicW(unsafe.Pointer(p)); return a.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, x, y int32) bool {
	z.AtomicW(unsafe.Pointer(p))
	return a.CompareAndSwapInt32(p, x, y)
}

type Int32 struct{ v a.Int32 }

func (x *Int32) Add(d int32) int32  { z.AtomicW(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Int32) Load() int32        { z.AtomicR(unsafe.Pointer(x)); return x.v.Load() }
func (x *Int32) Store(v int32)      { z.AtomicW(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32 { z.AtomicW(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	z.AtomicW(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

func AddInt64(p *int64, d int64) int64  { z.AtomicW(unsafe.Pointer(p)); return a.AddInt64(p, d) }
func LoadInt64(p *int64) int64          { z.AtomicR(unsafe.Pointer(p)); return a.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { z.AtomicW(unsafe.Pointer(p)); a.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { z.AtomicW(unsafe.Pointer(p)); return a.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, x, y int64) bool {
	z.AtomicW(unsafe.Pointer(p))
	return a.CompareAndSwapInt64(p, x, y)
}

type Int64 struct{ v a.Int64 }

func (x *Int64) Add(d int64) int64  { z.AtomicW(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Int64) Load() int64        { z.AtomicR(unsafe.Pointer(x)); return x.v.Load() }
func (x *Int64) Store(v int64)      { z.AtomicW(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64 { z.AtomicW(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	z.AtomicW(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

func AddUint32(p *uint32, d uint32) uint32  { z.AtomicW(unsafe.Pointer(p)); return a.AddUint32(p, d) }
func LoadUint32(p *uint32) uint32           { z.AtomicR(unsafe.Pointer(p)); return a.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { z.AtomicW(unsafe.Pointer(p)); a.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { z.AtomicW(unsafe.Pointer(p)); return a.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, x, y uint32) bool {
	z.AtomicW(unsafe.Pointer(p))
	return a.CompareAndSwapUint32(p, x, y)
}

type Uint32 struct{ v a.Uint32 }

func (x *Uint32) Add(d uint32) uint32  { z.AtomicW(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Uint32) Load() uint32         { z.AtomicR(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { z.AtomicW(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32 { z.AtomicW(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	z.AtomicW(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

func AddUint64(p *uint64, d uint64) uint64  { z.AtomicW(unsafe.Pointer(p)); return a.AddUint64(p, d) }
func LoadUint64(p *uint64) uint64           { z.AtomicR(unsafe.Pointer(p)); return a.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { z.AtomicW(unsafe.Pointer(p)); a.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { z.AtomicW(unsafe.Pointer(p)); return a.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, x, y uint64) bool {
	z.AtomicW(unsafe.Pointer(p))
	return a.CompareAndSwapUint64(p, x, y)
}

type Uint64 struct{ v a.Uint64 }

func (x *Uint64) Add(d uint64) uint64  { z.AtomicW(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Uint64) Load() uint64         { z.AtomicR(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { z.AtomicW(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64 { z.AtomicW(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	z.AtomicW(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

func AddUintptr(p *uintptr, d uintptr) uintptr {
	z.AtomicW(unsafe.Pointer(p))
	return a.AddUintptr(p, d)
}
func LoadUintptr(p *uintptr) uintptr     { z.AtomicR(unsafe.Pointer(p)); return a.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr) { z.AtomicW(unsafe.Pointer(p)); a.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	z.AtomicW(unsafe.Pointer(p))
	return a.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, x, y uintptr) bool {
	z.AtomicW(unsafe.Pointer(p))
	return a.CompareAndSwapUintptr(p, x, y)
}

type Uintptr struct{ v a.Uintptr }

func (x *Uintptr) Add(d uintptr) uintptr  { z.AtomicW(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Uintptr) Load() uintptr          { z.AtomicR(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { z.AtomicW(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { z.AtomicW(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	z.AtomicW(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

type Bool struct{ v a.Bool }

func (x *Bool) Load() bool       { z.AtomicR(unsafe.Pointer(x)); return x.v.Load() }
func (x *Bool) Store(v bool)     { z.AtomicW(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { z.AtomicW(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	z.AtomicW(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

type Value struct{ v a.Value }

func (x *Value) Load() any      { z.AtomicR(unsafe.Pointer(x)); return x.v.Load() }
func (x *Value) Store(v any)    { z.AtomicW(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Value) Swap(v any) any { z.AtomicW(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool {
	z.AtomicW(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}
