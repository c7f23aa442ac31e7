// Package atomic stands in for sync/atomic: every operation is a place where
// another goroutine may take over, followed by the real operation.
package atomic

import (
	real "sync/atomic"
	"unsafe"

	"verif/sched"
)

func pt() { sched.Point(sched.KAtomic) }

func LoadInt32(p *int32) int32                      { pt(); return real.LoadInt32(p) }
func StoreInt32(p *int32, v int32)                  { pt(); real.StoreInt32(p, v) }
func AddInt32(p *int32, d int32) int32              { pt(); return real.AddInt32(p, d) }
func SwapInt32(p *int32, v int32) int32             { pt(); return real.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool { pt(); return real.CompareAndSwapInt32(p, o, n) }

type Int32 struct{ v real.Int32 }

func (x *Int32) Load() int32                    { pt(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { pt(); x.v.Store(v) }
func (x *Int32) Add(d int32) int32              { pt(); return x.v.Add(d) }
func (x *Int32) Swap(v int32) int32             { pt(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { pt(); return x.v.CompareAndSwap(o, n) }

func LoadInt64(p *int64) int64                      { pt(); return real.LoadInt64(p) }
func StoreInt64(p *int64, v int64)                  { pt(); real.StoreInt64(p, v) }
func AddInt64(p *int64, d int64) int64              { pt(); return real.AddInt64(p, d) }
func SwapInt64(p *int64, v int64) int64             { pt(); return real.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool { pt(); return real.CompareAndSwapInt64(p, o, n) }

type Int64 struct{ v real.Int64 }

func (x *Int64) Load() int64                    { pt(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { pt(); x.v.Store(v) }
func (x *Int64) Add(d int64) int64              { pt(); return x.v.Add(d) }
func (x *Int64) Swap(v int64) int64             { pt(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { pt(); return x.v.CompareAndSwap(o, n) }

func LoadUint32(p *uint32) uint32           { pt(); return real.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { pt(); real.StoreUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32  { pt(); return real.AddUint32(p, d) }
func SwapUint32(p *uint32, v uint32) uint32 { pt(); return real.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt()
	return real.CompareAndSwapUint32(p, o, n)
}

type Uint32 struct{ v real.Uint32 }

func (x *Uint32) Load() uint32                    { pt(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { pt(); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32             { pt(); return x.v.Add(d) }
func (x *Uint32) Swap(v uint32) uint32            { pt(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { pt(); return x.v.CompareAndSwap(o, n) }

func LoadUint64(p *uint64) uint64           { pt(); return real.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { pt(); real.StoreUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64  { pt(); return real.AddUint64(p, d) }
func SwapUint64(p *uint64, v uint64) uint64 { pt(); return real.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt()
	return real.CompareAndSwapUint64(p, o, n)
}

type Uint64 struct{ v real.Uint64 }

func (x *Uint64) Load() uint64                    { pt(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { pt(); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64             { pt(); return x.v.Add(d) }
func (x *Uint64) Swap(v uint64) uint64            { pt(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { pt(); return x.v.CompareAndSwap(o, n) }

func LoadUintptr(p *uintptr) uintptr            { pt(); return real.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { pt(); real.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr  { pt(); return real.AddUintptr(p, d) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { pt(); return real.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pt()
	return real.CompareAndSwapUintptr(p, o, n)
}

type Uintptr struct{ v real.Uintptr }

func (x *Uintptr) Load() uintptr                    { pt(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { pt(); x.v.Store(v) }
func (x *Uintptr) Add(d uintptr) uintptr            { pt(); return x.v.Add(d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { pt(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { pt(); return x.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pt(); return real.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt(); real.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt()
	return real.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt()
	return real.CompareAndSwapPointer(p, o, n)
}

type Bool struct{ v real.Bool }

func (x *Bool) Load() bool                    { pt(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { pt(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { pt(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v real.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { pt(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { pt(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { pt(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v real.Value }

func (x *Value) Load() any                    { pt(); return x.v.Load() }
func (x *Value) Store(v any)                  { pt(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { pt(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { pt(); return x.v.CompareAndSwap(o, n) }
