// Package satomic replaces sync/atomic inside the simulation: every operation is
// preceded by a preemption point, after its arguments were computed.
package satomic

import (
	"simrt"
	"sync/atomic"
	"unsafe"
)

func LoadInt32(p *int32) int32          { simrt.Y(-20); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { simrt.Y(-21); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { simrt.Y(-22); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	simrt.Y(-23)
	return atomic.CompareAndSwapInt32(p, a, b)
}
func AddInt32(p *int32, d int32) int32 { simrt.Y(-24); return atomic.AddInt32(p, d) }
func AndInt32(p *int32, m int32) int32 { simrt.Y(-25); return atomic.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32  { simrt.Y(-26); return atomic.OrInt32(p, m) }

// Int32 mirrors atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { simrt.Y(-20); return x.v.Load() }
func (x *Int32) Store(v int32)                  { simrt.Y(-21); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { simrt.Y(-22); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(a, b int32) bool { simrt.Y(-23); return x.v.CompareAndSwap(a, b) }
func (x *Int32) Add(d int32) int32              { simrt.Y(-24); return x.v.Add(d) }
func (x *Int32) And(m int32) int32              { simrt.Y(-25); return x.v.And(m) }
func (x *Int32) Or(m int32) int32               { simrt.Y(-26); return x.v.Or(m) }

func LoadInt64(p *int64) int64          { simrt.Y(-20); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { simrt.Y(-21); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { simrt.Y(-22); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	simrt.Y(-23)
	return atomic.CompareAndSwapInt64(p, a, b)
}
func AddInt64(p *int64, d int64) int64 { simrt.Y(-24); return atomic.AddInt64(p, d) }
func AndInt64(p *int64, m int64) int64 { simrt.Y(-25); return atomic.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64  { simrt.Y(-26); return atomic.OrInt64(p, m) }

// Int64 mirrors atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { simrt.Y(-20); return x.v.Load() }
func (x *Int64) Store(v int64)                  { simrt.Y(-21); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { simrt.Y(-22); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(a, b int64) bool { simrt.Y(-23); return x.v.CompareAndSwap(a, b) }
func (x *Int64) Add(d int64) int64              { simrt.Y(-24); return x.v.Add(d) }
func (x *Int64) And(m int64) int64              { simrt.Y(-25); return x.v.And(m) }
func (x *Int64) Or(m int64) int64               { simrt.Y(-26); return x.v.Or(m) }

func LoadUint32(p *uint32) uint32           { simrt.Y(-20); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { simrt.Y(-21); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { simrt.Y(-22); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	simrt.Y(-23)
	return atomic.CompareAndSwapUint32(p, a, b)
}
func AddUint32(p *uint32, d uint32) uint32 { simrt.Y(-24); return atomic.AddUint32(p, d) }
func AndUint32(p *uint32, m uint32) uint32 { simrt.Y(-25); return atomic.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32  { simrt.Y(-26); return atomic.OrUint32(p, m) }

// Uint32 mirrors atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { simrt.Y(-20); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { simrt.Y(-21); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { simrt.Y(-22); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { simrt.Y(-23); return x.v.CompareAndSwap(a, b) }
func (x *Uint32) Add(d uint32) uint32             { simrt.Y(-24); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32             { simrt.Y(-25); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32              { simrt.Y(-26); return x.v.Or(m) }

func LoadUint64(p *uint64) uint64           { simrt.Y(-20); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { simrt.Y(-21); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { simrt.Y(-22); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	simrt.Y(-23)
	return atomic.CompareAndSwapUint64(p, a, b)
}
func AddUint64(p *uint64, d uint64) uint64 { simrt.Y(-24); return atomic.AddUint64(p, d) }
func AndUint64(p *uint64, m uint64) uint64 { simrt.Y(-25); return atomic.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64  { simrt.Y(-26); return atomic.OrUint64(p, m) }

// Uint64 mirrors atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { simrt.Y(-20); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { simrt.Y(-21); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { simrt.Y(-22); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { simrt.Y(-23); return x.v.CompareAndSwap(a, b) }
func (x *Uint64) Add(d uint64) uint64             { simrt.Y(-24); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64             { simrt.Y(-25); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64              { simrt.Y(-26); return x.v.Or(m) }

func LoadUintptr(p *uintptr) uintptr            { simrt.Y(-20); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { simrt.Y(-21); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { simrt.Y(-22); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	simrt.Y(-23)
	return atomic.CompareAndSwapUintptr(p, a, b)
}
func AddUintptr(p *uintptr, d uintptr) uintptr { simrt.Y(-24); return atomic.AddUintptr(p, d) }
func AndUintptr(p *uintptr, m uintptr) uintptr { simrt.Y(-25); return atomic.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr  { simrt.Y(-26); return atomic.OrUintptr(p, m) }

// Uintptr mirrors atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { simrt.Y(-20); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { simrt.Y(-21); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { simrt.Y(-22); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool { simrt.Y(-23); return x.v.CompareAndSwap(a, b) }
func (x *Uintptr) Add(d uintptr) uintptr            { simrt.Y(-24); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr            { simrt.Y(-25); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr             { simrt.Y(-26); return x.v.Or(m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { simrt.Y(-20); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { simrt.Y(-21); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	simrt.Y(-22)
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	simrt.Y(-23)
	return atomic.CompareAndSwapPointer(p, a, b)
}

// Bool mirrors atomic.Bool.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { simrt.Y(-20); return x.v.Load() }
func (x *Bool) Store(v bool)                  { simrt.Y(-21); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { simrt.Y(-22); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(a, b bool) bool { simrt.Y(-23); return x.v.CompareAndSwap(a, b) }

// Pointer mirrors atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { simrt.Y(-20); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { simrt.Y(-21); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { simrt.Y(-22); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool { simrt.Y(-23); return x.v.CompareAndSwap(a, b) }

// Value mirrors atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { simrt.Y(-20); return x.v.Load() }
func (x *Value) Store(v any)                  { simrt.Y(-21); x.v.Store(v) }
func (x *Value) Swap(v any) any               { simrt.Y(-22); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(a, b any) bool { simrt.Y(-23); return x.v.CompareAndSwap(a, b) }
