// Package satomic replaces package sync/atomic in the instrumented copy of
// the library: the real operations behind scheduling points.
package satomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/sim/simrt"
)

func pt() { simrt.Point(false) }

func LoadInt32(a *int32) int32                      { pt(); return atomic.LoadInt32(a) }
func StoreInt32(a *int32, v int32)                  { pt(); atomic.StoreInt32(a, v); pt() }
func SwapInt32(a *int32, v int32) int32             { pt(); return atomic.SwapInt32(a, v) }
func CompareAndSwapInt32(a *int32, o, n int32) bool { pt(); return atomic.CompareAndSwapInt32(a, o, n) }
func AddInt32(a *int32, d int32) int32              { pt(); return atomic.AddInt32(a, d) }
func AndInt32(a *int32, d int32) int32              { pt(); return atomic.AndInt32(a, d) }
func OrInt32(a *int32, d int32) int32               { pt(); return atomic.OrInt32(a, d) }

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                        { pt(); return x.v.Load() }
func (x *Int32) Store(v int32)                      { pt(); x.v.Store(v); pt() }
func (x *Int32) Swap(v int32) int32                 { pt(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool     { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32                  { pt(); return x.v.Add(d) }
func (x *Int32) And(d int32) int32                  { pt(); return x.v.And(d) }
func (x *Int32) Or(d int32) int32                   { pt(); return x.v.Or(d) }
func LoadInt64(a *int64) int64                      { pt(); return atomic.LoadInt64(a) }
func StoreInt64(a *int64, v int64)                  { pt(); atomic.StoreInt64(a, v); pt() }
func SwapInt64(a *int64, v int64) int64             { pt(); return atomic.SwapInt64(a, v) }
func CompareAndSwapInt64(a *int64, o, n int64) bool { pt(); return atomic.CompareAndSwapInt64(a, o, n) }
func AddInt64(a *int64, d int64) int64              { pt(); return atomic.AddInt64(a, d) }
func AndInt64(a *int64, d int64) int64              { pt(); return atomic.AndInt64(a, d) }
func OrInt64(a *int64, d int64) int64               { pt(); return atomic.OrInt64(a, d) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { pt(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { pt(); x.v.Store(v); pt() }
func (x *Int64) Swap(v int64) int64             { pt(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64              { pt(); return x.v.Add(d) }
func (x *Int64) And(d int64) int64              { pt(); return x.v.And(d) }
func (x *Int64) Or(d int64) int64               { pt(); return x.v.Or(d) }
func LoadUint32(a *uint32) uint32               { pt(); return atomic.LoadUint32(a) }
func StoreUint32(a *uint32, v uint32)           { pt(); atomic.StoreUint32(a, v); pt() }
func SwapUint32(a *uint32, v uint32) uint32     { pt(); return atomic.SwapUint32(a, v) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	pt()
	return atomic.CompareAndSwapUint32(a, o, n)
}
func AddUint32(a *uint32, d uint32) uint32 { pt(); return atomic.AddUint32(a, d) }
func AndUint32(a *uint32, d uint32) uint32 { pt(); return atomic.AndUint32(a, d) }
func OrUint32(a *uint32, d uint32) uint32  { pt(); return atomic.OrUint32(a, d) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { pt(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { pt(); x.v.Store(v); pt() }
func (x *Uint32) Swap(v uint32) uint32            { pt(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32             { pt(); return x.v.Add(d) }
func (x *Uint32) And(d uint32) uint32             { pt(); return x.v.And(d) }
func (x *Uint32) Or(d uint32) uint32              { pt(); return x.v.Or(d) }
func LoadUint64(a *uint64) uint64                 { pt(); return atomic.LoadUint64(a) }
func StoreUint64(a *uint64, v uint64)             { pt(); atomic.StoreUint64(a, v); pt() }
func SwapUint64(a *uint64, v uint64) uint64       { pt(); return atomic.SwapUint64(a, v) }
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	pt()
	return atomic.CompareAndSwapUint64(a, o, n)
}
func AddUint64(a *uint64, d uint64) uint64 { pt(); return atomic.AddUint64(a, d) }
func AndUint64(a *uint64, d uint64) uint64 { pt(); return atomic.AndUint64(a, d) }
func OrUint64(a *uint64, d uint64) uint64  { pt(); return atomic.OrUint64(a, d) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { pt(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { pt(); x.v.Store(v); pt() }
func (x *Uint64) Swap(v uint64) uint64            { pt(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64             { pt(); return x.v.Add(d) }
func (x *Uint64) And(d uint64) uint64             { pt(); return x.v.And(d) }
func (x *Uint64) Or(d uint64) uint64              { pt(); return x.v.Or(d) }
func LoadUintptr(a *uintptr) uintptr              { pt(); return atomic.LoadUintptr(a) }
func StoreUintptr(a *uintptr, v uintptr)          { pt(); atomic.StoreUintptr(a, v); pt() }
func SwapUintptr(a *uintptr, v uintptr) uintptr   { pt(); return atomic.SwapUintptr(a, v) }
func CompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	pt()
	return atomic.CompareAndSwapUintptr(a, o, n)
}
func AddUintptr(a *uintptr, d uintptr) uintptr { pt(); return atomic.AddUintptr(a, d) }
func AndUintptr(a *uintptr, d uintptr) uintptr { pt(); return atomic.AndUintptr(a, d) }
func OrUintptr(a *uintptr, d uintptr) uintptr  { pt(); return atomic.OrUintptr(a, d) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                       { pt(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                     { pt(); x.v.Store(v); pt() }
func (x *Uintptr) Swap(v uintptr) uintptr              { pt(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool    { pt(); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) Add(d uintptr) uintptr               { pt(); return x.v.Add(d) }
func (x *Uintptr) And(d uintptr) uintptr               { pt(); return x.v.And(d) }
func (x *Uintptr) Or(d uintptr) uintptr                { pt(); return x.v.Or(d) }
func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { pt(); return atomic.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { pt(); atomic.StorePointer(a, v); pt() }
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt()
	return atomic.SwapPointer(a, v)
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt()
	return atomic.CompareAndSwapPointer(a, o, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { pt(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { pt(); x.v.Store(v); pt() }
func (x *Bool) Swap(v bool) bool              { pt(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { pt(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { pt(); x.v.Store(v); pt() }
func (x *Pointer[T]) Swap(v *T) *T                { pt(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { pt(); return x.v.Load() }
func (x *Value) Store(v any)                  { pt(); x.v.Store(v); pt() }
func (x *Value) Swap(v any) any               { pt(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { pt(); return x.v.CompareAndSwap(o, n) }
