// Package atomic stands in for sync/atomic: each operation is a scheduling point.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/takenet/deckard/internal/verifx/vsync"
)

func p() { vsync.Point("atomic") }

// num is an atomic number, over a mutex-free implementation of the real package.
type (
	Int32  struct{ v atomic.Int32 }
	Int64  struct{ v atomic.Int64 }
	Uint32 struct{ v atomic.Uint32 }
	Uint64 struct{ v atomic.Uint64 }
	Bool   struct{ v atomic.Bool }
	Value  struct{ v atomic.Value }
)

func (x *Int32) Load() int32                        { p(); return x.v.Load() }
func (x *Int32) Store(v int32)                      { p(); x.v.Store(v) }
func (x *Int32) Add(d int32) int32                  { p(); return x.v.Add(d) }
func (x *Int32) Swap(v int32) int32                 { p(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool     { p(); return x.v.CompareAndSwap(o, n) }
func LoadInt32(a *int32) int32                      { p(); return atomic.LoadInt32(a) }
func StoreInt32(a *int32, v int32)                  { p(); atomic.StoreInt32(a, v) }
func AddInt32(a *int32, d int32) int32              { p(); return atomic.AddInt32(a, d) }
func SwapInt32(a *int32, v int32) int32             { p(); return atomic.SwapInt32(a, v) }
func CompareAndSwapInt32(a *int32, o, n int32) bool { p(); return atomic.CompareAndSwapInt32(a, o, n) }

func (x *Int64) Load() int64                        { p(); return x.v.Load() }
func (x *Int64) Store(v int64)                      { p(); x.v.Store(v) }
func (x *Int64) Add(d int64) int64                  { p(); return x.v.Add(d) }
func (x *Int64) Swap(v int64) int64                 { p(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool     { p(); return x.v.CompareAndSwap(o, n) }
func LoadInt64(a *int64) int64                      { p(); return atomic.LoadInt64(a) }
func StoreInt64(a *int64, v int64)                  { p(); atomic.StoreInt64(a, v) }
func AddInt64(a *int64, d int64) int64              { p(); return atomic.AddInt64(a, d) }
func SwapInt64(a *int64, v int64) int64             { p(); return atomic.SwapInt64(a, v) }
func CompareAndSwapInt64(a *int64, o, n int64) bool { p(); return atomic.CompareAndSwapInt64(a, o, n) }

func (x *Uint32) Load() uint32                    { p(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { p(); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32             { p(); return x.v.Add(d) }
func (x *Uint32) Swap(v uint32) uint32            { p(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { p(); return x.v.CompareAndSwap(o, n) }
func LoadUint32(a *uint32) uint32                 { p(); return atomic.LoadUint32(a) }
func StoreUint32(a *uint32, v uint32)             { p(); atomic.StoreUint32(a, v) }
func AddUint32(a *uint32, d uint32) uint32        { p(); return atomic.AddUint32(a, d) }
func SwapUint32(a *uint32, v uint32) uint32       { p(); return atomic.SwapUint32(a, v) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	p()
	return atomic.CompareAndSwapUint32(a, o, n)
}

func (x *Uint64) Load() uint64                    { p(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { p(); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64             { p(); return x.v.Add(d) }
func (x *Uint64) Swap(v uint64) uint64            { p(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { p(); return x.v.CompareAndSwap(o, n) }
func LoadUint64(a *uint64) uint64                 { p(); return atomic.LoadUint64(a) }
func StoreUint64(a *uint64, v uint64)             { p(); atomic.StoreUint64(a, v) }
func AddUint64(a *uint64, d uint64) uint64        { p(); return atomic.AddUint64(a, d) }
func SwapUint64(a *uint64, v uint64) uint64       { p(); return atomic.SwapUint64(a, v) }
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	p()
	return atomic.CompareAndSwapUint64(a, o, n)
}

func (x *Bool) Load() bool                    { p(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { p(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { p(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { p(); return x.v.CompareAndSwap(o, n) }

func (x *Value) Load() any                    { p(); return x.v.Load() }
func (x *Value) Store(v any)                  { p(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { p(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { p(); return x.v.CompareAndSwap(o, n) }

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { p(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { p(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { p(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { p(); return x.v.CompareAndSwap(o, n) }

// LoadPointer is atomic.LoadPointer.
func LoadPointer(a *unsafe.Pointer) unsafe.Pointer { p(); return atomic.LoadPointer(a) }

// StorePointer is atomic.StorePointer.
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { p(); atomic.StorePointer(a, v) }
