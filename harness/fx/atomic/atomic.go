// Package atomic is sync/atomic with pauses around every operation.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"vp/fx"
)

func LoadInt32(p *int32) int32 {
	fx.Pause()
	r := atomic.LoadInt32(p)
	fx.Pause()
	return r
}

func StoreInt32(p *int32, v int32) {
	fx.Pause()
	atomic.StoreInt32(p, v)
	fx.Pause()
}

func SwapInt32(p *int32, v int32) int32 {
	fx.Pause()
	r := atomic.SwapInt32(p, v)
	fx.Pause()
	return r
}

func CompareAndSwapInt32(p *int32, a, b int32) bool {
	fx.Pause()
	r := atomic.CompareAndSwapInt32(p, a, b)
	fx.Pause()
	return r
}

func AddInt32(p *int32, d int32) int32 {
	fx.Pause()
	r := atomic.AddInt32(p, d)
	fx.Pause()
	return r
}

func AndInt32(p *int32, m int32) int32 {
	fx.Pause()
	r := atomic.AndInt32(p, m)
	fx.Pause()
	return r
}

func OrInt32(p *int32, m int32) int32 {
	fx.Pause()
	r := atomic.OrInt32(p, m)
	fx.Pause()
	return r
}

func LoadInt64(p *int64) int64 {
	fx.Pause()
	r := atomic.LoadInt64(p)
	fx.Pause()
	return r
}

func StoreInt64(p *int64, v int64) {
	fx.Pause()
	atomic.StoreInt64(p, v)
	fx.Pause()
}

func SwapInt64(p *int64, v int64) int64 {
	fx.Pause()
	r := atomic.SwapInt64(p, v)
	fx.Pause()
	return r
}

func CompareAndSwapInt64(p *int64, a, b int64) bool {
	fx.Pause()
	r := atomic.CompareAndSwapInt64(p, a, b)
	fx.Pause()
	return r
}

func AddInt64(p *int64, d int64) int64 {
	fx.Pause()
	r := atomic.AddInt64(p, d)
	fx.Pause()
	return r
}

func AndInt64(p *int64, m int64) int64 {
	fx.Pause()
	r := atomic.AndInt64(p, m)
	fx.Pause()
	return r
}

func OrInt64(p *int64, m int64) int64 {
	fx.Pause()
	r := atomic.OrInt64(p, m)
	fx.Pause()
	return r
}

func LoadUint32(p *uint32) uint32 {
	fx.Pause()
	r := atomic.LoadUint32(p)
	fx.Pause()
	return r
}

func StoreUint32(p *uint32, v uint32) {
	fx.Pause()
	atomic.StoreUint32(p, v)
	fx.Pause()
}

func SwapUint32(p *uint32, v uint32) uint32 {
	fx.Pause()
	r := atomic.SwapUint32(p, v)
	fx.Pause()
	return r
}

func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	fx.Pause()
	r := atomic.CompareAndSwapUint32(p, a, b)
	fx.Pause()
	return r
}

func AddUint32(p *uint32, d uint32) uint32 {
	fx.Pause()
	r := atomic.AddUint32(p, d)
	fx.Pause()
	return r
}

func AndUint32(p *uint32, m uint32) uint32 {
	fx.Pause()
	r := atomic.AndUint32(p, m)
	fx.Pause()
	return r
}

func OrUint32(p *uint32, m uint32) uint32 {
	fx.Pause()
	r := atomic.OrUint32(p, m)
	fx.Pause()
	return r
}

func LoadUint64(p *uint64) uint64 {
	fx.Pause()
	r := atomic.LoadUint64(p)
	fx.Pause()
	return r
}

func StoreUint64(p *uint64, v uint64) {
	fx.Pause()
	atomic.StoreUint64(p, v)
	fx.Pause()
}

func SwapUint64(p *uint64, v uint64) uint64 {
	fx.Pause()
	r := atomic.SwapUint64(p, v)
	fx.Pause()
	return r
}

func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	fx.Pause()
	r := atomic.CompareAndSwapUint64(p, a, b)
	fx.Pause()
	return r
}

func AddUint64(p *uint64, d uint64) uint64 {
	fx.Pause()
	r := atomic.AddUint64(p, d)
	fx.Pause()
	return r
}

func AndUint64(p *uint64, m uint64) uint64 {
	fx.Pause()
	r := atomic.AndUint64(p, m)
	fx.Pause()
	return r
}

func OrUint64(p *uint64, m uint64) uint64 {
	fx.Pause()
	r := atomic.OrUint64(p, m)
	fx.Pause()
	return r
}

func LoadUintptr(p *uintptr) uintptr {
	fx.Pause()
	r := atomic.LoadUintptr(p)
	fx.Pause()
	return r
}

func StoreUintptr(p *uintptr, v uintptr) {
	fx.Pause()
	atomic.StoreUintptr(p, v)
	fx.Pause()
}

func SwapUintptr(p *uintptr, v uintptr) uintptr {
	fx.Pause()
	r := atomic.SwapUintptr(p, v)
	fx.Pause()
	return r
}

func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	fx.Pause()
	r := atomic.CompareAndSwapUintptr(p, a, b)
	fx.Pause()
	return r
}

func AddUintptr(p *uintptr, d uintptr) uintptr {
	fx.Pause()
	r := atomic.AddUintptr(p, d)
	fx.Pause()
	return r
}

func AndUintptr(p *uintptr, m uintptr) uintptr {
	fx.Pause()
	r := atomic.AndUintptr(p, m)
	fx.Pause()
	return r
}

func OrUintptr(p *uintptr, m uintptr) uintptr {
	fx.Pause()
	r := atomic.OrUintptr(p, m)
	fx.Pause()
	return r
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	fx.Pause()
	r := atomic.LoadPointer(p)
	fx.Pause()
	return r
}

func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	fx.Pause()
	atomic.StorePointer(p, v)
	fx.Pause()
}

func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	fx.Pause()
	r := atomic.SwapPointer(p, v)
	fx.Pause()
	return r
}

func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	fx.Pause()
	r := atomic.CompareAndSwapPointer(p, a, b)
	fx.Pause()
	return r
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32 {
	fx.Pause()
	r := x.v.Load()
	fx.Pause()
	return r
}

func (x *Int32) Store(v int32) {
	fx.Pause()
	x.v.Store(v)
	fx.Pause()
}

func (x *Int32) Swap(v int32) int32 {
	fx.Pause()
	r := x.v.Swap(v)
	fx.Pause()
	return r
}

func (x *Int32) CompareAndSwap(a, b int32) bool {
	fx.Pause()
	r := x.v.CompareAndSwap(a, b)
	fx.Pause()
	return r
}

func (x *Int32) Add(d int32) int32 {
	fx.Pause()
	r := x.v.Add(d)
	fx.Pause()
	return r
}

func (x *Int32) And(m int32) int32 {
	fx.Pause()
	r := x.v.And(m)
	fx.Pause()
	return r
}

func (x *Int32) Or(m int32) int32 {
	fx.Pause()
	r := x.v.Or(m)
	fx.Pause()
	return r
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64 {
	fx.Pause()
	r := x.v.Load()
	fx.Pause()
	return r
}

func (x *Int64) Store(v int64) {
	fx.Pause()
	x.v.Store(v)
	fx.Pause()
}

func (x *Int64) Swap(v int64) int64 {
	fx.Pause()
	r := x.v.Swap(v)
	fx.Pause()
	return r
}

func (x *Int64) CompareAndSwap(a, b int64) bool {
	fx.Pause()
	r := x.v.CompareAndSwap(a, b)
	fx.Pause()
	return r
}

func (x *Int64) Add(d int64) int64 {
	fx.Pause()
	r := x.v.Add(d)
	fx.Pause()
	return r
}

func (x *Int64) And(m int64) int64 {
	fx.Pause()
	r := x.v.And(m)
	fx.Pause()
	return r
}

func (x *Int64) Or(m int64) int64 {
	fx.Pause()
	r := x.v.Or(m)
	fx.Pause()
	return r
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32 {
	fx.Pause()
	r := x.v.Load()
	fx.Pause()
	return r
}

func (x *Uint32) Store(v uint32) {
	fx.Pause()
	x.v.Store(v)
	fx.Pause()
}

func (x *Uint32) Swap(v uint32) uint32 {
	fx.Pause()
	r := x.v.Swap(v)
	fx.Pause()
	return r
}

func (x *Uint32) CompareAndSwap(a, b uint32) bool {
	fx.Pause()
	r := x.v.CompareAndSwap(a, b)
	fx.Pause()
	return r
}

func (x *Uint32) Add(d uint32) uint32 {
	fx.Pause()
	r := x.v.Add(d)
	fx.Pause()
	return r
}

func (x *Uint32) And(m uint32) uint32 {
	fx.Pause()
	r := x.v.And(m)
	fx.Pause()
	return r
}

func (x *Uint32) Or(m uint32) uint32 {
	fx.Pause()
	r := x.v.Or(m)
	fx.Pause()
	return r
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64 {
	fx.Pause()
	r := x.v.Load()
	fx.Pause()
	return r
}

func (x *Uint64) Store(v uint64) {
	fx.Pause()
	x.v.Store(v)
	fx.Pause()
}

func (x *Uint64) Swap(v uint64) uint64 {
	fx.Pause()
	r := x.v.Swap(v)
	fx.Pause()
	return r
}

func (x *Uint64) CompareAndSwap(a, b uint64) bool {
	fx.Pause()
	r := x.v.CompareAndSwap(a, b)
	fx.Pause()
	return r
}

func (x *Uint64) Add(d uint64) uint64 {
	fx.Pause()
	r := x.v.Add(d)
	fx.Pause()
	return r
}

func (x *Uint64) And(m uint64) uint64 {
	fx.Pause()
	r := x.v.And(m)
	fx.Pause()
	return r
}

func (x *Uint64) Or(m uint64) uint64 {
	fx.Pause()
	r := x.v.Or(m)
	fx.Pause()
	return r
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr {
	fx.Pause()
	r := x.v.Load()
	fx.Pause()
	return r
}

func (x *Uintptr) Store(v uintptr) {
	fx.Pause()
	x.v.Store(v)
	fx.Pause()
}

func (x *Uintptr) Swap(v uintptr) uintptr {
	fx.Pause()
	r := x.v.Swap(v)
	fx.Pause()
	return r
}

func (x *Uintptr) CompareAndSwap(a, b uintptr) bool {
	fx.Pause()
	r := x.v.CompareAndSwap(a, b)
	fx.Pause()
	return r
}

func (x *Uintptr) Add(d uintptr) uintptr {
	fx.Pause()
	r := x.v.Add(d)
	fx.Pause()
	return r
}

func (x *Uintptr) And(m uintptr) uintptr {
	fx.Pause()
	r := x.v.And(m)
	fx.Pause()
	return r
}

func (x *Uintptr) Or(m uintptr) uintptr {
	fx.Pause()
	r := x.v.Or(m)
	fx.Pause()
	return r
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool {
	fx.Pause()
	r := x.v.Load()
	fx.Pause()
	return r
}

func (x *Bool) Store(v bool) {
	fx.Pause()
	x.v.Store(v)
	fx.Pause()
}

func (x *Bool) Swap(v bool) bool {
	fx.Pause()
	r := x.v.Swap(v)
	fx.Pause()
	return r
}

func (x *Bool) CompareAndSwap(a, b bool) bool {
	fx.Pause()
	r := x.v.CompareAndSwap(a, b)
	fx.Pause()
	return r
}

type Value struct{ v atomic.Value }

func (x *Value) Load() any {
	fx.Pause()
	r := x.v.Load()
	fx.Pause()
	return r
}

func (x *Value) Store(v any) {
	fx.Pause()
	x.v.Store(v)
	fx.Pause()
}

func (x *Value) Swap(v any) any {
	fx.Pause()
	r := x.v.Swap(v)
	fx.Pause()
	return r
}

func (x *Value) CompareAndSwap(a, b any) bool {
	fx.Pause()
	r := x.v.CompareAndSwap(a, b)
	fx.Pause()
	return r
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T {
	fx.Pause()
	r := x.v.Load()
	fx.Pause()
	return r
}

func (x *Pointer[T]) Store(v *T) {
	fx.Pause()
	x.v.Store(v)
	fx.Pause()
}

func (x *Pointer[T]) Swap(v *T) *T {
	fx.Pause()
	r := x.v.Swap(v)
	fx.Pause()
	return r
}

func (x *Pointer[T]) CompareAndSwap(a, b *T) bool {
	fx.Pause()
	r := x.v.CompareAndSwap(a, b)
	fx.Pause()
	return r
}
