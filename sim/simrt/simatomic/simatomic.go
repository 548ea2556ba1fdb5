// Package simatomic stands in for sync/atomic in instrumented code: the real
// operation, as a scheduling point, known to the happens-before relation.
package simatomic

import (
	"sync/atomic"
	"unsafe"

	"vsim.local/simrt"
)

const slots = 4096

var table [slots]struct {
	p  unsafe.Pointer
	vc simrt.VC
}

//go:norace
func of(p unsafe.Pointer) *simrt.VC {
	h := uintptr(p) >> 2 * 0x9e3779b1
	for i := uintptr(0); i < 64; i++ {
		e := &table[(h+i)%slots]
		if e.p == nil {
			e.p = p
		}
		if e.p == p {
			return &e.vc
		}
	}
	return &table[0].vc // shared with another address: orders more than there is
}

func on(p unsafe.Pointer) {
	simrt.SyncPoint()
	v := of(p)
	v.Acquire()
	v.Release()
}

func off() { simrt.WakeAll() }

func AddInt32(p *int32, d int32) int32 {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.AddInt32(p, d)
}

func LoadInt32(p *int32) int32 {
	on(unsafe.Pointer(p))
	return atomic.LoadInt32(p)
}

func StoreInt32(p *int32, v int32) {
	on(unsafe.Pointer(p))
	defer off()
	atomic.StoreInt32(p, v)
}

func SwapInt32(p *int32, v int32) int32 {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.SwapInt32(p, v)
}

func CompareAndSwapInt32(p *int32, o, v int32) bool {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.CompareAndSwapInt32(p, o, v)
}

func AddInt64(p *int64, d int64) int64 {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.AddInt64(p, d)
}

func LoadInt64(p *int64) int64 {
	on(unsafe.Pointer(p))
	return atomic.LoadInt64(p)
}

func StoreInt64(p *int64, v int64) {
	on(unsafe.Pointer(p))
	defer off()
	atomic.StoreInt64(p, v)
}

func SwapInt64(p *int64, v int64) int64 {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.SwapInt64(p, v)
}

func CompareAndSwapInt64(p *int64, o, v int64) bool {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.CompareAndSwapInt64(p, o, v)
}

func AddUint32(p *uint32, d uint32) uint32 {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.AddUint32(p, d)
}

func LoadUint32(p *uint32) uint32 {
	on(unsafe.Pointer(p))
	return atomic.LoadUint32(p)
}

func StoreUint32(p *uint32, v uint32) {
	on(unsafe.Pointer(p))
	defer off()
	atomic.StoreUint32(p, v)
}

func SwapUint32(p *uint32, v uint32) uint32 {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.SwapUint32(p, v)
}

func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.CompareAndSwapUint32(p, o, v)
}

func AddUint64(p *uint64, d uint64) uint64 {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.AddUint64(p, d)
}

func LoadUint64(p *uint64) uint64 {
	on(unsafe.Pointer(p))
	return atomic.LoadUint64(p)
}

func StoreUint64(p *uint64, v uint64) {
	on(unsafe.Pointer(p))
	defer off()
	atomic.StoreUint64(p, v)
}

func SwapUint64(p *uint64, v uint64) uint64 {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.SwapUint64(p, v)
}

func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.CompareAndSwapUint64(p, o, v)
}

func AddUintptr(p *uintptr, d uintptr) uintptr {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.AddUintptr(p, d)
}

func LoadUintptr(p *uintptr) uintptr {
	on(unsafe.Pointer(p))
	return atomic.LoadUintptr(p)
}

func StoreUintptr(p *uintptr, v uintptr) {
	on(unsafe.Pointer(p))
	defer off()
	atomic.StoreUintptr(p, v)
}

func SwapUintptr(p *uintptr, v uintptr) uintptr {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.SwapUintptr(p, v)
}

func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.CompareAndSwapUintptr(p, o, v)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	on(unsafe.Pointer(p))
	return atomic.LoadPointer(p)
}

func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	on(unsafe.Pointer(p))
	defer off()
	atomic.StorePointer(p, v)
}

func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.SwapPointer(p, v)
}

func CompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.CompareAndSwapPointer(p, o, v)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Add(d int32) int32 {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.Add(d)
}

func (x *Int32) Load() int32 {
	on(unsafe.Pointer(x))
	return x.v.Load()
}

func (x *Int32) Store(v int32) {
	on(unsafe.Pointer(x))
	defer off()
	x.v.Store(v)
}

func (x *Int32) Swap(v int32) int32 {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.Swap(v)
}

func (x *Int32) CompareAndSwap(o, v int32) bool {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.CompareAndSwap(o, v)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Add(d int64) int64 {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.Add(d)
}

func (x *Int64) Load() int64 {
	on(unsafe.Pointer(x))
	return x.v.Load()
}

func (x *Int64) Store(v int64) {
	on(unsafe.Pointer(x))
	defer off()
	x.v.Store(v)
}

func (x *Int64) Swap(v int64) int64 {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.Swap(v)
}

func (x *Int64) CompareAndSwap(o, v int64) bool {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.CompareAndSwap(o, v)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Add(d uint32) uint32 {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.Add(d)
}

func (x *Uint32) Load() uint32 {
	on(unsafe.Pointer(x))
	return x.v.Load()
}

func (x *Uint32) Store(v uint32) {
	on(unsafe.Pointer(x))
	defer off()
	x.v.Store(v)
}

func (x *Uint32) Swap(v uint32) uint32 {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.Swap(v)
}

func (x *Uint32) CompareAndSwap(o, v uint32) bool {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.CompareAndSwap(o, v)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Add(d uint64) uint64 {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.Add(d)
}

func (x *Uint64) Load() uint64 {
	on(unsafe.Pointer(x))
	return x.v.Load()
}

func (x *Uint64) Store(v uint64) {
	on(unsafe.Pointer(x))
	defer off()
	x.v.Store(v)
}

func (x *Uint64) Swap(v uint64) uint64 {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.Swap(v)
}

func (x *Uint64) CompareAndSwap(o, v uint64) bool {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.CompareAndSwap(o, v)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Add(d uintptr) uintptr {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.Add(d)
}

func (x *Uintptr) Load() uintptr {
	on(unsafe.Pointer(x))
	return x.v.Load()
}

func (x *Uintptr) Store(v uintptr) {
	on(unsafe.Pointer(x))
	defer off()
	x.v.Store(v)
}

func (x *Uintptr) Swap(v uintptr) uintptr {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.Swap(v)
}

func (x *Uintptr) CompareAndSwap(o, v uintptr) bool {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.CompareAndSwap(o, v)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool {
	on(unsafe.Pointer(x))
	return x.v.Load()
}

func (x *Bool) Store(v bool) {
	on(unsafe.Pointer(x))
	defer off()
	x.v.Store(v)
}

func (x *Bool) Swap(v bool) bool {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.Swap(v)
}

func (x *Bool) CompareAndSwap(o, v bool) bool {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.CompareAndSwap(o, v)
}

type Value struct{ v atomic.Value }

func (x *Value) Load() any {
	on(unsafe.Pointer(x))
	return x.v.Load()
}

func (x *Value) Store(v any) {
	on(unsafe.Pointer(x))
	defer off()
	x.v.Store(v)
}

func (x *Value) Swap(v any) any {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.Swap(v)
}

func (x *Value) CompareAndSwap(o, v any) bool {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.CompareAndSwap(o, v)
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T {
	on(unsafe.Pointer(x))
	return x.v.Load()
}

func (x *Pointer[T]) Store(v *T) {
	on(unsafe.Pointer(x))
	defer off()
	x.v.Store(v)
}

func (x *Pointer[T]) Swap(v *T) *T {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.Swap(v)
}

func (x *Pointer[T]) CompareAndSwap(o, v *T) bool {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.CompareAndSwap(o, v)
}
