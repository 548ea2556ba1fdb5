package simatomic

import (
	"sync/atomic"
	"unsafe"
)

func AndInt32(p *int32, m int32) int32 {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.AndInt32(p, m)
}

func (x *Int32) And(m int32) int32 {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.And(m)
}

func OrInt32(p *int32, m int32) int32 {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.OrInt32(p, m)
}

func (x *Int32) Or(m int32) int32 {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.Or(m)
}

func AndInt64(p *int64, m int64) int64 {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.AndInt64(p, m)
}

func (x *Int64) And(m int64) int64 {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.And(m)
}

func OrInt64(p *int64, m int64) int64 {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.OrInt64(p, m)
}

func (x *Int64) Or(m int64) int64 {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.Or(m)
}

func AndUint32(p *uint32, m uint32) uint32 {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.AndUint32(p, m)
}

func (x *Uint32) And(m uint32) uint32 {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.And(m)
}

func OrUint32(p *uint32, m uint32) uint32 {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.OrUint32(p, m)
}

func (x *Uint32) Or(m uint32) uint32 {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.Or(m)
}

func AndUint64(p *uint64, m uint64) uint64 {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.AndUint64(p, m)
}

func (x *Uint64) And(m uint64) uint64 {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.And(m)
}

func OrUint64(p *uint64, m uint64) uint64 {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.OrUint64(p, m)
}

func (x *Uint64) Or(m uint64) uint64 {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.Or(m)
}

func AndUintptr(p *uintptr, m uintptr) uintptr {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.AndUintptr(p, m)
}

func (x *Uintptr) And(m uintptr) uintptr {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.And(m)
}

func OrUintptr(p *uintptr, m uintptr) uintptr {
	on(unsafe.Pointer(p))
	defer off()
	return atomic.OrUintptr(p, m)
}

func (x *Uintptr) Or(m uintptr) uintptr {
	on(unsafe.Pointer(x))
	defer off()
	return x.v.Or(m)
}
