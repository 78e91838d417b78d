// Package atomic replaces sync/atomic in the code under test. (generated by hand-written script; see DESIGN.md)
package atomic

import (
	"unsafe"

	"verifmc/vrt"
)

func ab() { vrt.ABefore() }

func LoadInt32(addr *int32) (val int32) {
	ab()
	val = *addr
	vrt.ALoad(unsafe.Pointer(addr), true, uint64(val))
	return
}

func StoreInt32(addr *int32, val int32) {
	ab()
	*addr = val
	vrt.AStore(unsafe.Pointer(addr), true, uint64(val))
}

func SwapInt32(addr *int32, new int32) (old int32) {
	ab()
	old = *addr
	*addr = new
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(new), true)
	return
}

func AddInt32(addr *int32, delta int32) (new int32) {
	ab()
	old := *addr
	new = old + delta
	*addr = new
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(new), true)
	return
}

func AndInt32(addr *int32, mask int32) (old int32) {
	ab()
	old = *addr
	*addr = old & mask
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(old&mask), true)
	return
}

func OrInt32(addr *int32, mask int32) (old int32) {
	ab()
	old = *addr
	*addr = old | mask
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(old|mask), true)
	return
}

func CompareAndSwapInt32(addr *int32, old, new int32) bool {
	ab()
	cur := *addr
	ok := cur == old
	if ok {
		*addr = new
	}
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(cur), uint64(new), ok)
	return ok
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                        { return LoadInt32(&x.v) }
func (x *Int32) Store(val int32)                    { StoreInt32(&x.v, val) }
func (x *Int32) Swap(new int32) int32               { return SwapInt32(&x.v, new) }
func (x *Int32) CompareAndSwap(old, new int32) bool { return CompareAndSwapInt32(&x.v, old, new) }
func (x *Int32) Add(delta int32) int32              { return AddInt32(&x.v, delta) }
func (x *Int32) And(mask int32) int32               { return AndInt32(&x.v, mask) }
func (x *Int32) Or(mask int32) int32                { return OrInt32(&x.v, mask) }

func LoadInt64(addr *int64) (val int64) {
	ab()
	val = *addr
	vrt.ALoad(unsafe.Pointer(addr), true, uint64(val))
	return
}

func StoreInt64(addr *int64, val int64) {
	ab()
	*addr = val
	vrt.AStore(unsafe.Pointer(addr), true, uint64(val))
}

func SwapInt64(addr *int64, new int64) (old int64) {
	ab()
	old = *addr
	*addr = new
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(new), true)
	return
}

func AddInt64(addr *int64, delta int64) (new int64) {
	ab()
	old := *addr
	new = old + delta
	*addr = new
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(new), true)
	return
}

func AndInt64(addr *int64, mask int64) (old int64) {
	ab()
	old = *addr
	*addr = old & mask
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(old&mask), true)
	return
}

func OrInt64(addr *int64, mask int64) (old int64) {
	ab()
	old = *addr
	*addr = old | mask
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(old|mask), true)
	return
}

func CompareAndSwapInt64(addr *int64, old, new int64) bool {
	ab()
	cur := *addr
	ok := cur == old
	if ok {
		*addr = new
	}
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(cur), uint64(new), ok)
	return ok
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                        { return LoadInt64(&x.v) }
func (x *Int64) Store(val int64)                    { StoreInt64(&x.v, val) }
func (x *Int64) Swap(new int64) int64               { return SwapInt64(&x.v, new) }
func (x *Int64) CompareAndSwap(old, new int64) bool { return CompareAndSwapInt64(&x.v, old, new) }
func (x *Int64) Add(delta int64) int64              { return AddInt64(&x.v, delta) }
func (x *Int64) And(mask int64) int64               { return AndInt64(&x.v, mask) }
func (x *Int64) Or(mask int64) int64                { return OrInt64(&x.v, mask) }

func LoadUint32(addr *uint32) (val uint32) {
	ab()
	val = *addr
	vrt.ALoad(unsafe.Pointer(addr), true, uint64(val))
	return
}

func StoreUint32(addr *uint32, val uint32) {
	ab()
	*addr = val
	vrt.AStore(unsafe.Pointer(addr), true, uint64(val))
}

func SwapUint32(addr *uint32, new uint32) (old uint32) {
	ab()
	old = *addr
	*addr = new
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(new), true)
	return
}

func AddUint32(addr *uint32, delta uint32) (new uint32) {
	ab()
	old := *addr
	new = old + delta
	*addr = new
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(new), true)
	return
}

func AndUint32(addr *uint32, mask uint32) (old uint32) {
	ab()
	old = *addr
	*addr = old & mask
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(old&mask), true)
	return
}

func OrUint32(addr *uint32, mask uint32) (old uint32) {
	ab()
	old = *addr
	*addr = old | mask
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(old|mask), true)
	return
}

func CompareAndSwapUint32(addr *uint32, old, new uint32) bool {
	ab()
	cur := *addr
	ok := cur == old
	if ok {
		*addr = new
	}
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(cur), uint64(new), ok)
	return ok
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                        { return LoadUint32(&x.v) }
func (x *Uint32) Store(val uint32)                    { StoreUint32(&x.v, val) }
func (x *Uint32) Swap(new uint32) uint32              { return SwapUint32(&x.v, new) }
func (x *Uint32) CompareAndSwap(old, new uint32) bool { return CompareAndSwapUint32(&x.v, old, new) }
func (x *Uint32) Add(delta uint32) uint32             { return AddUint32(&x.v, delta) }
func (x *Uint32) And(mask uint32) uint32              { return AndUint32(&x.v, mask) }
func (x *Uint32) Or(mask uint32) uint32               { return OrUint32(&x.v, mask) }

func LoadUint64(addr *uint64) (val uint64) {
	ab()
	val = *addr
	vrt.ALoad(unsafe.Pointer(addr), true, uint64(val))
	return
}

func StoreUint64(addr *uint64, val uint64) {
	ab()
	*addr = val
	vrt.AStore(unsafe.Pointer(addr), true, uint64(val))
}

func SwapUint64(addr *uint64, new uint64) (old uint64) {
	ab()
	old = *addr
	*addr = new
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(new), true)
	return
}

func AddUint64(addr *uint64, delta uint64) (new uint64) {
	ab()
	old := *addr
	new = old + delta
	*addr = new
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(new), true)
	return
}

func AndUint64(addr *uint64, mask uint64) (old uint64) {
	ab()
	old = *addr
	*addr = old & mask
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(old&mask), true)
	return
}

func OrUint64(addr *uint64, mask uint64) (old uint64) {
	ab()
	old = *addr
	*addr = old | mask
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(old|mask), true)
	return
}

func CompareAndSwapUint64(addr *uint64, old, new uint64) bool {
	ab()
	cur := *addr
	ok := cur == old
	if ok {
		*addr = new
	}
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(cur), uint64(new), ok)
	return ok
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                        { return LoadUint64(&x.v) }
func (x *Uint64) Store(val uint64)                    { StoreUint64(&x.v, val) }
func (x *Uint64) Swap(new uint64) uint64              { return SwapUint64(&x.v, new) }
func (x *Uint64) CompareAndSwap(old, new uint64) bool { return CompareAndSwapUint64(&x.v, old, new) }
func (x *Uint64) Add(delta uint64) uint64             { return AddUint64(&x.v, delta) }
func (x *Uint64) And(mask uint64) uint64              { return AndUint64(&x.v, mask) }
func (x *Uint64) Or(mask uint64) uint64               { return OrUint64(&x.v, mask) }

func LoadUintptr(addr *uintptr) (val uintptr) {
	ab()
	val = *addr
	vrt.ALoad(unsafe.Pointer(addr), true, uint64(val))
	return
}

func StoreUintptr(addr *uintptr, val uintptr) {
	ab()
	*addr = val
	vrt.AStore(unsafe.Pointer(addr), true, uint64(val))
}

func SwapUintptr(addr *uintptr, new uintptr) (old uintptr) {
	ab()
	old = *addr
	*addr = new
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(new), true)
	return
}

func AddUintptr(addr *uintptr, delta uintptr) (new uintptr) {
	ab()
	old := *addr
	new = old + delta
	*addr = new
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(new), true)
	return
}

func AndUintptr(addr *uintptr, mask uintptr) (old uintptr) {
	ab()
	old = *addr
	*addr = old & mask
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(old&mask), true)
	return
}

func OrUintptr(addr *uintptr, mask uintptr) (old uintptr) {
	ab()
	old = *addr
	*addr = old | mask
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(old), uint64(old|mask), true)
	return
}

func CompareAndSwapUintptr(addr *uintptr, old, new uintptr) bool {
	ab()
	cur := *addr
	ok := cur == old
	if ok {
		*addr = new
	}
	vrt.ARMW(unsafe.Pointer(addr), true, uint64(cur), uint64(new), ok)
	return ok
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                        { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(val uintptr)                    { StoreUintptr(&x.v, val) }
func (x *Uintptr) Swap(new uintptr) uintptr             { return SwapUintptr(&x.v, new) }
func (x *Uintptr) CompareAndSwap(old, new uintptr) bool { return CompareAndSwapUintptr(&x.v, old, new) }
func (x *Uintptr) Add(delta uintptr) uintptr            { return AddUintptr(&x.v, delta) }
func (x *Uintptr) And(mask uintptr) uintptr             { return AndUintptr(&x.v, mask) }
func (x *Uintptr) Or(mask uintptr) uintptr              { return OrUintptr(&x.v, mask) }

func LoadPointer(addr *unsafe.Pointer) (val unsafe.Pointer) {
	ab()
	val = *addr
	vrt.ALoad(unsafe.Pointer(addr), false, 0)
	return
}

func StorePointer(addr *unsafe.Pointer, val unsafe.Pointer) {
	ab()
	*addr = val
	vrt.AStore(unsafe.Pointer(addr), false, 0)
}

func SwapPointer(addr *unsafe.Pointer, new unsafe.Pointer) (old unsafe.Pointer) {
	ab()
	old = *addr
	*addr = new
	vrt.ARMW(unsafe.Pointer(addr), false, 0, 0, true)
	return
}

func CompareAndSwapPointer(addr *unsafe.Pointer, old, new unsafe.Pointer) bool {
	ab()
	ok := *addr == old
	if ok {
		*addr = new
	}
	vrt.ARMW(unsafe.Pointer(addr), false, 0, 0, ok)
	return ok
}

type Pointer[T any] struct {
	_ [0]*T
	v unsafe.Pointer
}

func (x *Pointer[T]) Load() *T       { return (*T)(LoadPointer(&x.v)) }
func (x *Pointer[T]) Store(val *T)   { StorePointer(&x.v, unsafe.Pointer(val)) }
func (x *Pointer[T]) Swap(new *T) *T { return (*T)(SwapPointer(&x.v, unsafe.Pointer(new))) }
func (x *Pointer[T]) CompareAndSwap(old, new *T) bool {
	return CompareAndSwapPointer(&x.v, unsafe.Pointer(old), unsafe.Pointer(new))
}

type Bool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func (x *Bool) Load() bool         { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(val bool)     { StoreUint32(&x.v, b32(val)) }
func (x *Bool) Swap(new bool) bool { return SwapUint32(&x.v, b32(new)) != 0 }
func (x *Bool) CompareAndSwap(old, new bool) bool {
	return CompareAndSwapUint32(&x.v, b32(old), b32(new))
}

// Value holds a boxed interface value behind one atomic pointer.
type Value struct{ p unsafe.Pointer }

func (v *Value) Load() any {
	p := (*any)(LoadPointer(&v.p))
	if p == nil {
		return nil
	}
	return *p
}

func (v *Value) Store(val any) {
	if val == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	StorePointer(&v.p, unsafe.Pointer(&val))
}

func (v *Value) Swap(new any) any {
	p := (*any)(SwapPointer(&v.p, unsafe.Pointer(&new)))
	if p == nil {
		return nil
	}
	return *p
}

func (v *Value) CompareAndSwap(old, new any) bool {
	ab()
	p := (*any)(v.p)
	ok := (p == nil && old == nil) || (p != nil && *p == old)
	if ok {
		v.p = unsafe.Pointer(&new)
	}
	vrt.ARMW(unsafe.Pointer(&v.p), false, 0, 0, ok)
	return ok
}
