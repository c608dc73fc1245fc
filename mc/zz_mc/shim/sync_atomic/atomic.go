package atomic

import "github.com/levilutz/basiccoin/zz_mc/mcrt"

type so struct{ s mcrt.SyncObj }

func (o *so) rmw()  { mcrt.Point(); o.s.Acquire(); o.s.Release() }
func (o *so) load() { mcrt.Point(); o.s.Acquire() }

type Bool struct {
	o so
	v bool
}

func (b *Bool) Load() bool   { b.o.load(); return b.v }
func (b *Bool) Store(v bool) { b.o.rmw(); b.v = v }
func (b *Bool) Swap(v bool) bool {
	b.o.rmw()
	x := b.v
	b.v = v
	return x
}
func (b *Bool) CompareAndSwap(old, v bool) bool {
	b.o.rmw()
	if b.v == old {
		b.v = v
		return true
	}
	return false
}

type num interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

type numT[T num] struct {
	o so
	v T
}

func (b *numT[T]) Load() T   { b.o.load(); return b.v }
func (b *numT[T]) Store(v T) { b.o.rmw(); b.v = v }
func (b *numT[T]) Add(d T) T { b.o.rmw(); b.v += d; return b.v }
func (b *numT[T]) And(d T) T { b.o.rmw(); x := b.v; b.v &= d; return x }
func (b *numT[T]) Or(d T) T  { b.o.rmw(); x := b.v; b.v |= d; return x }
func (b *numT[T]) Swap(v T) T {
	b.o.rmw()
	x := b.v
	b.v = v
	return x
}
func (b *numT[T]) CompareAndSwap(old, v T) bool {
	b.o.rmw()
	if b.v == old {
		b.v = v
		return true
	}
	return false
}

type Int32 struct{ numT[int32] }
type Int64 struct{ numT[int64] }
type Uint32 struct{ numT[uint32] }
type Uint64 struct{ numT[uint64] }
type Uintptr struct{ numT[uintptr] }

type Value struct {
	o so
	v any
}

func (b *Value) Load() any   { b.o.load(); return b.v }
func (b *Value) Store(v any) { b.o.rmw(); b.v = v }
func (b *Value) Swap(v any) any {
	b.o.rmw()
	x := b.v
	b.v = v
	return x
}
func (b *Value) CompareAndSwap(old, v any) bool {
	b.o.rmw()
	if b.v == old {
		b.v = v
		return true
	}
	return false
}

type Pointer[T any] struct {
	o so
	v *T
}

func (b *Pointer[T]) Load() *T   { b.o.load(); return b.v }
func (b *Pointer[T]) Store(v *T) { b.o.rmw(); b.v = v }
func (b *Pointer[T]) Swap(v *T) *T {
	b.o.rmw()
	x := b.v
	b.v = v
	return x
}
func (b *Pointer[T]) CompareAndSwap(old, v *T) bool {
	b.o.rmw()
	if b.v == old {
		b.v = v
		return true
	}
	return false
}

var gso so

func LoadInt32(p *int32) int32             { gso.load(); return *p }
func LoadInt64(p *int64) int64             { gso.load(); return *p }
func LoadUint32(p *uint32) uint32          { gso.load(); return *p }
func LoadUint64(p *uint64) uint64          { gso.load(); return *p }
func StoreInt32(p *int32, v int32)         { gso.rmw(); *p = v }
func StoreInt64(p *int64, v int64)         { gso.rmw(); *p = v }
func StoreUint32(p *uint32, v uint32)      { gso.rmw(); *p = v }
func StoreUint64(p *uint64, v uint64)      { gso.rmw(); *p = v }
func AddInt32(p *int32, d int32) int32     { gso.rmw(); *p += d; return *p }
func AddInt64(p *int64, d int64) int64     { gso.rmw(); *p += d; return *p }
func AddUint32(p *uint32, d uint32) uint32 { gso.rmw(); *p += d; return *p }
func AddUint64(p *uint64, d uint64) uint64 { gso.rmw(); *p += d; return *p }
func cas[T comparable](p *T, o, n T) bool {
	gso.rmw()
	if *p == o {
		*p = n
		return true
	}
	return false
}
func CompareAndSwapInt32(p *int32, o, n int32) bool    { return cas(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool    { return cas(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { return cas(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { return cas(p, o, n) }
func SwapInt32(p *int32, n int32) int32                { gso.rmw(); x := *p; *p = n; return x }
func SwapInt64(p *int64, n int64) int64                { gso.rmw(); x := *p; *p = n; return x }
func SwapUint32(p *uint32, n uint32) uint32            { gso.rmw(); x := *p; *p = n; return x }
func SwapUint64(p *uint64, n uint64) uint64            { gso.rmw(); x := *p; *p = n; return x }
