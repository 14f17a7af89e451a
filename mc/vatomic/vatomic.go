// Package vatomic replaces package sync/atomic.
package vatomic

import (
	"unsafe"

	"verif.local/mc/vrt"
)

type ints interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func add[V ints](p *V, d V) V { vrt.Point(); *p += d; return *p }
func load[V any](p *V) V      { vrt.Point(); return *p }
func store[V any](p *V, v V)  { vrt.Point(); *p = v }
func swap[V any](p *V, v V) V { vrt.Point(); o := *p; *p = v; return o }
func cas[V comparable](p *V, o, n V) bool {
	vrt.Point()
	if *p == o {
		*p = n
		return true
	}
	return false
}

func AddInt32(p *int32, d int32) int32                                  { return add(p, d) }
func AddInt64(p *int64, d int64) int64                                  { return add(p, d) }
func AddUint32(p *uint32, d uint32) uint32                              { return add(p, d) }
func AddUint64(p *uint64, d uint64) uint64                              { return add(p, d) }
func AddUintptr(p *uintptr, d uintptr) uintptr                          { return add(p, d) }
func LoadInt32(p *int32) int32                                          { return load(p) }
func LoadInt64(p *int64) int64                                          { return load(p) }
func LoadUint32(p *uint32) uint32                                       { return load(p) }
func LoadUint64(p *uint64) uint64                                       { return load(p) }
func LoadUintptr(p *uintptr) uintptr                                    { return load(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer                      { return load(p) }
func StoreInt32(p *int32, v int32)                                      { store(p, v) }
func StoreInt64(p *int64, v int64)                                      { store(p, v) }
func StoreUint32(p *uint32, v uint32)                                   { store(p, v) }
func StoreUint64(p *uint64, v uint64)                                   { store(p, v) }
func StoreUintptr(p *uintptr, v uintptr)                                { store(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer)                  { store(p, v) }
func SwapInt32(p *int32, v int32) int32                                 { return swap(p, v) }
func SwapInt64(p *int64, v int64) int64                                 { return swap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32                             { return swap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64                             { return swap(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool                     { return cas(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool                     { return cas(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool                  { return cas(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool                  { return cas(p, o, n) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool { return cas(p, o, n) }

type num[V ints] struct{ v V }

func (x *num[V]) Load() V                    { return load(&x.v) }
func (x *num[V]) Store(v V)                  { store(&x.v, v) }
func (x *num[V]) Swap(v V) V                 { return swap(&x.v, v) }
func (x *num[V]) Add(d V) V                  { return add(&x.v, d) }
func (x *num[V]) CompareAndSwap(o, n V) bool { return cas(&x.v, o, n) }
func (x *num[V]) And(m V) V                  { vrt.Point(); o := x.v; x.v &= m; return o }
func (x *num[V]) Or(m V) V                   { vrt.Point(); o := x.v; x.v |= m; return o }

type Int32 struct{ num[int32] }
type Int64 struct{ num[int64] }
type Uint32 struct{ num[uint32] }
type Uint64 struct{ num[uint64] }
type Uintptr struct{ num[uintptr] }

type Bool struct{ v bool }

func (x *Bool) Load() bool                    { return load(&x.v) }
func (x *Bool) Store(v bool)                  { store(&x.v, v) }
func (x *Bool) Swap(v bool) bool              { return swap(&x.v, v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { return cas(&x.v, o, n) }

type Pointer[V any] struct{ v *V }

func (x *Pointer[V]) Load() *V                    { return load(&x.v) }
func (x *Pointer[V]) Store(v *V)                  { store(&x.v, v) }
func (x *Pointer[V]) Swap(v *V) *V                { return swap(&x.v, v) }
func (x *Pointer[V]) CompareAndSwap(o, n *V) bool { return cas(&x.v, o, n) }

type Value struct{ v any }

func (x *Value) Load() any { return load(&x.v) }
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	store(&x.v, v)
}
func (x *Value) Swap(v any) any               { return swap(&x.v, v) }
func (x *Value) CompareAndSwap(o, n any) bool { return cas(&x.v, o, n) }
