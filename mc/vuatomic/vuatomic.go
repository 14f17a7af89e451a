// Package vuatomic replaces go.uber.org/atomic.
package vuatomic

import (
	"math"
	"time"

	"verif.local/mc/vatomic"
	"verif.local/mc/vrt"
)

type ints interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

type num[V ints] struct{ v V }

func (x *num[V]) Load() V         { vrt.Point(); return x.v }
func (x *num[V]) Store(v V)       { vrt.Point(); x.v = v }
func (x *num[V]) Swap(v V) V      { vrt.Point(); o := x.v; x.v = v; return o }
func (x *num[V]) Add(d V) V       { vrt.Point(); x.v += d; return x.v }
func (x *num[V]) Sub(d V) V       { vrt.Point(); x.v -= d; return x.v }
func (x *num[V]) Inc() V          { return x.Add(1) }
func (x *num[V]) Dec() V          { return x.Sub(1) }
func (x *num[V]) CAS(o, n V) bool { return x.CompareAndSwap(o, n) }
func (x *num[V]) CompareAndSwap(o, n V) bool {
	vrt.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Int32 struct{ num[int32] }
type Int64 struct{ num[int64] }
type Uint32 struct{ num[uint32] }
type Uint64 struct{ num[uint64] }
type Uintptr struct{ num[uintptr] }

func NewInt32(v int32) *Int32       { return &Int32{num[int32]{v}} }
func NewInt64(v int64) *Int64       { return &Int64{num[int64]{v}} }
func NewUint32(v uint32) *Uint32    { return &Uint32{num[uint32]{v}} }
func NewUint64(v uint64) *Uint64    { return &Uint64{num[uint64]{v}} }
func NewUintptr(v uintptr) *Uintptr { return &Uintptr{num[uintptr]{v}} }

type Bool struct{ v bool }

func NewBool(v bool) *Bool         { return &Bool{v} }
func (x *Bool) Load() bool         { vrt.Point(); return x.v }
func (x *Bool) Store(v bool)       { vrt.Point(); x.v = v }
func (x *Bool) Swap(v bool) bool   { vrt.Point(); o := x.v; x.v = v; return o }
func (x *Bool) Toggle() bool       { vrt.Point(); o := x.v; x.v = !o; return o }
func (x *Bool) CAS(o, n bool) bool { return x.CompareAndSwap(o, n) }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	vrt.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type String struct{ v string }

func NewString(v string) *String       { return &String{v} }
func (x *String) Load() string         { vrt.Point(); return x.v }
func (x *String) Store(v string)       { vrt.Point(); x.v = v }
func (x *String) Swap(v string) string { vrt.Point(); o := x.v; x.v = v; return o }
func (x *String) CompareAndSwap(o, n string) bool {
	vrt.Point()
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func (x *String) String() string { return x.Load() }

type Error struct{ v error }

func NewError(v error) *Error       { return &Error{v} }
func (x *Error) Load() error        { vrt.Point(); return x.v }
func (x *Error) Store(v error)      { vrt.Point(); x.v = v }
func (x *Error) Swap(v error) error { vrt.Point(); o := x.v; x.v = v; return o }

type Duration struct{ num[int64] }

func NewDuration(v time.Duration) *Duration           { return &Duration{num[int64]{int64(v)}} }
func (x *Duration) Load() time.Duration               { return time.Duration(x.num.Load()) }
func (x *Duration) Store(v time.Duration)             { x.num.Store(int64(v)) }
func (x *Duration) Add(v time.Duration) time.Duration { return time.Duration(x.num.Add(int64(v))) }

type Time struct{ v time.Time }

func NewTime(v time.Time) *Time   { return &Time{v} }
func (x *Time) Load() time.Time   { vrt.Point(); return x.v }
func (x *Time) Store(v time.Time) { vrt.Point(); x.v = v }

type Float64 struct{ n num[uint64] }

func NewFloat64(v float64) *Float64 { return &Float64{num[uint64]{math.Float64bits(v)}} }
func (x *Float64) Load() float64    { return math.Float64frombits(x.n.Load()) }
func (x *Float64) Store(v float64)  { x.n.Store(math.Float64bits(v)) }

type Value = vatomic.Value

type Pointer[V any] struct{ vatomic.Pointer[V] }

func NewPointer[V any](v *V) *Pointer[V] { p := &Pointer[V]{}; p.Store(v); return p }
