// Package vtime replaces the clock and timer parts of package time.
package vtime

import (
	"time"

	"verif.local/mc/vrt"
)

// Base is the virtual instant at which every execution starts.
var Base = time.Date(2026, 3, 4, 5, 6, 7, 0, time.UTC)

func Now() time.Time                  { return Base.Add(vrt.Now()) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { vrt.Sleep(d) }

// Timer replaces time.Timer.
type Timer struct {
	C *vrt.Chan[time.Time]
	t *vrt.Timer
	f func()
}

func (t *Timer) start(d time.Duration) {
	if t.f != nil {
		f := t.f
		t.t = vrt.AddTimer(d, func() { vrt.SpawnFromTimer("AfterFunc", f) })
		return
	}
	c := t.C
	t.t = vrt.AddTimer(d, func() { c.TrySendSched(Now()) })
}

func NewTimer(d time.Duration) *Timer {
	vrt.Point()
	t := &Timer{C: vrt.MakeChan[time.Time](1)}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	vrt.Point()
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d time.Duration) *vrt.Chan[time.Time] { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	vrt.Point()
	ok := vrt.DelTimer(t.t)
	if t.C != nil {
		if t.C.Pending() {
			ok = true
		}
		t.C.Drain()
	}
	return ok
}

func (t *Timer) Reset(d time.Duration) bool {
	ok := t.Stop()
	t.start(d)
	return ok
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C       *vrt.Chan[time.Time]
	t       *vrt.Timer
	d       time.Duration
	stopped bool
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	vrt.Point()
	t := &Ticker{C: vrt.MakeChan[time.Time](1), d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	t.t = vrt.AddTimer(t.d, func() {
		if t.stopped {
			return
		}
		t.C.TrySendSched(Now())
		t.arm()
	})
}

func (t *Ticker) Stop() {
	vrt.Point()
	t.stopped = true
	vrt.DelTimer(t.t)
	t.C.Drain()
}

func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	vrt.Point()
	vrt.DelTimer(t.t)
	t.C.Drain()
	t.d, t.stopped = d, false
	t.arm()
}

func Tick(d time.Duration) *vrt.Chan[time.Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
