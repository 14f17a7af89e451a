// Package vcontext replaces package context.
package vcontext

import (
	"context"
	"errors"
	"time"

	"verif.local/mc/vrt"
	"verif.local/mc/vtime"
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

// Context replaces context.Context.
type Context interface {
	Deadline() (time.Time, bool)
	Done() *vrt.Chan[struct{}]
	Err() error
	Value(key any) any
}

type CancelFunc func()
type CancelCauseFunc func(error)

type bg struct{}

func (bg) Deadline() (time.Time, bool) { return time.Time{}, false }
func (bg) Done() *vrt.Chan[struct{}]   { return nil }
func (bg) Err() error                  { return nil }
func (bg) Value(any) any               { return nil }

func Background() Context { return bg{} }
func TODO() Context       { return bg{} }

type cctx struct {
	parent   Context
	done     *vrt.Chan[struct{}]
	err      error
	cause    error
	deadline time.Time
	has      bool
	children []*cctx
	timer    *vrt.Timer
}

func (c *cctx) Deadline() (time.Time, bool) {
	if c.has {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cctx) Done() *vrt.Chan[struct{}] { return c.done }
func (c *cctx) Err() error                { vrt.Point(); return c.err }
func (c *cctx) Value(k any) any           { return c.parent.Value(k) }

func (c *cctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err, c.cause = err, cause
	vrt.DelTimer(c.timer)
	c.done.CloseSched()
	for _, ch := range c.children {
		ch.cancel(err, cause)
	}
}

type vctx struct {
	Context
	k, v any
}

func (c *vctx) Value(k any) any {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

func WithValue(p Context, k, v any) Context { return &vctx{p, k, v} }

func find(p Context) *cctx {
	for {
		switch x := p.(type) {
		case *cctx:
			return x
		case *vctx:
			p = x.Context
		default:
			return nil
		}
	}
}

func mk(p Context) *cctx {
	c := &cctx{parent: p, done: vrt.MakeChan[struct{}](0)}
	if par := find(p); par != nil {
		if par.err != nil {
			c.cancel(par.err, par.cause)
		} else {
			par.children = append(par.children, c)
		}
	} else if d := p.Done(); d != nil {
		// a foreign context (the code under test wraps one): follow it
		vrt.Go(func() {
			switch vrt.Select(false, vrt.NewRecv(d), vrt.NewRecv(c.done)) {
			case 0:
				c.cancel(p.Err(), p.Err())
			}
		})
	}
	return c
}

func WithCancel(p Context) (Context, CancelFunc) {
	c := mk(p)
	return c, func() { vrt.Point(); c.cancel(Canceled, Canceled) }
}

func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := mk(p)
	return c, func(e error) {
		vrt.Point()
		if e == nil {
			e = Canceled
		}
		c.cancel(Canceled, e)
	}
}

func WithDeadline(p Context, t time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(p, t, DeadlineExceeded)
}

func WithDeadlineCause(p Context, t time.Time, cause error) (Context, CancelFunc) {
	if cause == nil {
		cause = DeadlineExceeded
	}
	c := mk(p)
	if pd, ok := p.Deadline(); c.err == nil && (!ok || t.Before(pd)) {
		c.deadline, c.has = t, true
		c.timer = vrt.AddTimer(vtime.Until(t), func() { c.cancel(DeadlineExceeded, cause) })
	}
	return c, func() { vrt.Point(); c.cancel(Canceled, Canceled) }
}

func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, vtime.Now().Add(d))
}

func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(p, vtime.Now().Add(d), cause)
}

// AfterFunc calls f in its own thread once the context is done.
func AfterFunc(p Context, f func()) (stop func() bool) {
	if p.Done() == nil {
		return func() bool { return true }
	}
	off := vrt.MakeChan[struct{}](0)
	state := 0 // 1: stopped, 2: f was started
	vrt.Go(func() {
		if vrt.Select(false, vrt.NewRecv(p.Done()), vrt.NewRecv(off)) == 0 && state == 0 {
			state = 2
			f()
		}
	})
	return func() bool {
		vrt.Point()
		if state != 0 {
			return false
		}
		state = 1
		off.CloseSched()
		return true
	}
}

func Cause(c Context) error {
	if x := find(c); x != nil {
		return x.cause
	}
	return c.Err()
}

type woc struct{ Context }

func (woc) Deadline() (time.Time, bool) { return time.Time{}, false }
func (woc) Done() *vrt.Chan[struct{}]   { return nil }
func (woc) Err() error                  { return nil }

func WithoutCancel(p Context) Context { return woc{p} }

var _ = errors.New
