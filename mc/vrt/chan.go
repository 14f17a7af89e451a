package vrt

import "runtime"

type selector struct {
	t     *T
	fired bool
	idx   int
}

type waiter[V any] struct {
	sel    *selector
	idx    int
	val    V
	ok     bool
	closed bool
}

// Chan replaces the built-in channel type.
type Chan[V any] struct {
	buf    []V
	cap    int
	closed bool
	recvq  []*waiter[V]
	sendq  []*waiter[V]
}

// MakeChan replaces make(chan V, n).
func MakeChan[V any](n int) *Chan[V] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	return &Chan[V]{cap: n}
}

func popWaiter[V any](q *[]*waiter[V]) *waiter[V] {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.fired {
			return w
		}
	}
	return nil
}

func live[V any](q []*waiter[V]) bool {
	for _, w := range q {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

func (w *waiter[V]) fire() {
	w.sel.fired = true
	w.sel.idx = w.idx
	Ready(w.sel.t)
}

// Dying reports whether the execution is being torn down (or none is active).
func Dying() bool { return dying() }

func dying() bool { return rt == nil || rt.aborting }

func blockForever(what string) {
	for {
		Park(what)
		if dying() {
			runtime.Goexit()
		}
	}
}

// BlockForever replaces select {}.
func BlockForever() {
	Point()
	blockForever("select{}")
}

func (c *Chan[V]) trySend(v V) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w := popWaiter(&c.recvq); w != nil {
		w.val, w.ok = v, true
		w.fire()
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (c *Chan[V]) tryRecv() (v V, ok, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = append([]V(nil), c.buf[1:]...)
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			w.fire()
		}
		return v, true, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		w.fire()
		return w.val, true, true
	}
	if c.closed {
		return v, false, true
	}
	return v, false, false
}

// Send replaces c <- v.
func (c *Chan[V]) Send(v V) {
	Point()
	if c == nil {
		blockForever("send on nil channel")
	}
	if c.trySend(v) {
		return
	}
	if dying() {
		if rt == nil {
			panic("vrt: send would block outside an execution")
		}
		runtime.Goexit()
	}
	w := &waiter[V]{sel: &selector{t: rt.cur}, val: v}
	c.sendq = append(c.sendq, w)
	Park("chan send")
	if w.closed {
		panic("send on closed channel")
	}
}

// Recv2 replaces v, ok := <-c.
func (c *Chan[V]) Recv2() (V, bool) {
	Point()
	if c == nil {
		blockForever("receive on nil channel")
	}
	if v, ok, done := c.tryRecv(); done {
		return v, ok
	}
	if dying() {
		if rt == nil {
			panic("vrt: receive would block outside an execution")
		}
		runtime.Goexit()
	}
	w := &waiter[V]{sel: &selector{t: rt.cur}}
	c.recvq = append(c.recvq, w)
	Park("chan receive")
	return w.val, w.ok
}

// Recv replaces <-c.
func (c *Chan[V]) Recv() V {
	v, _ := c.Recv2()
	return v
}

// Close replaces close(c).
func (c *Chan[V]) Close() {
	Point()
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for w := popWaiter(&c.recvq); w != nil; w = popWaiter(&c.recvq) {
		w.fire()
	}
	for w := popWaiter(&c.sendq); w != nil; w = popWaiter(&c.sendq) {
		w.closed = true
		w.fire()
	}
}

// Len replaces len(c).
func (c *Chan[V]) Len() int {
	Point()
	if c == nil {
		return 0
	}
	return len(c.buf)
}

// Cap replaces cap(c).
func (c *Chan[V]) Cap() int {
	if c == nil {
		return 0
	}
	return c.cap
}

// All replaces range over c.
func (c *Chan[V]) All() func(yield func(V) bool) {
	return func(yield func(V) bool) {
		for {
			v, ok := c.Recv2()
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// TrySendSched is a non-blocking send from scheduler context (timers).
func (c *Chan[V]) TrySendSched(v V) bool { return c.trySend(v) }

// Drain empties the buffer (timer Stop/Reset semantics).
func (c *Chan[V]) Drain() { c.buf = nil }

// ---- select

// Case is one communication clause.
type Case interface {
	try() bool
	ready() bool
	enqueue(s *selector, i int)
	finish()
}

// RecvC is a receive clause.
type RecvC[V any] struct {
	C   *Chan[V]
	Val V
	OK  bool
	w   *waiter[V]
}

// NewRecv builds a receive clause.
func NewRecv[V any](c *Chan[V]) *RecvC[V] { return &RecvC[V]{C: c} }

func (r *RecvC[V]) ready() bool {
	return r.C != nil && (len(r.C.buf) > 0 || live(r.C.sendq) || r.C.closed)
}
func (r *RecvC[V]) try() bool {
	v, ok, done := r.C.tryRecv()
	r.Val, r.OK = v, ok
	return done
}
func (r *RecvC[V]) enqueue(s *selector, i int) {
	if r.C == nil {
		return
	}
	r.w = &waiter[V]{sel: s, idx: i}
	r.C.recvq = append(r.C.recvq, r.w)
}
func (r *RecvC[V]) finish() { r.Val, r.OK = r.w.val, r.w.ok }

// SendC is a send clause.
type SendC[V any] struct {
	C *Chan[V]
	V V
	w *waiter[V]
}

// NewSend builds a send clause.
func NewSend[V any](c *Chan[V], v V) *SendC[V] { return &SendC[V]{C: c, V: v} }

func (r *SendC[V]) ready() bool {
	return r.C != nil && (r.C.closed || len(r.C.buf) < r.C.cap || live(r.C.recvq))
}
func (r *SendC[V]) try() bool { return r.C.trySend(r.V) }
func (r *SendC[V]) enqueue(s *selector, i int) {
	if r.C == nil {
		return
	}
	r.w = &waiter[V]{sel: s, idx: i, val: r.V}
	r.C.sendq = append(r.C.sendq, r.w)
}
func (r *SendC[V]) finish() {
	if r.w.closed {
		panic("send on closed channel")
	}
}

// Select replaces select; it returns the index of the clause taken, or -1 for
// the default clause.
func Select(hasDefault bool, cases ...Case) int {
	Point()
	var ready []int
	for i, c := range cases {
		if c.ready() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 {
			i = ready[ChooseDev(len(ready))]
		}
		cases[i].try()
		return i
	}
	if hasDefault {
		return -1
	}
	if dying() {
		if rt == nil {
			panic("vrt: select would block outside an execution")
		}
		runtime.Goexit()
	}
	s := &selector{t: rt.cur}
	for i, c := range cases {
		c.enqueue(s, i)
	}
	Park("select")
	if !s.fired {
		runtime.Goexit()
	}
	cases[s.idx].finish()
	return s.idx
}

// Pending reports buffered values without a scheduling point.
func (c *Chan[V]) Pending() bool { return len(c.buf) > 0 }

// CloseSched closes the channel without a scheduling point.
func (c *Chan[V]) CloseSched() {
	if c.closed {
		return
	}
	c.closed = true
	for w := popWaiter(&c.recvq); w != nil; w = popWaiter(&c.recvq) {
		w.fire()
	}
}
