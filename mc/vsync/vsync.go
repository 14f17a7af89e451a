// Package vsync replaces package sync.
package vsync

import (
	"sync"

	"verif.local/mc/vrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

type waitq struct{ q []*vrt.T }

func (w *waitq) add()      { w.q = append(w.q, vrt.Cur()) }
func (w *waitq) addFront() { w.q = append([]*vrt.T{vrt.Cur()}, w.q...) }
func (w *waitq) one() bool {
	for len(w.q) > 0 {
		t := w.q[0]
		w.q = w.q[1:]
		if vrt.Ready(t) {
			return true
		}
	}
	return false
}
func (w *waitq) all() {
	for w.one() {
	}
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	ep     uint32
	locked bool
	w      waitq
}

func (m *Mutex) chk() {
	if e := vrt.Epoch(); m.ep != e {
		m.ep, m.locked, m.w.q = e, false, nil
	}
}

func (m *Mutex) Lock() {
	vrt.Point()
	m.chk()
	if vrt.Dying() {
		m.locked = true
		return
	}
	first := true
	for m.locked {
		if first {
			m.w.add()
		} else {
			m.w.addFront()
		}
		first = false
		vrt.Park("mutex lock")
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	vrt.Point()
	m.chk()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	m.chk()
	if vrt.Dying() {
		m.locked = false
		return
	}
	vrt.Point()
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.w.one()
}

// RWMutex replaces sync.RWMutex (a waiting writer blocks new readers).
type RWMutex struct {
	ep      uint32
	writer  bool
	readers int
	pending int
	rq, wq  waitq
}

func (m *RWMutex) chk() {
	if e := vrt.Epoch(); m.ep != e {
		*m = RWMutex{ep: e}
	}
}

func (m *RWMutex) Lock() {
	vrt.Point()
	m.chk()
	if vrt.Dying() {
		m.writer = true
		return
	}
	if m.writer || m.readers > 0 {
		m.pending++
		first := true
		for m.writer || m.readers > 0 {
			if first {
				m.wq.add()
			} else {
				m.wq.addFront()
			}
			first = false
			vrt.Park("rwmutex lock")
		}
		m.pending--
	}
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	vrt.Point()
	m.chk()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	m.chk()
	if vrt.Dying() {
		m.writer = false
		return
	}
	vrt.Point()
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	// readers that waited get in before the next writer
	if len(m.rq.q) > 0 {
		n := 0
		q := m.rq.q
		m.rq.q = nil
		for _, t := range q {
			if vrt.Ready(t) {
				n++
			}
		}
		m.readers += n
		if n > 0 {
			return
		}
	}
	m.wq.one()
}

func (m *RWMutex) RLock() {
	vrt.Point()
	m.chk()
	if vrt.Dying() {
		m.readers++
		return
	}
	if m.writer || m.pending > 0 {
		m.rq.add()
		vrt.Park("rwmutex rlock") // the unlocking writer hands the read lock over
		return
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	vrt.Point()
	m.chk()
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	m.chk()
	if vrt.Dying() {
		m.readers--
		return
	}
	vrt.Point()
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		m.wq.one()
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is as in sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	ep uint32
	n  int
	w  waitq
}

func (g *WaitGroup) chk() {
	if e := vrt.Epoch(); g.ep != e {
		*g = WaitGroup{ep: e}
	}
}

func (g *WaitGroup) Add(d int) {
	vrt.Point()
	g.chk()
	g.n += d
	if g.n < 0 && !vrt.Dying() {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.w.all()
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	vrt.Point()
	g.chk()
	if vrt.Dying() {
		return
	}
	if g.n > 0 {
		g.w.add()
		vrt.Park("waitgroup wait")
	}
}

// Go is sync.WaitGroup.Go.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vrt.Go(func() { defer g.Done(); f() })
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	ep   uint32
	done bool
}

func (o *Once) Do(f func()) {
	vrt.Point()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[V any](f func() V) func() V {
	var o Once
	var v V
	return func() V { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[V, W any](f func() (V, W)) func() (V, W) {
	var o Once
	var v V
	var w W
	return func() (V, W) { o.Do(func() { v, w = f() }); return v, w }
}

// Cond replaces sync.Cond.
type Cond struct {
	L Locker
	w waitq
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.w.add()
	// Unlock may be preempted before we park: a wake-up in between must not be lost
	woken := false
	self := vrt.Cur()
	for i := range c.w.q {
		if c.w.q[i] == self {
			break
		}
	}
	cw := c
	c.L.Unlock()
	in := false
	for _, t := range cw.w.q {
		if t == self {
			in = true
		}
	}
	if !in {
		woken = true
	}
	if !woken && !vrt.Dying() {
		vrt.Park("cond wait")
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	vrt.Point()
	if len(c.w.q) > 0 {
		t := c.w.q[0]
		c.w.q = c.w.q[1:]
		vrt.Ready(t)
	}
}
func (c *Cond) Broadcast() {
	vrt.Point()
	q := c.w.q
	c.w.q = nil
	for _, t := range q {
		vrt.Ready(t)
	}
}

// Map replaces sync.Map.
type Map struct {
	ep uint32
	m  map[any]any
	o  []any
}

func (m *Map) chk() {
	vrt.Point()
	if e := vrt.Epoch(); m.ep != e || m.m == nil {
		m.ep, m.m, m.o = e, map[any]any{}, nil
	}
}
func (m *Map) Load(k any) (any, bool) { m.chk(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.chk(); m.put(k, v) }
func (m *Map) put(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.o = append(m.o, k)
	}
	m.m[k] = v
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i := range m.o {
		if m.o[i] == k {
			m.o = append(m.o[:i:i], m.o[i+1:]...)
			break
		}
	}
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.chk()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.put(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.chk()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { m.chk(); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.chk()
	p, ok := m.m[k]
	m.put(k, v)
	return p, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.chk()
	if v, ok := m.m[k]; ok && v == o {
		m.put(k, n)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.chk()
	if v, ok := m.m[k]; ok && v == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.chk()
	for _, k := range append([]any(nil), m.o...) {
		vrt.Point()
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}
func (m *Map) Clear() { m.chk(); m.m = map[any]any{}; m.o = nil }

// Pool replaces sync.Pool (a LIFO, so that reuse is exercised).
type Pool struct {
	New func() any
	ep  uint32
	s   []any
}

func (p *Pool) Get() any {
	vrt.Point()
	if p.ep != vrt.Epoch() {
		p.ep, p.s = vrt.Epoch(), nil
	}
	if n := len(p.s); n > 0 {
		x := p.s[n-1]
		p.s = p.s[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	vrt.Point()
	if p.ep != vrt.Epoch() {
		p.ep, p.s = vrt.Epoch(), nil
	}
	p.s = append(p.s, x)
}
