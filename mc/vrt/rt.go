// Package vrt is the controlled runtime under which the instrumented copy of
// the code under test runs: one thread at a time, every scheduling decision
// recorded and replayable, virtual time.
package vrt

import (
	"container/heap"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Dec is one recorded decision.
type Dec struct {
	N    int  `json:"n"`
	C    int  `json:"c"`
	Free bool `json:"f,omitempty"`
}

// T is a virtual thread.
type T struct {
	ID      int
	Name    string
	gate    chan struct{}
	exited  chan struct{}
	done    bool
	parked  bool
	quiet   bool
	harness bool
	what    string
	abOps   int
	ops     int
	wakeRes int
}

// Failure describes an abnormal end of an execution.
type Failure struct {
	Kind  string // panic, deadlock, livelock, check, divergence
	Msg   string
	Stack string
}

// Config of one execution.
type Config struct {
	Prefix   []Dec
	MaxSteps int
	MaxPts   int // bound on executed statements between scheduling points
	Sigs     bool // collect control state signatures
	Fine     bool // statement-level points enabled from the start
	NoSched  bool // record no scheduling decisions until Explore(true)
	Rand     uint32
}

// Result of one execution.
type Result struct {
	Trace    []Dec
	Fail     *Failure
	Steps    int
	Now      time.Duration
	Diverged bool
	Log      []string
	Switches int
	Sigs     []uint64 // state, then state+choice, per decision beyond the prefix
	Threads  int
}

type rtm struct {
	cfg      Config
	threads  []*T
	runq     []*T
	cur      *T
	main     *T
	now      int64
	timers   timerHeap
	seq      int64
	trace    []Dec
	steps    int
	beat     int // steps at the last Beat
	pts      int
	sigs     []uint64
	switches int
	fail     *Failure
	aborting bool
	finished chan struct{}
	idle     *T
	explore  bool
	fine     bool
	randCtr  uint32
	diverged bool
	log      []string
	ending   bool
}

var rt *rtm
var epoch uint32

// Epoch identifies the current execution.
func Epoch() uint32 { return epoch }

// Active reports whether an execution is in progress.
func Active() bool { return rt != nil }

// ---- globals of the code under test are reset at the start of an execution

type globalVar struct{ ptr, saved reflect.Value }

var globals []globalVar

// RegisterGlobal records the initial value of a package variable.
func RegisterGlobal(p interface{}) {
	v := reflect.ValueOf(p)
	globals = append(globals, globalVar{v, cloneShallow(v.Elem())})
}

func cloneShallow(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	if v.Kind() == reflect.Map && !v.IsNil() {
		m := reflect.MakeMapWithSize(v.Type(), v.Len())
		it := v.MapRange()
		for it.Next() {
			m.SetMapIndex(it.Key(), it.Value())
		}
		c.Set(m)
		return c
	}
	if v.Kind() == reflect.Slice && !v.IsNil() {
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(s, v)
		c.Set(s)
		return c
	}
	c.Set(v)
	return c
}

func resetGlobals() {
	for _, g := range globals {
		g.ptr.Elem().Set(cloneShallow(g.saved))
	}
}

// ---- timers

type Timer struct {
	when int64
	seq  int64
	idx  int
	f    func()
}
type timerHeap []*Timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].when != h[j].when {
		return h[i].when < h[j].when
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x interface{}) {
	t := x.(*Timer)
	t.idx = len(*h)
	*h = append(*h, t)
}
func (h *timerHeap) Pop() interface{} {
	o := *h
	n := len(o)
	t := o[n-1]
	o[n-1] = nil
	*h = o[:n-1]
	t.idx = -1
	return t
}

// AddTimer arranges for f to run (in scheduler context: it must not block)
// after d of virtual time.
func AddTimer(d time.Duration, f func()) *Timer {
	if d < 0 {
		d = 0
	}
	if rt == nil {
		panic("vrt: timer outside an execution")
	}
	rt.seq++
	t := &Timer{when: rt.now + int64(d), seq: rt.seq, f: f}
	if t.when < rt.now { // overflow
		t.when = 1<<63 - 1
	}
	if rt.aborting {
		t.idx = -1
		return t
	}
	heap.Push(&rt.timers, t)
	return t
}

// DelTimer removes a pending timer; false if it already fired or was removed.
func DelTimer(t *Timer) bool {
	if t == nil || t.idx < 0 || rt == nil {
		return false
	}
	if t.idx >= len(rt.timers) || rt.timers[t.idx] != t {
		return false
	}
	heap.Remove(&rt.timers, t.idx)
	return true
}

// Now is the virtual time since the start of the execution.
func Now() time.Duration {
	if rt == nil {
		return 0
	}
	return time.Duration(rt.now)
}

// ---- decisions

func (r *rtm) choose(n int, free bool) int {
	c := 0
	pos := len(r.trace)
	if pos < len(r.cfg.Prefix) {
		d := r.cfg.Prefix[pos]
		if d.N != n || d.Free != free || d.C >= n {
			r.diverged = true
			if r.fail == nil {
				r.fail = &Failure{Kind: "divergence", Msg: fmt.Sprintf("decision %d: recorded %d options, now %d", pos, d.N, n)}
			}
			return 0
		}
		c = d.C
	} else if r.cfg.Sigs {
		s := r.sig()
		r.sigs = append(r.sigs, s)
	}
	r.trace = append(r.trace, Dec{n, c, free})
	return c
}

// sig identifies the control state: how far each thread has got, which are
// blocked, and the virtual time.
func (r *rtm) sig() uint64 {
	h := uint64(14695981039346656037) ^ uint64(r.now)
	for _, t := range r.threads {
		v := uint64(t.ops) << 2
		if t.done {
			v |= 1
		}
		if t.parked {
			v |= 2
		}
		h = (h ^ v) * 1099511628211
		h ^= h >> 29
	}
	return h
}

// ChooseFree is a decision of the harness, all of whose alternatives are
// explored at no deviation cost.
func ChooseFree(n int) int {
	if n <= 1 || rt == nil || rt.aborting {
		return 0
	}
	c := rt.choose(n, true)
	if rt.fail != nil {
		rt.endFrom(rt.cur)
	}
	return c
}

// ChooseDev is a decision whose alternatives cost one deviation each.
func ChooseDev(n int) int {
	if n <= 1 || rt == nil || rt.aborting || !rt.explore {
		return 0
	}
	c := rt.choose(n, false)
	if rt.fail != nil {
		rt.endFrom(rt.cur)
	}
	return c
}

// ---- scheduling

// Point is a scheduling point: the running thread may be preempted here.
func Point() {
	r := rt
	if r == nil {
		return
	}
	if r.aborting {
		r.abortOp()
		return
	}
	r.steps++
	r.cur.ops++
	r.pts = 0
	if r.steps-r.beat > r.cfg.MaxSteps {
		r.failNow("livelock", fmt.Sprintf("more than %d steps", r.cfg.MaxSteps))
		return
	}
	if len(r.runq) == 0 || r.cur.quiet || !r.explore {
		return
	}
	c := r.choose(1+len(r.runq), false)
	if r.fail != nil {
		r.endFrom(r.cur)
	}
	if c == 0 {
		return
	}
	next := r.runq[c-1]
	r.runq = append(r.runq[:c-1:c-1], r.runq[c:]...)
	self := r.cur
	r.runq = append(r.runq, self)
	r.switchTo(self, next)
}

// Pt is a statement-level point, active only in fine-grained executions.
func Pt() {
	r := rt
	if r == nil || r.aborting {
		return
	}
	if r.fine {
		Point()
		return
	}
	r.pts++
	if r.pts > r.cfg.MaxPts {
		r.failNow("livelock", fmt.Sprintf("more than %d statements without a scheduling point", r.cfg.MaxPts))
	}
}

func (r *rtm) switchTo(self, next *T) {
	r.switches++
	r.cur = next
	next.gate <- struct{}{}
	<-self.gate
	if r.aborting {
		runtime.Goexit()
	}
}

func (r *rtm) abortOp() {
	// a deferred call during teardown: let it run, but not forever
	if r.cur != nil {
		r.cur.abOps++
		if r.cur.abOps > 2000 {
			runtime.Goexit()
		}
	}
}

// Park blocks the running thread until Ready is called on it.
func Park(what string) {
	r := rt
	if r == nil {
		panic("vrt: blocking operation outside an execution: " + what)
	}
	if r.aborting {
		r.cur.abOps += 100
		r.abortOp()
		return
	}
	self := r.cur
	self.parked = true
	self.what = what
	r.dispatch(self)
}

// dispatch gives control to another thread; returns when self runs again.
func (r *rtm) dispatch(self *T) {
	next := r.pick()
	if next == nil { // execution ends
		r.endFrom(self)
		return
	}
	if next == self {
		r.cur = self
		return
	}
	r.switchTo(self, next)
}

func (r *rtm) pick() *T {
	for {
		if n := len(r.runq); n > 0 {
			c := 0
			if n > 1 && r.explore {
				c = r.choose(n, false)
				if r.fail != nil {
					return nil
				}
			}
			next := r.runq[c]
			r.runq = append(r.runq[:c:c], r.runq[c+1:]...)
			return next
		}
		if r.idle != nil {
			t := r.idle
			r.idle = nil
			t.parked = false
			return t
		}
		if len(r.timers) > 0 {
			r.now = r.timers[0].when
			for len(r.timers) > 0 && r.timers[0].when == r.now {
				t := heap.Pop(&r.timers).(*Timer)
				t.f()
			}
			continue
		}
		var b strings.Builder
		for _, t := range r.threads {
			if !t.done {
				fmt.Fprintf(&b, " [%s: %s]", t.Name, t.what)
			}
		}
		r.fail = &Failure{Kind: "deadlock", Msg: "no thread can run:" + b.String()}
		return nil
	}
}

// endFrom ends the execution from thread self (never returns).
func (r *rtm) endFrom(self *T) {
	r.ending = true
	r.finished <- struct{}{}
	<-self.gate
	runtime.Goexit()
}

func (r *rtm) failNow(kind, msg string) {
	if r.fail == nil {
		r.fail = &Failure{Kind: kind, Msg: msg, Stack: string(debug.Stack())}
	}
	if r.cur != nil && !r.ending {
		r.endFrom(r.cur)
	}
}

// Fail ends the execution with a check failure.
func Fail(format string, args ...interface{}) {
	if rt == nil {
		panic(fmt.Sprintf(format, args...))
	}
	if rt.aborting {
		runtime.Goexit()
	}
	rt.failNow("check", fmt.Sprintf(format, args...))
}

// Ready makes a parked thread runnable.
func Ready(t *T) bool {
	if rt == nil || t == nil || !t.parked || t.done {
		return false
	}
	if rt.aborting {
		return true
	}
	t.parked = false
	rt.runq = append(rt.runq, t)
	return true
}

// Cur is the running thread.
func Cur() *T {
	if rt == nil {
		return nil
	}
	return rt.cur
}

// Go starts a thread of the code under test.
func Go(f func()) { spawn(callerName(2), f, false, false) }

// GoH starts a harness thread; its own points are not preemption points.
func GoH(name string, f func()) *T { return spawn("h:"+name, f, true, true) }

// GoApp starts a thread of the harness whose points are explored.
func GoApp(name string, f func()) *T { return spawn("h:"+name, f, false, true) }

func callerName(skip int) string {
	pc, file, line, ok := runtime.Caller(skip)
	if !ok {
		return "?"
	}
	name := runtime.FuncForPC(pc).Name()
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		name = name[i+1:]
	}
	if i := strings.LastIndexByte(file, '/'); i >= 0 {
		file = file[i+1:]
	}
	return fmt.Sprintf("%s(%s:%d)", name, file, line)
}

func spawn(name string, f func(), quiet, harness bool) *T {
	r := rt
	if r == nil {
		panic("vrt: go statement outside an execution")
	}
	if r.aborting {
		return &T{done: true}
	}
	t := r.newThread(name, quiet, harness)
	go r.body(t, f)
	r.runq = append(r.runq, t)
	Point()
	return t
}

// SpawnFromTimer starts a thread from scheduler context.
func SpawnFromTimer(name string, f func()) {
	r := rt
	if r == nil || r.aborting {
		return
	}
	t := r.newThread(name, false, false)
	go r.body(t, f)
	r.runq = append(r.runq, t)
}

func (r *rtm) newThread(name string, quiet, harness bool) *T {
	t := &T{ID: len(r.threads), Name: name, gate: make(chan struct{}, 1), exited: make(chan struct{}), quiet: quiet, harness: harness}
	r.threads = append(r.threads, t)
	return t
}

func (r *rtm) body(t *T, f func()) {
	<-t.gate
	normal := false
	defer func() {
		defer close(t.exited)
		if r.aborting || r.ending {
			t.done = true
			if r.aborting {
				if !normal {
					_ = recover()
				}
				return
			}
		}
		var p interface{}
		if !normal {
			p = recover()
		}
		t.done = true
		if p != nil {
			if r.fail == nil {
				r.fail = &Failure{Kind: "panic", Msg: fmt.Sprintf("%v (thread %s)", p, t.Name), Stack: string(debug.Stack())}
			}
			r.ending = true
			r.finished <- struct{}{}
			return
		}
		if t == r.main {
			r.ending = true
			r.finished <- struct{}{}
			return
		}
		next := r.pick()
		if next == nil {
			r.ending = true
			r.finished <- struct{}{}
			return
		}
		r.cur = next
		r.switches++
		next.gate <- struct{}{}
	}()
	if r.aborting {
		return
	}
	f()
	normal = true
}

// Run performs one execution of body under cfg.
func Run(cfg Config, body func()) *Result {
	if rt != nil {
		panic("vrt: nested Run")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 400000
	}
	if cfg.MaxPts == 0 {
		cfg.MaxPts = 200000000
	}
	epoch++
	resetGlobals()
	r := &rtm{cfg: cfg, finished: make(chan struct{}, 4), explore: !cfg.NoSched, fine: cfg.Fine, randCtr: cfg.Rand}
	rt = r
	r.main = r.newThread("main", true, true)
	r.cur = r.main
	go r.body(r.main, body)
	r.main.gate <- struct{}{}
	<-r.finished
	r.aborting = true
	for _, t := range r.threads {
		if !t.done {
			r.cur = t
			t.gate <- struct{}{}
			<-t.exited
		} else {
			<-t.exited
		}
	}
	res := &Result{Trace: r.trace, Fail: r.fail, Steps: r.steps, Now: time.Duration(r.now), Diverged: r.diverged, Log: r.log, Switches: r.switches, Sigs: r.sigs, Threads: len(r.threads)}
	rt = nil
	return res
}

// Beat restarts the counts of statements and steps (between inputs of a batch).
func Beat() {
	if rt != nil {
		rt.pts = 0
		rt.beat = rt.steps
	}
}

// MaxPts sets the statement bound.
func MaxPts(n int) {
	if rt != nil {
		rt.cfg.MaxPts = n
	}
}

// Explore turns recording of scheduling decisions on or off.
func Explore(on bool) { rt.explore = on }

// Fine turns statement-level points on or off.
func Fine(on bool) { rt.fine = on }

// Idle blocks until no other thread can run at the current virtual time.
func Idle() {
	r := rt
	if r == nil || r.aborting {
		return
	}
	self := r.cur
	if r.idle != nil {
		panic("vrt: two idle waiters")
	}
	self.parked = true
	self.what = "idle"
	r.idle = self
	r.dispatch(self)
}

// Sleep blocks for d of virtual time.
func Sleep(d time.Duration) {
	Point()
	r := rt
	if r == nil || r.aborting {
		return
	}
	self := r.cur
	if d <= 0 {
		return
	}
	AddTimer(d, func() { Ready(self) })
	Park(fmt.Sprintf("sleep %v", d))
}

// Live returns the names of live threads of the code under test.
func Live() []string {
	var out []string
	for _, t := range rt.threads {
		if !t.done && !t.harness {
			out = append(out, t.Name+": "+t.what)
		}
	}
	sort.Strings(out)
	return out
}

// ResetRand starts the random sources again, so that a second world of the
// same execution gets the numbers of the first.
func ResetRand() {
	if rt != nil {
		rt.randCtr = rt.cfg.Rand
	}
}

// SetRand makes v the next number of the random sources.
func SetRand(v uint32) {
	if rt != nil {
		rt.randCtr = v
	}
}

// Rand is the deterministic replacement of random sources.
func Rand() uint32 {
	if rt == nil {
		return 1
	}
	v := rt.randCtr
	rt.randCtr = rt.randCtr*1664525 + 1013904223
	return v
}

// Logf appends to the execution's log.
func Logf(format string, args ...interface{}) {
	if rt != nil && !rt.aborting {
		rt.log = append(rt.log, fmt.Sprintf("%10s ", time.Duration(rt.now))+fmt.Sprintf(format, args...))
	}
}

// MapKeys gives a deterministic iteration order for a map (ascending, or
// descending as a deviation).
func mapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		strs := make(map[K]string, len(keys))
		for _, k := range keys {
			strs[k] = sortKey(k)
		}
		sort.SliceStable(keys, func(i, j int) bool { return strs[keys[i]] < strs[keys[j]] })
		if rt != nil && !rt.aborting && rt.explore && ChooseDev(2) == 1 {
			for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	return keys
}

func sortKey(k interface{}) string {
	switch v := k.(type) {
	case string:
		return v
	case int:
		return fmt.Sprintf("%020d", v)
	case uint32:
		return fmt.Sprintf("%020d", v)
	case uint64:
		return fmt.Sprintf("%020d", v)
	case int64:
		return fmt.Sprintf("%020d", v)
	}
	rv := reflect.ValueOf(k)
	if rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Func || rv.Kind() == reflect.Chan {
		return "" // unordered: kept in Go's order
	}
	return fmt.Sprint(k)
}

// MapRange2 iterates a map in the deterministic order.
func MapRange2[M ~map[K]V, K comparable, V any](m M) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		for _, k := range mapKeys(m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapRange1 iterates a map's keys in the deterministic order.
func MapRange1[M ~map[K]V, K comparable, V any](m M) func(yield func(K) bool) {
	return func(yield func(K) bool) {
		for _, k := range mapKeys(m) {
			if _, ok := m[k]; !ok {
				continue
			}
			if !yield(k) {
				return
			}
		}
	}
}
