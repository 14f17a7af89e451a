package h

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	link "github.com/younglifestyle/secs4go"
	"verif.local/mc/vrt"
)

func init() {
	register(&Check{ID: "C26", Level: "model_checking", Budget: [2]int{200, 800},
		Rule: "sets of two to four threads (senders, closers, receivers, callback users) on one session over a recording codec, in synchronous and asynchronous mode, with send failures, receive failures and blocked writers; every schedule up to the deviation bound",
		Run:  c26})
	register(&Check{ID: "C27", Level: "model_checking", Budget: [2]int{200, 800},
		Rule: "all sequential histories of channel operations to the depth against a set model; two to three threads mixing channel and manager operations with session closes under every schedule up to the deviation bound",
		Run:  c27})
}

// recCodec records what is sent through it; sends take two steps.
type recCodec struct {
	x       *X
	open    int // sends in progress
	wire    []string
	closed  int
	failAt  int // fail the n-th send (1-based; 0 never)
	block   bool
	nsend   int
	recv    []interface{}
	waiters []*vrt.T
	cleared int
}

func (r *recCodec) Send(m interface{}) error {
	r.nsend++
	n := r.nsend
	r.wire = append(r.wire, fmt.Sprintf("<%v", m))
	r.open++
	if r.open > 1 {
		r.x.Failf("interleaved", "two sends are writing at once: %v", r.wire)
	}
	vrt.Point()
	if r.block {
		for r.closed == 0 {
			if vrt.Dying() {
				return errors.New("end")
			}
			r.waiters = append(r.waiters, vrt.Cur())
			vrt.Park("blocked write")
		}
	}
	vrt.Point()
	r.open--
	if r.closed > 0 || n == r.failAt {
		r.wire = append(r.wire, "!")
		return errors.New("write failed")
	}
	r.wire = append(r.wire, fmt.Sprintf("%v>", m))
	return nil
}

func (r *recCodec) Receive() (interface{}, error) {
	for {
		vrt.Point()
		if r.closed > 0 {
			return nil, errors.New("closed")
		}
		if len(r.recv) > 0 {
			v := r.recv[0]
			r.recv = r.recv[1:]
			if v == nil {
				return nil, errors.New("receive failed")
			}
			return v, nil
		}
		if vrt.Dying() {
			return nil, errors.New("end")
		}
		r.waiters = append(r.waiters, vrt.Cur())
		vrt.Park("receive")
	}
}

// clearCodec also wants what was queued and not written.
type clearCodec struct {
	*recCodec
	got []string
}

func (r *clearCodec) ClearSendChan(ch *vrt.Chan[interface{}]) {
	r.cleared++
	for m := range ch.All() {
		vrt.Point()
		r.got = append(r.got, fmt.Sprint(m))
	}
}

func (r *recCodec) Close() error {
	vrt.Point()
	r.closed++
	for _, t := range r.waiters {
		vrt.Ready(t)
	}
	r.waiters = nil
	return nil
}

type sendRec struct {
	msg      string
	err      error
	inv, ret int
	returned bool
}

type sessWorld struct {
	x        *X
	s        *link.Session
	codec    *recCodec
	clock    int
	sends    []*sendRec
	closeInv int // first close invocation
	closeRet int // first close return
	closeOK  int
	closeErr int
	cbRuns   map[string]int
	cbAdd    map[string][2]int
	cbRem    map[string][2]int
	running  int
}

func (w *sessWorld) tick() int { w.clock++; return w.clock }

// ops: "s<id>" send, "c" close, "r" receive until error, "a<k>" add callback
// k, "d<k>" remove callback k, "z" sleep.
func (w *sessWorld) do(op string) {
	switch op[0] {
	case 's':
		r := &sendRec{msg: op[1:], inv: w.tick()}
		w.sends = append(w.sends, r)
		r.err = w.s.Send(op[1:])
		r.ret = w.tick()
		r.returned = true
	case 'c':
		t := w.tick()
		if w.closeInv == 0 {
			w.closeInv = t
		}
		err := w.s.Close()
		if err == nil {
			w.closeOK++
		} else {
			if err != link.SessionClosedError {
				w.x.Failf("close-error", "Close returned %v", err)
			}
			w.closeErr++
		}
		if w.closeRet == 0 {
			w.closeRet = w.tick()
		}
	case 'r':
		for {
			t := w.tick()
			_, err := w.s.Receive()
			if err != nil {
				if w.closeInv == 0 {
					w.closeInv = t
				}
				if !w.s.IsClosed() {
					w.x.Failf("receive-open", "Receive failed and the session is not closed")
				}
				return
			}
		}
	case 'a':
		k := op[1:]
		t := w.tick()
		w.s.AddCloseCallback("h", k, func() { w.cbRuns[k]++ })
		w.cbAdd[k] = [2]int{t, w.tick()}
	case 'd':
		k := op[1:]
		t := w.tick()
		w.s.RemoveCloseCallback("h", k)
		w.cbRem[k] = [2]int{t, w.tick()}
	case 'z':
		vrt.Sleep(time.Millisecond)
	}
}

type sessCase struct {
	async   int
	failAt  int
	block   bool
	recv    int // items before a receive failure (-1: none)
	threads []string
	with    string // how it is made, "": NewSession
}

func (sc sessCase) String() string {
	return sc.with + fmt.Sprintf("queue=%d fail=%d block=%v recv=%d threads=%s", sc.async, sc.failAt, sc.block, sc.recv, strings.Join(sc.threads, " | "))
}

func runSession(x *X, sc sessCase) {
	cd := &recCodec{x: x, failAt: sc.failAt, block: sc.block}
	if sc.recv >= 0 {
		for i := 0; i < sc.recv; i++ {
			cd.recv = append(cd.recv, i)
		}
		cd.recv = append(cd.recv, nil)
	}
	w := &sessWorld{x: x, codec: cd, cbRuns: map[string]int{}, cbAdd: map[string][2]int{}, cbRem: map[string][2]int{}}
	var mgr *link.Manager
	var clr *clearCodec
	var used link.Codec = cd
	switch sc.with {
	case "clear ":
		clr = &clearCodec{recCodec: cd}
		used = clr
		w.s = link.NewSession(clr, sc.async)
	case "id ":
		w.s = link.NewSessionWithId(cd, sc.async, 77)
		if w.s.ID() != 77 {
			x.Failf("id", "a session made with id 77 has id %d", w.s.ID())
		}
	case "manager ":
		mgr = link.NewManager()
		w.s = mgr.NewSession(cd, sc.async)
		if o := mgr.NewSession(&recCodec{x: x}, 0); o.ID() == w.s.ID() || mgr.GetSession(w.s.ID()) != w.s || mgr.GetSession(o.ID()) != o {
			x.Failf("id", "sessions %d and %d", w.s.ID(), o.ID())
		} else {
			o.Close()
		}
	default:
		w.s = link.NewSession(cd, sc.async)
		if o := link.NewSession(&recCodec{x: x}, 0); o.ID() == w.s.ID() {
			x.Failf("id", "two sessions have id %d", o.ID())
		}
	}
	if w.s.Codec() != used {
		x.Failf("codec", "Codec gives another codec")
	}
	done := 0
	order := map[int][]string{}
	for i, t := range sc.threads {
		i, ops := i, strings.Fields(t)
		for _, o := range ops {
			if o[0] == 's' {
				order[i] = append(order[i], o[1:])
			}
		}
		vrt.GoApp(t, func() {
			for _, o := range ops {
				w.do(o)
			}
			done++
		})
	}
	vrt.Sleep(time.Second)
	if done != len(sc.threads) && !sc.block {
		x.Failf("deadlock", "threads did not finish: %v", vrt.Live())
	}
	for _, r := range w.sends {
		if !r.returned && sc.async > 0 {
			x.Failf("send-waits", "Send(%s) waits for the writer although there is a queue of %d", r.msg, sc.async)
		}
	}
	beforeClose := append([]string{}, cd.wire...)
	closedBefore := w.s.IsClosed()
	for _, r := range w.sends {
		if r.err == link.SessionBlockedError && !closedBefore {
			x.Failf("blocked-open", "a send found no room and the session is not closed")
		}
	}
	w.do("c")
	vrt.Sleep(time.Second)
	if done != len(sc.threads) {
		x.Failf("deadlock", "threads did not finish after the close: %v", vrt.Live())
	}
	if n := len(vrt.Live()); n > 0 {
		x.Failf("leak", "threads left after close: %v", vrt.Live())
	}
	if cd.closed != 1 {
		x.Failf("codec-close", "the codec was closed %d times", cd.closed)
	}
	if w.closeOK > 1 {
		x.Failf("close-twice", "%d calls of Close took effect", w.closeOK)
	}
	if !w.s.IsClosed() {
		x.Failf("not-closed", "IsClosed is false")
	}
	if err := w.s.Send("late"); err != link.SessionClosedError {
		x.Failf("send-after-close", "Send after close returned %v", err)
	}
	// the wire: whole messages only
	wr := cd.wire
	var msgs []string
	for i := 0; i < len(wr); i += 2 {
		if !strings.HasPrefix(wr[i], "<") || i+1 < len(wr) && wr[i+1] != wr[i][1:]+">" && wr[i+1] != "!" {
			x.Failf("interleaved", "wire %v", wr)
		}
		if i+1 < len(wr) && wr[i+1] != "!" {
			msgs = append(msgs, wr[i][1:])
		}
	}
	seen := map[string]int{}
	for _, m := range msgs {
		seen[m]++
		if seen[m] > 1 {
			x.Failf("duplicate", "message %s written twice", m)
		}
	}
	for _, l := range order {
		k := 0
		for _, m := range msgs {
			for j := range l {
				if l[j] == m {
					if j < k {
						x.Failf("order", "messages of one sender %v written as %v", l, msgs)
					}
					k = j
				}
			}
		}
	}
	for _, r := range w.sends {
		if !r.returned {
			x.Failf("deadlock", "a send did not return")
		}
		if r.err == nil && sc.async == 0 && seen[r.msg] == 0 {
			x.Failf("lost", "Send(%s) returned success and nothing was written", r.msg)
		}
		if r.err != nil && seen[r.msg] > 0 {
			x.Failf("failed-but-written", "Send(%s) returned %v and the message was written", r.msg, r.err)
		}
		if r.err == nil && !closedBefore && sc.failAt == 0 && !sc.block && !contains(beforeClose, r.msg+">") {
			x.Failf("lost", "Send(%s) returned success, the session stayed open and the message was not written", r.msg)
		}
		if w.closeRet > 0 && r.inv > w.closeRet && r.err != link.SessionClosedError {
			x.Failf("send-after-close", "Send after Close returned %v", r.err)
		}
		if r.err == link.SessionClosedError && w.closeInv == 0 && sc.failAt == 0 {
			x.Failf("spurious-closed", "Send returned the closed error on an open session")
		}
		if r.err == link.SessionBlockedError && sc.async == 0 {
			x.Failf("spurious-blocked", "blocked without a queue")
		}
		if r.err == link.SessionBlockedError && len(w.sends) <= sc.async {
			x.Failf("spurious-blocked", "blocked with %d messages and room for %d", len(w.sends), sc.async)
		}
	}
	if clr != nil {
		// what was accepted is written, failed in writing or given back
		if clr.cleared > 1 || clr.cleared == 0 && sc.async > 0 {
			x.Failf("clear", "ClearSendChan was called %d times", clr.cleared)
		}
		n := map[string]int{}
		for _, m := range clr.got {
			n[m]++
		}
		for _, m := range wr {
			if strings.HasPrefix(m, "<") {
				n[m[1:]]++
			}
		}
		for _, r := range w.sends {
			if sc.async > 0 && r.err == nil && n[r.msg] != 1 || r.err != nil && sc.async > 0 && n[r.msg] != 0 {
				x.Failf("clear", "Send(%s) returned %v; it was written or given back %d times: wire %v, given back %v", r.msg, r.err, n[r.msg], wr, clr.got)
			}
		}
	}
	for k, a := range w.cbAdd {
		r, removed := w.cbRem[k]
		n := w.cbRuns[k]
		switch {
		case n > 1:
			x.Failf("callback-twice", "close callback %s ran %d times", k, n)
		case !removed && n != 1:
			x.Failf("callback-lost", "close callback %s added at %v (first close %d-%d) ran %d times", k, a, w.closeInv, w.closeRet, n)
		case removed && r[0] > a[1] && (w.closeInv == 0 || r[1] < w.closeInv) && n != 0 && !closedByError(sc):
			x.Failf("callback-removed", "close callback %s ran although it was removed before any close", k)
		}
	}
	var oc []string
	for _, r := range w.sends {
		oc = append(oc, fmt.Sprint(r.msg, r.err))
	}
	x.Outcome("%v %v %v", wr, oc, w.cbRuns)
}

func closedByError(sc sessCase) bool { return sc.failAt > 0 || sc.recv >= 0 || sc.block }

func contains(l []string, s string) bool {
	for _, v := range l {
		if v == s {
			return true
		}
	}
	return false
}

func c26(c *C) {
	many(c, manyCloseCallbacks)
	for first := 0; first < len(cbNames); first++ {
		c.Case(fmt.Sprintf("names %d", first), Opt{MaxSteps: 1 << 28}, func(x *X) {
			for d := 0; d <= c.Q(4, 5); d++ {
				seqs(2*len(cbNames), d, func(ix []int) {
					ops := append([]int{first}, ix...)
					there := map[int]bool{}
					for _, o := range ops {
						if o < len(cbNames) && there[o] {
							return // a name is used once
						}
						there[o%len(cbNames)] = o < len(cbNames)
					}
					runCallbackNames(x, ops)
				})
			}
		})
	}
	ths := [][]string{
		{"s1 s2", "s3 s4"},
		{"s1", "s2", "s3"},
		{"s1 s2", "c"},
		{"s1", "s2", "c"},
		{"c", "c"},
		{"a1 a2", "c"},
		{"a1 d1 a2", "c"},
		{"a1 a2 d1 a3", "c"},
		{"a1 z a2 d1", "z c"},
		{"a1 a2 a3 d2", "a4 d4", "c"},
		{"a1", "a2", "c"},
		{"a1 a2 d2 a3", "a4"},
		{"a1 a2 d1 d2 a3", "s1"},
		{"s1 s2 s3", "r"},
		{"s1 c s2", "a1"},
		{"r", "c", "s1"},
		{"c a1", "a2"},
		{"s1 s2 s3 s4"},
	}
	for _, t := range ths {
		for _, async := range []int{0, 1, 2, 8} {
			for _, fail := range []int{0, 1, 2} {
				for _, recv := range []int{-1, 0, 1} {
					for _, block := range []bool{false, true} {
						j := strings.Join(t, " ")
						hasS, hasR := strings.Contains(j, "s"), strings.Contains(j, "r")
						if !hasS && (fail > 0 || block) || !hasR && recv >= 0 || hasR && recv < 0 && !strings.Contains(j, "c") {
							continue
						}
						if fail > 0 && block {
							continue
						}
						sc := sessCase{async: async, failAt: fail, block: block, recv: recv, threads: t}
						c.Case(sc.String(), Opt{Dev: c.Q(2, 3), Split: true, Sched: true, FineDev: c.Q(1, 2)}, func(x *X) { runSession(x, sc) })
						for _, with := range []string{"id ", "manager ", "clear "} {
							sc := sc
							sc.with = with
							c.Case(sc.String(), Opt{Dev: c.Q(1, 2), Split: true, Sched: true, FineDev: c.Q(1, 2)}, func(x *X) { runSession(x, sc) })
						}
					}
				}
			}
		}
	}
}

// cbNames are pairs of handler and key that differ in one of the two.
var cbNames = [][2]interface{}{{nil, nil}, {"h", nil}, {nil, "k"}, {"h", "k"}, {1, "k"}, {int64(1), "k"}, {"h", ""}, {"", ""}}

// runCallbackNames: callbacks are added, removed (under a name that may not be
// there) and run under their own names only, however many there are.
func runCallbackNames(x *X, ops []int) {
	n := len(cbNames)
	var id []string
	for _, o := range ops {
		id = append(id, fmt.Sprintf("%s%d", [2]string{"+", "-"}[o/n], o%n))
	}
	x.Eval(strings.Join(id, " "), true)
	s := link.NewSession(&recCodec{x: x}, 0)
	ran := make([]int, n)
	want := make([]int, n)
	for _, o := range ops {
		i := o % n
		if o < n {
			s.AddCloseCallback(cbNames[i][0], cbNames[i][1], func() { ran[i]++ })
			want[i] = 1
		} else {
			s.RemoveCloseCallback(cbNames[i][0], cbNames[i][1])
			want[i] = 0
		}
	}
	if fmt.Sprint(ran) != fmt.Sprint(make([]int, n)) {
		x.Failf("callback-early", "%v: ran %v before any close", id, ran)
	}
	s.Close()
	vrt.Sleep(time.Millisecond)
	if fmt.Sprint(ran) != fmt.Sprint(want) {
		x.Failf("callback-name", "%v: callbacks ran %v times, want %v", id, ran, want)
	}
}

// ---- registries

type regCase struct {
	nsess   int
	pre     []string
	threads []string
}

// ops: "p<k><i>" put session i under key k, "x<k>" remove key, "f" fetch,
// "F" fetch and remove, "K" close the channel, "c<i>" close session i,
// "l" len, "g<k>" get, "n<i>" manager: new session i, "D" dispose.
func (rc regCase) String() string {
	return fmt.Sprintf("pre=%v threads=%s", rc.pre, strings.Join(rc.threads, " | "))
}

type regWorld struct {
	x    *X
	ch   *link.Channel
	mgr  *link.Manager
	ses  []*link.Session
	cods []*recCodec
	// effects for the model, in completion order per thread
}

func newRegWorld(x *X, n int) *regWorld {
	w := &regWorld{x: x, ch: link.NewChannel(), mgr: link.NewManager()}
	for i := 0; i < n; i++ {
		cd := &recCodec{x: x}
		w.cods = append(w.cods, cd)
		w.ses = append(w.ses, link.NewSessionWithId(cd, 0, uint64(i+1)))
	}
	return w
}

func (w *regWorld) idx(s *link.Session) int {
	for i, v := range w.ses {
		if v == s {
			return i
		}
	}
	return -1
}

func (w *regWorld) do(op string) string {
	switch op[0] {
	case 'p':
		w.ch.Put(string(op[1]), w.ses[op[2]-'0'])
	case 'x':
		return fmt.Sprint(w.ch.Remove(string(op[1])))
	case 'f':
		var l []int
		w.ch.Fetch(func(s *link.Session) { l = append(l, w.idx(s)) })
		sort.Ints(l)
		return fmt.Sprint(l)
	case 'F':
		var l []int
		w.ch.FetchAndRemove(func(s *link.Session) { l = append(l, w.idx(s)) })
		sort.Ints(l)
		return fmt.Sprint(l)
	case 'C': // fetch and close all
		w.ch.Fetch(func(s *link.Session) { s.Close() })
	case 'K':
		w.ch.Close()
	case 'c':
		w.ses[op[1]-'0'].Close()
	case 'l':
		return fmt.Sprint(w.ch.Len())
	case 'g':
		return fmt.Sprint(w.idx(w.ch.Get(string(op[1]))))
	}
	return ""
}

// chModel is the set model.
type chModel struct {
	m      map[string]int
	closed map[int]bool
}

func (m *chModel) clone() *chModel {
	o := &chModel{map[string]int{}, map[int]bool{}}
	for k, v := range m.m {
		o.m[k] = v
	}
	for k, v := range m.closed {
		o.closed[k] = v
	}
	return o
}

func (m *chModel) drop() {
	for k, v := range m.m {
		if m.closed[v] {
			delete(m.m, k)
		}
	}
}

// do applies op; the effect of a close on the map is immediate in the model
// (the notification has run).
func (m *chModel) do(op string) string {
	r := ""
	switch op[0] {
	case 'p':
		m.m[string(op[1])] = int(op[2] - '0')
	case 'x':
		_, ok := m.m[string(op[1])]
		delete(m.m, string(op[1]))
		r = fmt.Sprint(ok)
	case 'l':
		r = fmt.Sprint(len(m.m))
	case 'f', 'F':
		var l []int
		for _, v := range m.m {
			l = append(l, v)
		}
		sort.Ints(l)
		r = fmt.Sprint(l)
		if op[0] == 'F' {
			m.m = map[string]int{}
		}
	case 'C':
		for _, v := range m.m {
			m.closed[v] = true
		}
	case 'K':
		m.m = map[string]int{}
	case 'c':
		m.closed[int(op[1]-'0')] = true
	case 'g':
		if v, ok := m.m[string(op[1])]; ok {
			r = fmt.Sprint(v)
		} else {
			r = "-1"
		}
	}
	m.drop()
	return r
}

func (m *chModel) String() string { return fmt.Sprint(m.m, m.closed) }

func (w *regWorld) content() string {
	got := map[string]int{}
	for _, k := range []string{"a", "b", "c"} {
		if s := w.ch.Get(k); s != nil {
			got[k] = w.idx(s)
		}
	}
	if w.ch.Len() != len(got) {
		return fmt.Sprintf("Len=%d but %v", w.ch.Len(), got)
	}
	return fmt.Sprint(got)
}

func permsOf(ths [][]string) [][]string {
	var out [][]string
	var rec func(pos []int, acc []string)
	rec = func(pos []int, acc []string) {
		end := true
		for i := range ths {
			if pos[i] < len(ths[i]) {
				end = false
				p := append([]int{}, pos...)
				p[i]++
				rec(p, append(acc[:len(acc):len(acc)], ths[i][pos[i]]))
			}
		}
		if end {
			out = append(out, acc)
		}
	}
	rec(make([]int, len(ths)), nil)
	return out
}

func runRegistry(x *X, rc regCase) {
	w := newRegWorld(x, rc.nsess)
	m0 := &chModel{map[string]int{}, map[int]bool{}}
	for _, o := range rc.pre {
		w.do(o)
		m0.do(o)
	}
	vrt.Idle()
	done := 0
	var ths [][]string
	for _, t := range rc.threads {
		ops := strings.Fields(t)
		ths = append(ths, ops)
		vrt.GoApp(t, func() {
			for _, o := range ops {
				w.do(o)
			}
			done++
		})
	}
	vrt.Sleep(time.Second)
	if done != len(rc.threads) {
		x.Failf("deadlock", "threads did not finish: %v", vrt.Live())
	}
	if l := vrt.Live(); len(l) > 0 {
		x.Failf("deadlock", "close notifications did not finish: %v", l)
	}
	got := w.content()
	ok := false
	for _, p := range permsOf(ths) {
		m := m0.clone()
		for _, o := range p {
			m.do(o)
		}
		if fmt.Sprint(m.m) == got {
			ok = true
			break
		}
	}
	if !ok {
		x.Failf("content", "the channel holds %s; no order of the calls explains it", got)
	}
	for i, s := range w.ses {
		if s.IsClosed() && w.cods[i].closed != 1 {
			x.Failf("codec-close", "codec of session %d closed %d times", i, w.cods[i].closed)
		}
	}
	x.Outcome("%s", got)
}

// manager operations: "n" new session (async queue), "N" (sync), "c<i>" close
// the i-th session made by this thread's world, "D" dispose, "G" get all.
func runManager(x *X, async int, threads []string) {
	mgr := link.NewManager()
	var ses []*link.Session
	var cods []*recCodec
	var cbs []int
	disposed := false
	done := 0
	after := []*link.Session{}
	mk := func(s int) {
		d := disposed
		cd := &recCodec{x: x}
		cods = append(cods, cd)
		ss := mgr.NewSession(cd, s)
		i := len(ses)
		ses = append(ses, ss)
		cbs = append(cbs, 0)
		_ = i
		if d {
			after = append(after, ss)
		}
	}
	for i := 0; i < 2; i++ {
		mk(async)
	}
	for _, t := range threads {
		ops := strings.Fields(t)
		vrt.GoApp(t, func() {
			for _, o := range ops {
				switch o[0] {
				case 'n':
					mk(async)
				case 'c':
					if i := int(o[1] - '0'); i < len(ses) {
						ses[i].Close()
					}
				case 's':
					if i := int(o[1] - '0'); i < len(ses) {
						ses[i].Send("m")
					}
				case 'G':
					for _, s := range ses {
						if g := mgr.GetSession(s.ID()); g != nil && g != s {
							x.Failf("get", "GetSession returned another session")
						}
					}
				case 'D':
					mgr.Dispose()
					disposed = true
					for _, s := range ses {
						if mgr.GetSession(s.ID()) != nil {
							x.Failf("dispose-early", "Dispose returned while session %d is registered", s.ID())
						}
					}
				}
			}
			done++
		})
	}
	vrt.Sleep(time.Second)
	if done != len(threads) {
		x.Failf("deadlock", "threads did not finish: %v", vrt.Live())
	}
	for i, s := range ses {
		reg := mgr.GetSession(s.ID()) == s
		if reg == s.IsClosed() {
			x.Failf("content", "session %d registered=%v closed=%v", i, reg, s.IsClosed())
		}
		if disposed && !s.IsClosed() {
			x.Failf("dispose", "session %d is open after Dispose", i)
		}
		if s.IsClosed() && cods[i].closed != 1 {
			x.Failf("codec-close", "codec of session %d closed %d times", i, cods[i].closed)
		}
	}
	ids := map[uint64]bool{}
	for _, s := range ses {
		if ids[s.ID()] {
			x.Failf("ids", "two sessions share id %d", s.ID())
		}
		ids[s.ID()] = true
	}
	if !disposed {
		for _, s := range ses {
			s.Close()
		}
		vrt.Sleep(time.Second)
		for _, s := range ses {
			if mgr.GetSession(s.ID()) != nil {
				x.Failf("content", "closed session still registered")
			}
		}
		mgr.Dispose()
	}
	mk(async)
	if s := ses[len(ses)-1]; !s.IsClosed() {
		x.Failf("dispose", "a session made after Dispose is open")
	}
	vrt.Sleep(time.Second)
	if l := vrt.Live(); len(l) > 0 {
		x.Failf("leak", "threads left: %v", l)
	}
	x.Outcome("%d sessions", len(ses))
}

// runMany has n sessions in one manager, more than it has maps, and closes
// those with i%k==0 before it disposes.
func runMany(x *X, n, k, async int, dispose bool) {
	mgr := link.NewManager()
	var ses []*link.Session
	ids := map[uint64]bool{}
	for i := 0; i < n; i++ {
		s := mgr.NewSession(&recCodec{x: x}, async)
		if ids[s.ID()] {
			x.Failf("ids", "two sessions share id %d", s.ID())
		}
		ids[s.ID()] = true
		ses = append(ses, s)
	}
	check := func(when string, open func(i int) bool) {
		for i, s := range ses {
			want := s
			if !open(i) {
				want = nil
			}
			if g := mgr.GetSession(s.ID()); g != want || s.IsClosed() == open(i) {
				x.Failf("content", "%s: session %d of %d is closed=%v, registered=%v", when, i, n, s.IsClosed(), g != nil)
			}
		}
	}
	check("made", func(int) bool { return true })
	for i, s := range ses {
		if i%k == 0 {
			s.Close()
		}
	}
	vrt.Idle()
	check("closed", func(i int) bool { return i%k != 0 })
	if dispose {
		mgr.Dispose()
	} else {
		for _, s := range ses {
			s.Close()
		}
		vrt.Idle()
	}
	check("end", func(int) bool { return false })
	if !dispose {
		mgr.Dispose()
	}
	for i := 0; i < n; i++ {
		if s := mgr.NewSession(&recCodec{x: x}, async); !s.IsClosed() {
			x.Failf("dispose", "session %d made after Dispose is open", s.ID())
		}
	}
	vrt.Sleep(time.Second)
	if l := vrt.Live(); len(l) > 0 {
		x.Failf("leak", "threads left: %v", l)
	}
	x.Outcome("%d", n)
}

func c27(c *C) {
	many(c, manyInChannel)
	for _, n := range []int{33, 70, c.Q(300, 1100)} {
		for _, k := range []int{1, 2, 3, 32, 33, 1000} {
			for i := 0; i < 4; i++ {
				n, k, async, disp := n, k, i&1*4, i&2 > 0
				c.Case(fmt.Sprintf("many n=%d close every %d queue=%d dispose=%v", n, k, async, disp), Opt{}, func(x *X) { runMany(x, n, k, async, disp) })
			}
		}
	}
	// sequential histories, with and without letting notifications run
	ops := []string{"pa0", "pa1", "pb0", "pb1", "xa", "xb", "c0", "c1", "F", "f", "K", "C"}
	depth := c.Q(4, 5)
	var rec func(h []string)
	rec = func(h []string) {
		if len(h) > 0 {
			hh := append([]string(nil), h...)
			for mode := 0; mode < 2; mode++ {
				mode := mode
				c.Case(fmt.Sprintf("sequence %v idle=%d", hh, mode), Opt{}, func(x *X) {
					w := newRegWorld(x, 2)
					m := &chModel{map[string]int{}, map[int]bool{}}
					for _, o := range hh {
						r := w.do(o)
						mr := m.do(o)
						if mode == 0 {
							vrt.Idle()
							if r != mr {
								x.Failf("result", "%s in %v returned %s, want %s", o, hh, r, mr)
							}
							if g := w.content(); g != fmt.Sprint(m.m) {
								x.Failf("content", "after %s in %v: %s, want %v", o, hh, g, m.m)
							}
							x.State(o, m.String())
						}
					}
					vrt.Idle()
					if g := w.content(); g != fmt.Sprint(m.m) {
						x.Failf("content", "after %v: %s, want %v", hh, g, m.m)
					}
					if l := vrt.Live(); len(l) > 0 {
						x.Failf("leak", "threads left: %v", l)
					}
				})
			}
		}
		if len(h) == depth {
			return
		}
		for _, o := range ops {
			rec(append(h[:len(h):len(h)], o))
		}
	}
	rec(nil)
	// concurrent
	cs := []regCase{
		{1, []string{"pa0"}, []string{"c0", "xa"}},
		{1, []string{"pa0"}, []string{"c0", "F"}},
		{1, []string{"pa0"}, []string{"c0", "K"}},
		{1, []string{"pa0"}, []string{"c0", "f l"}},
		{1, nil, []string{"c0", "pa0"}},
		{1, nil, []string{"c0", "pa0 xa"}},
		{2, []string{"pa0"}, []string{"c0", "pa1"}},
		{2, []string{"pa0"}, []string{"c0 c1", "pa1"}},
		{2, []string{"pa0", "pb1"}, []string{"c0 c1", "F"}},
		{2, []string{"pa0", "pb1"}, []string{"C", "F"}},
		{2, []string{"pa0", "pb1"}, []string{"C", "K"}},
		{2, []string{"pa0"}, []string{"pa1", "xa"}},
		{2, nil, []string{"pa0", "pa1"}},
		{2, nil, []string{"pa0 pb0", "c0"}},
		{2, []string{"pa0", "pb0"}, []string{"c0", "xa", "xb"}},
		{2, []string{"pa0"}, []string{"c0", "pa1", "xa"}},
		{2, []string{"pa0", "pb1"}, []string{"c0", "c1", "F"}},
		{2, []string{"pa0"}, []string{"c0", "pb1 xb", "l"}},
	}
	for _, rc := range cs {
		rc := rc
		c.Case(rc.String(), Opt{Dev: c.Q(3, 4), Split: true, Sched: true, FineDev: c.Q(2, 3)}, func(x *X) { runRegistry(x, rc) })
	}
	for _, async := range []int{0, 2} {
		for _, t := range [][]string{
			{"n", "D"}, {"n n", "D"}, {"c0", "D"}, {"c0 c1", "n c2"}, {"D", "D"}, {"n G", "c0", "D"}, {"n", "n", "G"}, {"c0", "c0", "D"}, {"s0", "D"}, {"s0 c0", "n"}, {"n", "n", "D"},
		} {
			async, t := async, t
			c.Case(fmt.Sprintf("manager queue=%d %s", async, strings.Join(t, " | ")), Opt{Dev: c.Q(2, 3), Split: true, Sched: true}, func(x *X) { runManager(x, async, t) })
		}
	}
}
