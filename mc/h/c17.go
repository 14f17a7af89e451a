package h

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C17", Level: "model_checking", Run: c17, Budget: [2]int{150, 1500},
		Rule:   "Operator calls, host requests, answers to S1F1, their absence, loss and deselection of the session are applied to the real equipment in every enumerated order; state, mode, acknowledge codes, S1F1 requests and notifications are compared with a reference of the control state model after each. Concurrent ones must end as one order of the reference explains, on every schedule within the deviation bound.",
		Assume: []string{"SwitchControlOnline in HOST_OFFLINE may be refused or attempt to go on-line; SwitchControlOffline in HOST_OFFLINE may change nothing or go to EQUIPMENT_OFFLINE", "on loss of the session ATTEMPT_ONLINE may become either off-line state and HOST_OFFLINE may stay", "an initial state that needs communication may be replaced by an off-line state until communication is established"}})
}

const (
	cEQ   = "EQUIPMENT_OFFLINE"
	cATT  = "ATTEMPT_ONLINE"
	cHOST = "HOST_OFFLINE"
	cLOC  = "ONLINE_LOCAL"
	cREM  = "ONLINE_REMOTE"
)

// ctst is a state of the reference.
type ctst struct {
	s    string
	mode string
	comm bool
	att  int // the attempt that is open, 0 if none
	next int // number of the next one
}

func (m ctst) online() bool { return m.s == cLOC || m.s == cREM }

func (m ctst) goOnline() ctst {
	m.s, m.att = "ONLINE_"+m.mode, 0
	return m
}

func (m ctst) to(s string) ctst { m.s, m.att = s, 0; return m }

func (m ctst) attempt() ctst {
	if !m.comm {
		return m.to(cHOST)
	}
	m.s = cATT
	m.att = m.next
	m.next++
	return m
}

type ctres struct {
	m   ctst
	out string // "*": any
}

// ctApply is what an event may do. Answers are "f2:k" and "f0:k" for attempt k.
func ctApply(m ctst, op string) []ctres {
	one := func(m ctst, out string) []ctres { return []ctres{{m, out}} }
	switch {
	case op == "on":
		switch m.s {
		case cEQ:
			return one(m.attempt(), "ok")
		case cHOST:
			return []ctres{{m, "err"}, {m.attempt(), "ok"}}
		}
		return one(m, "*")
	case op == "off":
		switch {
		case m.online():
			return one(m.to(cEQ), "ok")
		case m.s == cHOST:
			return []ctres{{m, "*"}, {m.to(cEQ), "ok"}}
		}
		return one(m, "*")
	case op == "local" || op == "remote":
		if !m.online() {
			return one(m, "err")
		}
		m.mode = strings.ToUpper(op)
		return one(m.goOnline(), "ok")
	case op == "15":
		if m.online() {
			m = m.to(cHOST)
		}
		return one(m, "0")
	case op == "17":
		switch {
		case m.online():
			return one(m, "2")
		case m.s == cHOST:
			return one(m.goOnline(), "0")
		}
		return one(m, "1")
	case strings.HasPrefix(op, "f2:"), strings.HasPrefix(op, "f0:"):
		k := 0
		fmt.Sscan(op[3:], &k)
		if m.s != cATT || m.att != k {
			return one(m, "*")
		}
		if op[1] == '2' {
			return one(m.goOnline(), "*")
		}
		return one(m.to(cHOST), "*")
	case op == "loss":
		if !m.comm {
			return one(m, "*")
		}
		m.comm = false
		switch {
		case m.online():
			return one(m.to(cEQ), "*")
		case m.s == cATT:
			return []ctres{{m.to(cEQ), "*"}, {m.to(cHOST), "*"}}
		case m.s == cHOST:
			return []ctres{{m, "*"}, {m.to(cEQ), "*"}}
		}
		return one(m, "*")
	case op == "comm":
		if m.comm {
			return one(m, "*")
		}
		m.comm = true
		switch m.s {
		case cEQ:
			return one(m.attempt(), "*")
		case cHOST:
			return []ctres{{m, "*"}, {m.attempt(), "*"}}
		}
		return one(m, "*")
	}
	panic(op)
}

var ctEdges = map[string]bool{
	cEQ + ">" + cATT: true, cATT + ">" + cEQ: true, cATT + ">" + cHOST: true, cATT + ">" + cLOC: true, cATT + ">" + cREM: true,
	cLOC + ">" + cEQ: true, cREM + ">" + cEQ: true, cLOC + ">" + cHOST: true, cREM + ">" + cHOST: true,
	cLOC + ">" + cREM: true, cREM + ">" + cLOC: true, cHOST + ">" + cLOC: true, cHOST + ">" + cREM: true,
	cHOST + ">" + cEQ: true, cHOST + ">" + cATT: true,
}

// ctw is an equipment with the reference of its control state.
type ctw struct {
	*gw
	m     ctst
	first string
	seen  int // notifications looked at
	f1    map[int]*wire.Frame
	modes []string
	lossy time.Duration
	sel   bool
	gone  int // attempts whose S1F1 was never seen, for want of a connection
}

func newCT(x *X, gc gcfg) *ctw {
	w := &ctw{gw: newGW(x, gc), f1: map[int]*wire.Frame{}}
	w.g.Events().ControlStateChanged.AddCallback(func(d map[string]interface{}) {
		w.modes = append(w.modes, fmt.Sprint(d["mode"]))
	})
	w.settle()
	mode := string(gc.mode)
	if mode == "" {
		mode = "REMOTE"
	}
	s := string(w.g.ControlState())
	// notifications may have been given before there was anybody to get them
	ok := map[string][]string{"": {cEQ, cATT, cHOST}, cATT: {cEQ, cATT, cHOST}, cEQ: {cEQ}, cHOST: {cHOST}, "ONLINE": {cEQ, "ONLINE_" + mode}}[string(gc.ctl)]
	found := false
	for _, o := range ok {
		found = found || o == s
	}
	if !found {
		x.Failf("initial", "state %s with the initial state %q", s, gc.ctl)
	}
	w.m = ctst{s: s, mode: mode, next: 1}
	w.first = s
	if len(w.ctl) > 0 {
		w.first = strings.Split(w.ctl[0], ">")[0]
	}
	w.look("initial", []ctst{w.m})
	return w
}

// chain checks the notifications.
func (w *ctw) chain(when string) {
	at := w.first
	for i, n := range w.ctl {
		p := strings.Split(n, ">")
		if p[0] != at || p[0] == p[1] {
			w.x.Failf("notify", "%s: notification %d is %s, after %s: %v", when, i, n, at, w.ctl)
		}
		if !ctEdges[n] {
			w.x.Failf("transition", "%s: %s", when, n)
		}
		at = p[1]
		if strings.HasPrefix(at, "ONLINE_") && w.modes[i] != at[len("ONLINE_"):] {
			w.x.Failf("notify-mode", "%s: %s with mode %s", when, n, w.modes[i])
		}
	}
	if s := string(w.g.ControlState()); s != at {
		w.x.Failf("notify", "%s: state %s, notified %v from %s", when, s, w.ctl, w.first)
	}
}

// look finds the state of the reference among those that are possible.
func (w *ctw) look(when string, ms []ctst) {
	x := w.x
	w.settle()
	for _, f := range w.take() {
		w.frame(f, when)
	}
	w.chain(when)
	s, mode := string(w.g.ControlState()), string(w.g.ControlStateMachine().OnlineMode())
	// an S1F1 belongs to each attempt that was begun while communicating
	for _, m := range ms {
		if m.s == s && m.mode == mode && len(w.f1) == m.next-1-w.gone {
			if m.s == cATT && m.comm && w.f1[m.att-w.gone] == nil {
				continue
			}
			w.m = m
			x.State(when, fmt.Sprintf("%+v", m))
			return
		}
	}
	x.Failf("state", "%s: state %s, mode %s, %d S1F1; expected one of %+v", when, s, mode, len(w.f1), ms)
}

func (w *ctw) frame(f *wire.Frame, when string) {
	switch {
	case f.SType != 0:
	case f.S() == 1 && f.F() == 1:
		if !f.W() {
			w.x.Failf("s1f1", "%v", f)
		}
		w.f1[len(w.f1)+1] = f
	case f.S() == 1 && f.F() == 13, f.S() == 9:
	default:
		w.x.Failf("unexpected", "%s: %v", when, f)
	}
}

func errOut(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}

func (w *ctw) operator(op string) error {
	switch op {
	case "on":
		return w.g.SwitchControlOnline()
	case "off":
		return w.g.SwitchControlOffline()
	case "local":
		return w.g.SwitchControlOnlineLocal()
	case "remote":
		return w.g.SwitchControlOnlineRemote()
	}
	panic(op)
}

func isOperator(op string) bool {
	return op == "on" || op == "off" || op == "local" || op == "remote"
}

// request sends S1F15 or S1F17 and returns the acknowledge code.
func (w *ctw) request(f int) string {
	w.settle()
	for _, o := range w.take() {
		w.frame(o, "request")
	}
	sys := w.data(1, f, true, nil)
	w.settle()
	ack := ""
	for _, o := range w.take() {
		if o.SType == 0 && o.Sys == sys {
			if ack != "" {
				w.x.Failf("reply", "S1F%d answered twice", f)
			}
			ack = ackOfList(w.x, o, f)
			continue
		}
		w.frame(o, "request")
	}
	if ack == "" {
		w.x.Failf("no-reply", "S1F%d not answered", f)
	}
	return ack
}

func ackOfList(x *X, o *wire.Frame, f int) string {
	if o.S() != 1 || o.F() != f+1 || o.W() || o.Item == nil {
		x.Failf("reply", "S1F%d answered by %v", f, o)
	}
	it := o.Item
	for it.F == 0 && len(it.L) == 1 {
		it = it.L[0]
	}
	if len(it.L) != 0 || len(it.Data) != 1 {
		x.Failf("reply", "S1F%d answered by %v", f, o)
	}
	return fmt.Sprint(it.Data[0])
}

func (w *ctw) selected() bool { return w.up() && w.p.CurrentState() == hstates[2] }

// lost waits until the loss must have been noticed.
func (w *ctw) lost() {
	for i := 0; i < 6; i++ {
		vrt.Sleep(cgrain)
		w.settle()
	}
}

// establish selects if necessary and sends S1F13.
func (w *ctw) establish() {
	if !w.selected() {
		w.selectNow()
	}
	w.settle()
	for _, o := range w.take() {
		w.frame(o, "establish")
	}
	sys := w.data(1, 13, true, wire.L())
	w.settle()
	n := 0
	for _, o := range w.take() {
		if o.SType == 0 && o.Sys == sys && o.F() == 14 {
			n++
			continue
		}
		w.frame(o, "establish")
	}
	if n != 1 {
		w.x.Failf("establish", "S1F13 answered %d times", n)
	}
}

func (w *ctw) answerOf(op string, f *wire.Frame) *wire.Frame {
	sess := uint16(w.cfg.sess)
	switch op {
	case "f2":
		return wire.NewData(sess, 1, 2, false, f.Sys, wire.L())
	case "f2b":
		return wire.NewData(sess, 1, 2, false, f.Sys, wire.L(wire.L()))
	case "f0":
		return wire.NewData(sess, 1, 0, false, f.Sys, nil)
	case "f4":
		return wire.NewData(sess, 1, 4, false, f.Sys, wire.L())
	case "s2":
		return wire.NewData(sess, 2, 2, false, f.Sys, wire.L())
	case "s9":
		return wire.NewData(sess, 9, 5, false, f.Sys, wire.B(0))
	case "rej":
		return wire.NewCtrl(wire.RejectReq, sess, 0, 4, f.Sys)
	}
	panic(op)
}

func outs(rs []ctres, out string) []ctst {
	var ms []ctst
	for _, r := range rs {
		if r.out == "*" || r.out == out {
			ms = append(ms, r.m)
		}
	}
	return ms
}

// op applies one event; false if it makes no sense now.
func (w *ctw) op(op string) bool {
	x := w.x
	m := w.m
	expect := func(model, out string) {
		ms := outs(ctApply(m, model), out)
		if len(ms) == 0 {
			x.Failf("answer", "%s in %s (communicating %v) answered %s", op, m.s, m.comm, out)
		}
		w.look(op, ms)
	}
	switch op {
	case "on", "off", "local", "remote":
		var err error
		w.run(op, func() { err = w.operator(op) })
		if err != nil && !errors.Is(err, gem.ErrInvalidControlTransition) {
			x.Failf("error", "%s: %v", op, err)
		}
		expect(op, errOut(err))
	case "15", "17":
		if !m.comm {
			return false
		}
		f := int(op[1]-'0') + 10
		expect(op, w.request(f))
	case "f2", "f2b", "f0", "f4", "s2", "s9", "rej":
		f := w.f1[m.att-w.gone]
		if m.att == 0 || f == nil {
			return false
		}
		w.send(w.answerOf(op, f))
		kind := "f0"
		if strings.HasPrefix(op, "f2") {
			kind = "f2"
		}
		expect(fmt.Sprintf("%s:%d", kind, m.att), "")
	case "old2", "old0": // to an attempt that is over
		k := len(w.f1)
		if m.att == k {
			k--
		}
		if k < 1 || w.f1[k] == nil || !w.selected() {
			return false
		}
		w.send(w.answerOf("f"+op[3:], w.f1[k]))
		w.look(op, []ctst{m})
	case "T3":
		for i := 0; i < w.cfg.t3*10+6; i++ {
			vrt.Sleep(cgrain)
			w.settle()
		}
		if m.att != 0 {
			expect(fmt.Sprintf("f0:%d", m.att), "")
		} else {
			w.look(op, []ctst{m})
		}
	case "drop", "sep", "desel":
		if !w.selected() {
			return false
		}
		switch op {
		case "drop":
			w.c.Shut(false)
		case "sep":
			w.send(wire.NewCtrl(wire.SeparateReq, uint16(w.cfg.sess), 0, 0, w.nextSys()))
		case "desel":
			w.send(wire.NewCtrl(wire.DeselectReq, uint16(w.cfg.sess), 0, 0, w.nextSys()))
		}
		w.lost()
		expect("loss", "")
	case "dis":
		if !m.comm {
			return false
		}
		w.finish("Disable", call("Disable", w.g.Disable))
		w.settle()
		expect("loss", "")
		w.finish("Enable", call("Enable", w.g.Enable))
	case "comm":
		if m.comm {
			return false
		}
		w.establish()
		expect("comm", "")
	default:
		panic(op)
	}
	return true
}

func (w *ctw) to(stage string) {
	for _, o := range map[string][]string{"init": nil, "attempt": {"comm"}, "online": {"comm", "f2"}, "hostoff": {"comm", "f0"}, "eqoff": {"comm", "f2", "off"}}[stage] {
		if !w.op(o) {
			w.x.Failf("harness", "stage %s", stage)
		}
	}
}

func runControl(x *X, gc gcfg, stage string, ops []string) {
	w := newCT(x, gc)
	w.finish("Enable", call("Enable", w.g.Enable))
	w.settle()
	w.to(stage)
	for _, o := range ops {
		if !w.op(o) {
			return
		}
	}
	// whatever happened, the way to ONLINE is open
	if w.m.s == cATT && w.m.comm {
		w.op("f0")
	}
	if !w.m.comm {
		w.op("comm")
		if w.m.att != 0 {
			w.op("f2")
		}
	}
	switch w.m.s {
	case cHOST:
		w.op("17")
	case cEQ:
		w.op("on")
		w.op("f2")
	}
	if !w.m.online() {
		x.Failf("stuck", "not on line: %+v", w.m)
	}
	w.op("local")
	w.op("remote")
}

// runControlInit goes through the initial configurations.
func runControlInit(x *X, gc gcfg, ops []string) {
	w := newCT(x, gc)
	for _, o := range ops {
		w.op(o)
	}
	w.finish("Enable", call("Enable", w.g.Enable))
	w.settle()
	if !w.op("comm") {
		x.Failf("harness", "comm")
	}
	if w.m.s == cATT {
		w.op("f2")
	} else if w.m.s == cHOST {
		w.op("17")
	}
	if !w.m.online() {
		x.Failf("stuck", "not on line: %+v", w.m)
	}
}

// explain finds the orders of the events that the outcome agrees with.
func explain(m ctst, ops []string, got map[int]string, used []bool, out *[]ctst) {
	all := true
	for i, o := range ops {
		if used[i] {
			continue
		}
		all = false
		if o == "f2" || o == "f0" {
			o += ":1"
		}
		if o == "drop" || o == "desel" || o == "sep" || o == "dis" {
			o = "loss"
		}
		for _, r := range ctApply(m, o) {
			if g, ok := got[i]; ok && r.out != "*" && r.out != g {
				continue
			}
			used[i] = true
			explain(r.m, ops, got, used, out)
			used[i] = false
		}
	}
	if all {
		*out = append(*out, m)
	}
}

// runControlRace explores events that come together.
func runControlRace(x *X, gc gcfg, stage string, ops []string, t3 bool) {
	w := newCT(x, gc)
	w.finish("Enable", call("Enable", w.g.Enable))
	w.settle()
	if stage == "online2" { // on line after an earlier attempt
		stage = "online"
	}
	w.to(stage)
	f1 := w.f1[1]
	m := w.m
	sess := uint16(gc.sess)
	got := map[int]string{}
	var calls []*bool
	sys := map[uint32]int{}
	mayLose := map[int]bool{}
	gone := false
	if t3 { // the wait for the answer to S1F1 is about to end
		vrt.Sleep(time.Duration(gc.t3)*sec - 50*time.Millisecond)
		w.settle()
	}
	for _, o := range w.take() {
		w.frame(o, "race")
	}
	vrt.Explore(true)
	if t3 {
		vrt.Sleep(50 * time.Millisecond)
	}
	for i, o := range ops {
		i, o := i, o
		switch {
		case isOperator(o):
			calls = append(calls, call(o, func() { got[i] = errOut(w.operator(o)) }))
		case o == "15" || o == "17":
			sys[w.data(1, int(o[1]-'0')+10, true, nil)] = i
			if gone {
				mayLose[i] = true
			}
		case o == "f2" || o == "f0":
			w.send(w.answerOf(o, f1))
		case o == "drop":
			w.c.Shut(false)
			gone = true
		case o == "desel":
			w.send(wire.NewCtrl(wire.DeselectReq, sess, 0, 0, w.nextSys()))
			gone = true
		case o == "dis":
			calls = append(calls, call("Disable", w.g.Disable))
			gone = true
		}
	}
	w.settle()
	vrt.Explore(false)
	w.finish(strings.Join(ops, "‖"), calls...)
	take := func() {
		for _, f := range w.take() {
			if i, ok := sys[f.Sys]; ok && f.SType == 0 {
				if got[i] != "" {
					x.Failf("reply", "%s answered twice", ops[i])
				}
				got[i] = ackOfList(x, f, int(ops[i][1]-'0')+10)
				continue
			}
			w.frame(f, "race")
		}
	}
	take()
	w.lost()
	take()
	run := ops
	if gone || t3 {
		// what was not answered was not handled, or was, before the loss
		run = append([]string{}, ops...)
	}
	var opt [][]string
	opt = append(opt, run)
	for i, o := range run {
		if (o == "15" || o == "17") && got[i] == "" {
			if !gone {
				x.Failf("no-reply", "S1F%s not answered", o)
			}
		}
	}
	if t3 {
		opt = append(opt, append(append([]string{}, run...), "f0"))
	}
	var ms []ctst
	for _, l := range opt {
		// subsets without the requests that were not answered, and without
		// an answer that came too late
		var idx []int
		for i, o := range l {
			if (o == "15" || o == "17") && got[i] == "" || gone && (o == "f2" || o == "f0") {
				idx = append(idx, i)
			}
		}
		for b := 0; b < 1<<len(idx); b++ {
			used := make([]bool, len(l))
			for j, i := range idx {
				used[i] = b>>j&1 == 1
			}
			g := map[int]string{}
			for k, v := range got {
				if v != "" {
					g[k] = v
				}
			}
			explain(m, l, g, used, &ms)
		}
	}
	if len(ms) == 0 {
		x.Failf("answer", "%s from %s answered %v", strings.Join(ops, "‖"), m.s, got)
	}
	// an attempt begun while the loss was not noticed yet may or may not ask
	w.chain("race")
	s, mode := string(w.g.ControlState()), string(w.g.ControlStateMachine().OnlineMode())
	ok := false
	for _, e := range ms {
		if e.s == s && e.mode == mode {
			ok = true
			w.m = e
			if !gone && len(w.f1) != e.next-1 {
				ok = false
				continue
			}
			break
		}
	}
	if !ok {
		x.Failf("state", "%s from %s: state %s, mode %s, %d S1F1, answers %v; expected one of %+v", strings.Join(ops, "‖"), m.s, s, mode, len(w.f1), got, ms)
	}
	var as []string
	for i := range ops {
		as = append(as, got[i])
	}
	x.Outcome("%s %s %v", s, mode, as)
	// it goes on from there
	w.gone = w.m.next - 1 - len(w.f1)
	if !w.m.comm {
		found := false
		for _, o := range ops {
			found = found || o == "dis"
		}
		if found {
			w.finish("Enable", call("Enable", w.g.Enable))
		}
		if !w.op("comm") {
			x.Failf("harness", "comm")
		}
	}
	if w.m.s == cATT {
		w.op("f2")
	}
	switch w.m.s {
	case cHOST:
		w.op("17")
	case cEQ:
		w.op("on")
		w.op("f2")
	}
	if !w.m.online() {
		x.Failf("stuck", "not on line: %+v", w.m)
	}
	w.op("local")
	w.op("15")
	w.op("17")
}

// runControlCallback: the observer of a change calls back.
func runControlCallback(x *X, gc gcfg, stage, trigger, on, op string) {
	w := newCT(x, gc)
	w.finish("Enable", call("Enable", w.g.Enable))
	w.settle()
	w.to(stage)
	m := w.m
	fired := false
	res := ""
	w.g.Events().ControlStateChanged.AddCallback(func(d map[string]interface{}) {
		if !fired && fmt.Sprint(d["current"]) == on {
			fired = true
			res = errOut(w.operator(op))
		}
	})
	var trig []ctres
	switch {
	case isOperator(trigger):
		var err error
		w.run(trigger, func() { err = w.operator(trigger) })
		trig = ctApply(m, trigger)
		_ = err
	case trigger == "15", trigger == "17":
		sys := w.data(1, int(trigger[1]-'0')+10, true, nil)
		w.settle()
		n := 0
		for _, f := range w.take() {
			if f.SType == 0 && f.Sys == sys {
				n++
			} else {
				w.frame(f, "callback")
			}
		}
		if n != 1 {
			x.Failf("no-reply", "S1F%s answered %d times", trigger, n)
		}
		trig = ctApply(m, trigger)
	case trigger == "f2", trigger == "f0":
		w.send(w.answerOf(trigger, w.f1[m.att]))
		trig = ctApply(m, fmt.Sprintf("%s:%d", trigger, m.att))
	}
	w.settle()
	var ms []ctst
	for _, t := range trig {
		if !fired {
			ms = append(ms, t.m)
			continue
		}
		// the call came at the state it was told of, or after the trigger was through
		at := t.m
		at.s = on
		ms = append(ms, outs(ctApply(at, op), res)...)
		ms = append(ms, outs(ctApply(t.m, op), res)...)
	}
	w.look(fmt.Sprintf("%s with %s at %s", trigger, op, on), ms)
}

// runMachine applies calls to the state machine itself.
func runMachine(x *X, init gem.ControlState, mode gem.OnlineControlMode, ops []int) {
	sm := gem.NewControlStateMachine(gem.ControlStateMachineOptions{InitialState: init, InitialOnlineMode: mode})
	m := string(mode)
	if m == "" {
		m = "REMOTE"
	}
	s := string(init)
	if s == "ONLINE" {
		s = "ONLINE_" + m
	} else if s == "" {
		s = cATT
	}
	check := func(when string) {
		if string(sm.State()) != s || string(sm.OnlineMode()) != m || sm.IsOnlineState() != strings.HasPrefix(s, "ONLINE_") {
			x.Bad("machine", "%s: %s %s online=%v, expected %s %s", when, sm.State(), sm.OnlineMode(), sm.IsOnlineState(), s, m)
		}
	}
	check("initial")
	for _, o := range ops {
		c := machineCalls[o]
		err := c.f(sm)
		src, dst := false, false
		for _, a := range strings.Fields(c.from) {
			src = src || a == s || a == "ONLINE" && strings.HasPrefix(s, "ONLINE_")
		}
		to := c.to
		if to == "ONLINE" {
			to = "ONLINE_" + m
		}
		dst = s == to || c.to == "ONLINE" && strings.HasPrefix(s, "ONLINE_")
		switch {
		case src:
			if err != nil {
				x.Bad("machine", "%s in %s: %v", c.name, s, err)
			}
			s = to
			if c.mode != "" {
				m = c.mode
			}
		case dst:
			// nothing to do
			if c.mode != "" {
				m = c.mode
			}
		default:
			if !errors.Is(err, gem.ErrInvalidControlTransition) {
				x.Bad("machine", "%s in %s: error %v", c.name, s, err)
			}
		}
		check(c.name)
		x.State(c.name, s+m)
	}
}

type machineCall struct {
	name, from, to, mode string
	f                    func(sm *gem.ControlStateMachine) error
}

var machineCalls = []machineCall{
	{"SwitchOnline", cEQ, cATT, "", (*gem.ControlStateMachine).SwitchOnline},
	{"SwitchOffline", "ONLINE", cEQ, "", (*gem.ControlStateMachine).SwitchOffline},
	{"SwitchOnlineLocal", cREM, cLOC, "LOCAL", (*gem.ControlStateMachine).SwitchOnlineLocal},
	{"SwitchOnlineRemote", cLOC, cREM, "REMOTE", (*gem.ControlStateMachine).SwitchOnlineRemote},
	{"AttemptOnlineFailEquipmentOffline", cATT, cEQ, "", (*gem.ControlStateMachine).AttemptOnlineFailEquipmentOffline},
	{"AttemptOnlineFailHostOffline", cATT, cHOST, "", (*gem.ControlStateMachine).AttemptOnlineFailHostOffline},
	{"AttemptOnlineSuccess", cATT, "ONLINE", "", (*gem.ControlStateMachine).AttemptOnlineSuccess},
	{"RemoteOffline", "ONLINE", cHOST, "", (*gem.ControlStateMachine).RemoteOffline},
	{"RemoteOnline", cHOST, "ONLINE", "", (*gem.ControlStateMachine).RemoteOnline},
	{"Start", "", "", "", func(sm *gem.ControlStateMachine) error { sm.Start(); return gem.ErrInvalidControlTransition }},
}

func ctCfg(mode gem.OnlineControlMode, ctl gem.ControlState, active bool) gcfg {
	g := gcfgDefault
	g.t3 = 2
	g.mode, g.ctl, g.active = mode, ctl, active
	g.estab = 30 * sec
	return g
}

func c17(c *C) {
	inits := []gem.ControlState{"", gem.ControlStateEquipmentOffline, gem.ControlStateAttemptOnline, gem.ControlStateHostOffline, gem.ControlStateOnline}
	modes := []gem.OnlineControlMode{gem.OnlineModeRemote, gem.OnlineModeLocal, ""}
	// the machine
	for _, in := range inits {
		for _, mo := range modes {
			in, mo := in, mo
			c.Case(fmt.Sprintf("machine %s %s", in, mo), Opt{MaxSteps: 1 << 25}, func(x *X) {
				for d := 1; d <= c.Q(4, 5); d++ {
					seqs(len(machineCalls), d, func(ix []int) {
						id := fmt.Sprint(ix)
						x.Eval(string(in)+string(mo)+id, true)
						x.Try(id, func() { runMachine(x, in, mo, ix) })
					})
				}
			})
		}
	}
	// initial configurations
	opsBefore := []string{"on", "off", "local", "remote"}
	for _, in := range inits {
		for _, mo := range modes {
			for _, ac := range []bool{false, true} {
				gc := ctCfg(mo, in, ac)
				for d := 0; d <= c.Q(2, 3); d++ {
					seqs0(len(opsBefore), d, func(ix []int) {
						ops := pick(opsBefore, ix)
						c.Case(fmt.Sprintf("initial %v %q %q: %s", gc, in, mo, strings.Join(ops, " ")), Opt{}, func(x *X) { runControlInit(x, gc, ops) })
					})
				}
			}
		}
	}
	// histories
	all := []string{"on", "off", "local", "remote", "15", "17", "f2", "f2b", "f0", "f4", "s2", "s9", "rej", "old2", "old0", "T3", "drop", "sep", "desel", "dis", "comm"}
	few := []string{"on", "off", "local", "remote", "15", "17", "f2", "f0", "old2", "old0", "T3", "desel", "drop", "comm"}
	for _, mo := range modes[:2] {
		gc := ctCfg(mo, gem.ControlStateEquipmentOffline, false)
		for _, st := range []string{"init", "attempt", "online", "hostoff", "eqoff"} {
			st := st
			for d := 1; d <= 3; d++ {
				seqs(len(all), d, func(ix []int) {
					ops := pick(all, ix)
					c.Case(fmt.Sprintf("history %v %s %s: %s", gc, mo, st, strings.Join(ops, " ")), Opt{}, func(x *X) { runControl(x, gc, st, ops) })
				})
			}
			if st == "init" || st == "attempt" || c.Thorough {
				for d := 4; d <= c.Q(4, 5); d++ {
					seqs(len(few), d, func(ix []int) {
						ops := pick(few, ix)
						c.Case(fmt.Sprintf("history %v %s %s: %s", gc, mo, st, strings.Join(ops, " ")), Opt{}, func(x *X) { runControl(x, gc, st, ops) })
					})
				}
			}
		}
	}
	// callbacks
	for _, st := range []string{"attempt", "online", "hostoff", "eqoff"} {
		for _, tr := range []string{"on", "off", "local", "remote", "15", "17", "f2", "f0"} {
			if (tr == "f2" || tr == "f0") != (st == "attempt") {
				continue
			}
			for _, on := range []string{cEQ, cATT, cHOST, cLOC, cREM} {
				for _, op := range opsBefore {
					st, tr, on, op := st, tr, on, op
					gc := ctCfg(gem.OnlineModeRemote, gem.ControlStateEquipmentOffline, false)
					c.Case(fmt.Sprintf("callback %s %s: %s at %s", st, tr, op, on), Opt{}, func(x *X) { runControlCallback(x, gc, st, tr, on, op) })
				}
			}
		}
	}
	// races
	deep := map[string]bool{}
	for _, s := range []string{"off 15", "15 off", "off 17", "local 15", "local off", "17 off", "17 local", "17 17", "15 15", "on on", "f2 drop", "f2 desel", "f0 on", "on 15", "f2 15", "off dis"} {
		deep[s] = true
	}
	evs := []string{"on", "off", "local", "remote", "15", "17", "f2", "f0", "drop", "desel", "dis"}
	for _, mo := range modes[:2] {
		gc := ctCfg(mo, gem.ControlStateEquipmentOffline, false)
		for _, st := range []string{"attempt", "online", "hostoff", "eqoff"} {
			var sets [][]string
			for i, a := range evs {
				for j, b := range evs {
					sets = append(sets, []string{a, b})
					if c.Thorough && i <= j {
						for _, d := range evs {
							sets = append(sets, []string{a, b, d})
						}
					}
				}
			}
			sets = append(sets, []string{"off", "on", "15"}, []string{"off", "on", "17"}, []string{"local", "remote", "15"}, []string{"15", "17", "off"}, []string{"15", "off", "on"}, []string{"17", "local", "15"})
			for _, s := range sets {
				s := s
				n := map[string]int{}
				for _, e := range s {
					n[e]++
				}
				if n["f2"]+n["f0"] > 1 || (n["f2"]+n["f0"] > 0) != (st == "attempt") && n["f2"]+n["f0"] > 0 || n["drop"]+n["desel"]+n["dis"] > 1 {
					continue
				}
				if s[0] == "drop" && (n["15"]+n["17"]+n["f2"]+n["f0"] > 0) { // nothing comes over a closed link
					continue
				}
				dev := c.Q(1, 2)
				if deep[strings.Join(s, " ")] && mo == gem.OnlineModeRemote {
					dev = c.Q(2, 3)
				}
				c.Case(fmt.Sprintf("race %s %s: %s", mo, st, strings.Join(s, "‖")), Opt{Dev: dev, Split: true}, func(x *X) { runControlRace(x, gc, st, s, false) })
				if st == "attempt" && len(s) == 2 && n["f0"] == 0 {
					c.Case(fmt.Sprintf("race %s T3: %s", mo, strings.Join(s, "‖")), Opt{Dev: dev, Split: true}, func(x *X) { runControlRace(x, gc, st, s, true) })
				}
			}
		}
	}
}

// seqs0 is seqs, with the empty sequence.
func seqs0(k, n int, f func([]int)) {
	if n == 0 {
		f(nil)
		return
	}
	seqs(k, n, f)
}

var _ = sort.Strings

// run makes a call that does not have to wait.
func (w *ctw) run(name string, f func()) {
	done := call(name, f)
	w.settle()
	w.finish(name, done)
}
