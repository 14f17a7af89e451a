package h

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C16", Level: "model_checking", Run: c16, Budget: [2]int{150, 1500},
		Rule:   "The communication state, the S1F13 attempts and their times, the notifications and the waiters of the real handler are compared, at rest after every event and every 100 ms of simulated time, with a reference of the establishment rules; races of answers, the peer's S1F13, timers, loss, deselection and disabling are explored to the deviation bound and must end in a state that one order explains, from which communication is established again.",
		Assume: []string{"an unsolicited S1F14 that accepts may or may not establish communication", "loss, deselection and selection may take one tick (500 ms) to be noticed", "COMMACK is read from the forms <L <B n> ...>; other bodies of S1F14 than the standard ones, the listed malformed ones and the refusals are not judged"}})
}

const ctick = 500 * time.Millisecond
const cgrain = 100 * time.Millisecond

// estw is a GEM endpoint with the reference of its communication state.
type estw struct {
	*gw
	t3, estab time.Duration

	comm    bool
	coms    int
	sel     bool
	loose   bool          // comm may hold or not
	lost    time.Duration // since when it may still say COMMUNICATING
	selAt   time.Duration
	retryAt time.Duration
	pend    *wire.Frame
	pendAt  time.Duration
	open    map[uint32]time.Duration // S1F13 without an answer, of this connection
	openF   []*wire.Frame
	since   []time.Duration // when COMMUNICATING was entered
	waits   []*estwait
	strict  bool
	tries   int
}

type estwait struct {
	from, until time.Duration // until < 0: for ever
	already     bool          // may succeed at once
	done, res   *bool
	seen        bool
}

func newEst(x *X, gc gcfg) *estw {
	w := &estw{gw: newGW(x, gc), t3: time.Duration(gc.t3) * sec, estab: gc.estab, open: map[uint32]time.Duration{}, strict: true}
	w.off = true
	w.lost = -1
	return w
}

func (w *estw) enter() {
	if !w.comm {
		w.comm = true
		w.coms++
		w.since = append(w.since, vrt.Now())
	}
	w.pend = nil
	w.loose = false
}

func (w *estw) leave() {
	if w.comm || w.loose {
		w.lost = vrt.Now()
	}
	w.comm = false
	w.loose = false
	w.pend = nil
	w.open = map[uint32]time.Duration{}
	w.openF = nil
	w.sel = false
	w.retryAt = 0
}

func (w *estw) fail() { // the current attempt failed now
	w.pend = nil
	w.retryAt = vrt.Now() + w.estab
}

// took looks at what the endpoint sent.
func (w *estw) took() {
	for _, f := range w.take() {
		now := vrt.Now()
		switch {
		case f.SType == wire.SelectReq || f.SType == wire.SelectRsp || f.SType == wire.DeselectReq || f.SType == wire.DeselectRsp || f.SType == wire.SeparateReq:
		case f.SType != 0:
			w.x.Failf("unexpected", "%v", f)
		case f.S() == 1 && f.F() == 13:
			w.tries++
			if !f.W() || f.Item == nil || f.Item.F != 0 {
				w.x.Failf("s1f13", "malformed %v", f)
			}
			if w.strict {
				switch {
				case w.off || !w.sel:
					w.x.Failf("attempt", "%v while disabled or not selected", f)
				case w.comm:
					w.x.Failf("attempt", "%v while communicating", f)
				case w.pend != nil:
					w.x.Failf("attempt", "%v while %v waits for its answer", f, w.pend)
				case now < w.retryAt:
					w.x.Failf("early", "%v %v before the delay of %v is over", f, w.retryAt-now, w.estab)
				}
			}
			if w.loose {
				w.comm = false
				w.loose = false
			}
			w.pend, w.pendAt = f, now
			w.open[f.Sys] = now
			w.openF = append(w.openF, f)
		case f.S() == 1 && f.F() == 1 && f.W() && !w.gc.host:
			if !w.comm && !w.loose && w.strict {
				w.x.Failf("s1f1", "%v while not communicating", f)
			}
			w.reply(f, wire.L())
			w.settle()
		case f.S() == 9 && f.F() == 9:
		default:
			w.x.Failf("unexpected", "%v", f)
		}
	}
}

// look compares with the reference, at rest.
func (w *estw) look(when string) {
	w.settle()
	for i := 0; i < 20 && len(w.out) > 0; i++ {
		w.took()
		w.settle()
	}
	now := vrt.Now()
	if w.pend != nil && now >= w.pendAt+w.t3 {
		w.pend = nil
		w.retryAt = w.pendAt + w.t3 + w.estab
	}
	for s, at := range w.open {
		if now > at+w.t3 {
			delete(w.open, s)
		}
	}
	st := w.g.State()
	is := st == gem.CommunicationStateCommunicating
	x := w.x
	if w.loose {
		if is {
			if w.com == w.coms+1 {
				w.enter()
			} else {
				x.Failf("notify", "%s: entered COMMUNICATING, %d notifications instead of %d", when, w.com, w.coms+1)
			}
		}
	} else if is != w.comm {
		switch {
		case w.comm:
			x.Failf("not-communicating", "%s: state %v instead of COMMUNICATING", when, st)
		case w.lost < 0 || now > w.lost+ctick:
			x.Failf("communicating", "%s: COMMUNICATING without an exchange in this session", when)
		}
	}
	if w.com != w.coms {
		x.Failf("notify", "%s: %d notifications of COMMUNICATING, entered %d times", when, w.com, w.coms)
	}
	if !w.off && w.sel && !w.comm && !w.loose && w.pend == nil {
		due := w.selAt
		if w.retryAt > due {
			due = w.retryAt
		}
		if now > due+ctick+cgrain {
			x.Failf("no-attempt", "%s: no S1F13 %v after it was due", when, now-due)
		}
	}
	for i, a := range w.waits {
		if a.seen {
			continue
		}
		want := a.already
		for _, t := range w.since {
			want = want || t >= a.from && (a.until < 0 || t < a.until)
		}
		if !*a.done {
			if want && !a.already || a.until >= 0 && now > a.until {
				x.Failf("waiter", "%s: waiter %d has not returned", when, i)
			}
			continue
		}
		a.seen = true
		if *a.res && !want {
			x.Failf("waiter", "%s: waiter %d returned true without communication", when, i)
		}
		if !*a.res && (want && !a.already || a.until < 0 || now < a.until) {
			x.Failf("waiter", "%s: waiter %d returned false at %v (until %v)", when, i, now, a.until)
		}
	}
	x.State(when, fmt.Sprintf("%v %v %v %v %v", st, w.off, w.sel, w.pend != nil, w.g.ControlState()))
}

func (w *estw) pass(d time.Duration) {
	end := vrt.Now() + d
	for vrt.Now() < end {
		vrt.Sleep(cgrain - vrt.Now()%cgrain)
		w.look("later")
	}
}

func (w *estw) addWait(d time.Duration) {
	a := &estwait{from: vrt.Now(), until: vrt.Now() + d, done: new(bool), res: new(bool)}
	if d <= 0 {
		a.until = -1
	}
	a.already = w.comm || w.loose || w.lost >= 0 && vrt.Now() <= w.lost+ctick
	if w.comm {
		// it is there already
		a.from = 0
	}
	w.waits = append(w.waits, a)
	vrt.GoApp("WaitForCommunicating", func() {
		*a.res = w.g.WaitForCommunicating(d)
		*a.done = true
	})
}

var badAcks = []*wire.Item{nil, wire.L(), wire.L(wire.L()), wire.L(wire.B()), wire.L(wire.A("0")), wire.A("0"), wire.L(wire.L(), wire.B(0))}

// answer replies to the S1F13 that is open.
func (w *estw) answer(it *wire.Item) bool {
	if len(w.openF) == 0 {
		return false
	}
	f := w.openF[0]
	w.openF = w.openF[1:]
	w.reply(f, it)
	return true
}

// op applies an event; false if it makes no sense now.
func (w *estw) op(o string) bool {
	now := vrt.Now()
	switch o {
	case "sel":
		if w.off || w.sel {
			return false
		}
		w.mayConnect()
		w.sel, w.selAt = true, vrt.Now()
	case "13":
		if !w.sel {
			return false
		}
		sys := w.data(1, 13, true, wire.L())
		w.settle()
		var rest []*wire.Frame
		n := 0
		for _, f := range w.take() {
			if f.SType == 0 && f.S() == 1 && f.F() == 14 {
				if f.Sys != sys || f.Item == nil || len(f.Item.L) != 2 || !wire.Equal(f.Item.L[0], wire.B(0)) {
					w.x.Failf("s1f14", "S1F13 answered by %v", f)
				}
				n++
				continue
			}
			rest = append(rest, f)
		}
		if n != 1 {
			w.x.Failf("s1f14", "S1F13 answered %d times", n)
		}
		w.out = append(rest, w.out...)
		w.enter()
	case "a0", "a1", "am":
		if !w.sel || w.pend == nil {
			return false
		}
		if len(w.openF) == 0 || w.openF[0] != w.pend {
			// older ones have timed out
			w.openF = []*wire.Frame{w.pend}
		}
		switch o {
		case "a0":
			w.answer(wire.L(wire.B(0), wire.L()))
			w.enter()
		case "a1":
			w.answer(wire.L(wire.B(1), wire.L()))
			w.fail()
		case "am":
			w.answer(wire.L())
			w.fail()
		}
	case "late0", "late1": // to an S1F13 that does not wait any more
		if !w.sel || len(w.openF) == 0 || w.openF[0] == w.pend {
			return false
		}
		_, still := w.open[w.openF[0].Sys]
		if o == "late0" {
			w.answer(wire.L(wire.B(0), wire.L()))
			if !w.comm && !still {
				w.loose = true
			}
		} else {
			w.answer(wire.L(wire.B(1), wire.L()))
		}
	case "u1":
		if !w.sel {
			return false
		}
		w.data(1, 14, false, wire.L(wire.B(1), wire.L()))
	case "drop":
		if !w.up() {
			return false
		}
		w.c.Shut(false)
		w.leave()
	case "sep":
		if !w.up() {
			return false
		}
		w.send(wire.NewCtrl(wire.SeparateReq, uint16(w.cfg.sess), 0, 0, w.nextSys()))
		w.leave()
	case "desel":
		if !w.sel {
			return false
		}
		w.send(wire.NewCtrl(wire.DeselectReq, uint16(w.cfg.sess), 0, 0, w.nextSys()))
		w.leave()
	case "off":
		if w.off {
			return false
		}
		w.disable()
	case "on":
		if !w.off {
			return false
		}
		w.finish("Enable", call("Enable", w.g.Enable))
		w.off = false
	case "w":
		w.pass(600 * time.Millisecond)
	case "W":
		w.pass(w.t3 + 100*time.Millisecond)
	case "E":
		w.pass(w.estab + 100*time.Millisecond)
	case "wt":
		w.addWait(1050 * time.Millisecond)
	case "wT":
		w.addWait(0)
	default:
		panic(o)
	}
	_ = now
	if w.up() && !w.sel && !w.off && o != "desel" {
		// the link may be gone by now
	}
	w.look(o)
	return true
}

// disable must end COMMUNICATING at once, not only when it returns.
func (w *estw) disable() {
	w.leave()
	w.off = true
	strict := w.strict
	w.strict = false
	w.onFrame = func(f *wire.Frame) {
		if f.SType == wire.DeselectReq {
			w.send(wire.NewCtrl(wire.DeselectRsp, f.Session, 0, 0, f.Sys))
		}
	}
	w.finish("Disable", call("Disable", w.g.Disable))
	w.settle()
	w.onFrame = nil
	w.took()
	w.strict = strict
	w.leave()
	w.lost = -1
	w.look("off")
}

// mayConnect selects, which may take the endpoint some time.
func (w *estw) mayConnect() {
	w.selectKeep()
}

// selectKeep is selectNow, looking at the state meanwhile.
func (w *estw) selectKeep() {
	for i := 0; i < 1000; i++ {
		if w.cfg.active {
			if w.up() && w.selOpen {
				break
			}
		} else if w.up() || w.connect() {
			break
		}
		vrt.Sleep(cgrain - vrt.Now()%cgrain)
		w.settle()
	}
	w.settle()
	w.look("connecting")
	keep := w.out
	w.out = nil
	w.selectNow()
	_ = keep
}

// recover establishes communication again, by the endpoint's own attempt.
func (w *estw) recover() {
	if w.off {
		w.op("on")
	}
	if !w.sel {
		w.op("sel")
	}
	if !w.comm {
		for i := 0; i < 600 && w.pend == nil && !w.comm; i++ {
			w.pass(cgrain)
		}
		if !w.comm {
			w.op("a0")
		}
	}
	w.pass(700 * time.Millisecond)
	w.addWait(0)
	w.look("waiter")
}

func (w *estw) stage(s string) {
	switch s {
	case "off":
	case "sel":
		w.op("on")
		w.op("sel")
	case "pend":
		w.op("on")
		w.op("sel")
		w.op("w")
		if w.pend == nil && !w.comm {
			w.x.Failf("no-attempt", "no S1F13 within 600 ms of the selection")
		}
	case "delay":
		w.stage("pend")
		w.op("a1")
	case "comm":
		w.stage("pend")
		w.op("a0")
	default:
		panic(s)
	}
}

func runComm(x *X, gc gcfg, stage string, ops []string) {
	w := newEst(x, gc)
	w.stage(stage)
	for _, o := range ops {
		if !w.op(o) {
			return
		}
		if o == "sep" || o == "drop" {
			w.settle()
		}
	}
	w.recover()
	w.op("drop")
	w.pass(700 * time.Millisecond)
}

// runAnswers answers successive attempts.
func runAnswers(x *X, gc gcfg, answers []func(w *estw) bool) {
	w := newEst(x, gc)
	w.op("on")
	w.op("sel")
	for _, a := range answers {
		for i := 0; i < 600 && w.pend == nil; i++ {
			w.pass(cgrain)
		}
		if w.pend == nil {
			x.Failf("no-attempt", "no S1F13")
		}
		w.openF = []*wire.Frame{w.pend}
		if a(w) {
			w.fail()
		}
		w.look("answer")
		if w.comm {
			x.Failf("communicating", "without acceptance")
		}
	}
	w.recover()
}

// runLongWaits: attempts without an answer, one refused at the last moment and
// one accepted at the last moment.
func runLongWaits(x *X, gc gcfg) {
	w := newEst(x, gc)
	w.op("on")
	w.op("sel")
	attempt := func() {
		for end := vrt.Now() + w.t3 + w.estab + 5*sec; w.pend == nil && vrt.Now() < end; {
			w.pass(cgrain)
		}
		if w.pend == nil {
			x.Failf("no-attempt", "no S1F13")
		}
	}
	attempt()
	w.pass(w.t3 + 100*time.Millisecond)
	attempt()
	w.pass(w.t3 - sec)
	w.op("a1")
	attempt()
	w.pass(w.t3 - sec)
	w.op("a0")
	if !w.comm {
		x.Failf("not-communicating", "accepted within T3")
	}
	w.pass(20 * sec)
}

// answerForms are the ways not to accept; each tells whether the attempt ended.
func answerForms() map[string]func(w *estw) bool {
	m := map[string]func(w *estw) bool{
		"silence": func(w *estw) bool { return false },
		"S1F0": func(w *estw) bool {
			w.send(wire.NewData(uint16(w.cfg.sess), 1, 0, false, w.pend.Sys, nil))
			return true
		},
		"S1F2": func(w *estw) bool {
			w.send(wire.NewData(uint16(w.cfg.sess), 1, 2, false, w.pend.Sys, wire.L(wire.B(0), wire.L())))
			return true
		},
		"S2F14": func(w *estw) bool {
			w.send(wire.NewData(uint16(w.cfg.sess), 2, 14, false, w.pend.Sys, wire.L(wire.B(0), wire.L())))
			return true
		},
		"reject": func(w *estw) bool {
			w.send(wire.NewCtrl(wire.RejectReq, uint16(w.cfg.sess), 0, 4, w.pend.Sys))
			return true
		},
	}
	for _, f := range []int{1, 3, 5, 7, 11} {
		f := f
		m[fmt.Sprintf("S9F%d", f)] = func(w *estw) bool {
			w.send(wire.NewData(uint16(w.cfg.sess), 9, f, false, w.pend.Sys, wire.B(0)))
			return true
		}
	}
	for i, it := range badAcks {
		it := it
		m[fmt.Sprintf("bad%d", i)] = func(w *estw) bool { return w.answer(it) }
	}
	for k := 1; k < 256; k++ {
		k := k
		m[fmt.Sprintf("ack%d", k)] = func(w *estw) bool { return w.answer(wire.L(wire.B(byte(k)), wire.L())) }
	}
	return m
}

// runCommRace explores events that come together.
func runCommRace(x *X, gc gcfg, stage string, evs []string) {
	w := newEst(x, gc)
	sleep := time.Duration(0)
	switch stage {
	case "cra": // T3 is about to end
		w.stage("pend")
		sleep = w.pendAt + w.t3 - vrt.Now()
	case "retry": // the delay is about to end
		w.stage("delay")
		sleep = w.retryAt - vrt.Now()
	case "tick":
		w.op("on")
		w.op("sel")
		sleep = ctick - (vrt.Now())%ctick
	case "commtick":
		w.stage("comm")
		w.pass(ctick - (vrt.Now())%ctick - cgrain)
		sleep = ctick - (vrt.Now())%ctick
	default:
		w.stage(stage)
	}
	if sleep > cgrain {
		vrt.Sleep(sleep - cgrain)
		w.settle()
		sleep = cgrain
		w.took()
	}
	w.look("stage")
	p := w.pend
	had := w.comm
	coms := w.coms
	sess := uint16(gc.sess)
	var wres, wdone *bool
	off, lost, again, accepted, mayAccept := false, false, false, false, false
	var calls []*bool
	w.onFrame = func(f *wire.Frame) {
		if f.SType == wire.DeselectReq {
			w.send(wire.NewCtrl(wire.DeselectRsp, f.Session, 0, 0, f.Sys))
		}
	}
	w.strict = false
	vrt.Explore(true)
	if sleep > 0 {
		vrt.Sleep(sleep)
	}
	for _, e := range evs {
		switch e {
		case "13":
			if lost && !again || off {
				mayAccept = true
			} else {
				accepted = true
			}
			w.data(1, 13, true, wire.L())
		case "a0", "a1":
			k := int(e[1] - '0')
			if p != nil {
				w.reply(p, wire.L(wire.B(byte(k)), wire.L()))
				if k == 0 && again { // nobody has asked in this session
				} else if k == 0 && (lost || off || stage == "cra") {
					mayAccept = true
				} else if k == 0 {
					accepted = true
				}
			}
		case "drop":
			w.c.Shut(false)
			lost, again = true, false
		case "sep":
			w.send(wire.NewCtrl(wire.SeparateReq, sess, 0, 0, w.nextSys()))
			lost, again = true, false
		case "desel":
			w.send(wire.NewCtrl(wire.DeselectReq, sess, 0, 0, w.nextSys()))
			lost, again = true, false
		case "resel": // after the loss has been seen
			w.settle()
			if w.up() && w.p.CurrentState() == hstates[1] {
				w.send(wire.NewCtrl(wire.SelectReq, sess, 0, 0, w.nextSys()))
			} else if !gc.active {
				for i := 0; i < 3 && !w.connect(); i++ {
					w.settle()
				}
				w.send(wire.NewCtrl(wire.SelectReq, sess, 0, 0, w.nextSys()))
			} else {
				for i := 0; i < 1000 && !(w.up() && w.selOpen); i++ {
					vrt.Sleep(cgrain)
					w.settle()
				}
				w.send(wire.NewCtrl(wire.SelectRsp, sess, 0, 0, w.selSys))
				w.selOpen = false
			}
			w.settle()
			again = true
			accepted, mayAccept = false, false
		case "off":
			calls = append(calls, call("Disable", w.g.Disable))
			off = true
		case "offon":
			calls = append(calls, call("Disable+Enable", func() { w.g.Disable(); w.g.Enable() }))
			lost, again = true, false
		case "wait":
			wres, wdone = new(bool), call("WaitForCommunicating", func() { r := w.g.WaitForCommunicating(20 * sec); *wres = r })
		}
	}
	w.settle()
	vrt.Explore(false)
	w.finish(strings.Join(evs, "‖"), calls...)
	w.settle()
	w.onFrame = nil
	for _, f := range w.take() {
		if f.SType == 0 && f.S() == 1 && f.F() == 1 {
			w.reply(f, wire.L())
		}
		if f.SType == 0 && f.S() == 1 && f.F() == 13 {
			w.pend, w.pendAt = f, vrt.Now()
			if w.up() {
				w.openF = []*wire.Frame{f}
			}
		}
	}
	before := w.pend
	for i := 0; i < 7; i++ {
		vrt.Sleep(cgrain)
		w.settle()
	}
	for _, f := range w.take() {
		if f.SType == 0 && f.S() == 1 && f.F() == 1 {
			w.reply(f, wire.L())
		}
		if f.SType == 0 && f.S() == 1 && f.F() == 13 {
			w.pend, w.pendAt = f, vrt.Now()
			w.openF = []*wire.Frame{f}
		}
	}
	_ = before
	w.settle()
	st := w.g.State()
	is := st == gem.CommunicationStateCommunicating
	when := fmt.Sprintf("%s at %s", strings.Join(evs, "‖"), stage)
	x.Outcome("%v %d", st, w.com)
	gone := off || lost && !again
	switch {
	case gone && is:
		x.Failf("communicating", "%s: COMMUNICATING although the session is gone (%s) or the handler disabled", when, w.p.CurrentState())
	case !gone && !is && (accepted || had && !lost):
		x.Failf("not-communicating", "%s: state %v", when, st)
	case !gone && is && !accepted && !mayAccept && !(had && !lost):
		x.Failf("communicating", "%s: COMMUNICATING without an exchange in this session", when)
	}
	// how often it may have been entered
	min, max := coms, coms+1
	if had && !lost {
		max = coms
	}
	if is && !(had && !lost) || accepted && !gone && !(had && !lost) {
		min = coms + 1
	}
	if w.com < min || w.com > max+strings.Count(strings.Join(evs, " "), "resel") {
		x.Failf("notify", "%s: %d notifications of COMMUNICATING (%d before)", when, w.com, coms)
	}
	if wdone != nil {
		if is && (!*wdone || !*wres) {
			x.Failf("waiter", "%s: the waiter has not returned true (%v, %v)", when, *wdone, *wres)
		}
		if *wdone && *wres && w.com == 0 {
			x.Failf("waiter", "%s: the waiter returned true without communication", when)
		}
	}
	// and on from here
	w.coms = w.com
	w.comm = is
	w.since = append(w.since, vrt.Now())
	w.off = off
	w.sel = !gone && w.p.CurrentState() == hstates[2]
	w.selAt = vrt.Now()
	w.lost = -1
	if is || gone {
		w.pend = nil
	} else if w.pend == nil {
		w.retryAt = vrt.Now() // unknown
		for i := 0; i < 200 && w.pend == nil; i++ {
			vrt.Sleep(cgrain)
			w.settle()
			w.took()
		}
		if w.pend == nil {
			x.Failf("no-attempt", "%s: no S1F13 for 20 s", when)
		}
	}
	if w.pend != nil && vrt.Now() >= w.pendAt+w.t3-cgrain {
		w.pend = nil
		for i := 0; i < 200 && w.pend == nil; i++ {
			vrt.Sleep(cgrain)
			w.settle()
			w.took()
		}
	}
	w.retryAt = 0
	w.strict = true
	w.recover()
	if wdone != nil && !*wdone {
		w.pass(21 * sec)
		if !*wdone {
			x.Failf("waiter", "%s: the waiter has not returned", when)
		}
	}
}

func gcfgs() []gcfg {
	var l []gcfg
	for _, host := range []bool{true, false} {
		for _, active := range []bool{false, true} {
			g := gcfgDefault
			g.host, g.active = host, active
			g.t3, g.estab = 2, 3*time.Second
			l = append(l, g)
		}
	}
	return l
}

func c16(c *C) {
	cfgs := gcfgs()
	// histories
	all := []string{"sel", "13", "a0", "a1", "am", "late0", "late1", "u1", "drop", "sep", "desel", "off", "on", "w", "W", "E", "wt", "wT"}
	few := []string{"sel", "13", "a0", "a1", "late1", "drop", "desel", "off", "on", "w", "E", "wt"}
	for _, gc := range cfgs {
		gc := gc
		for _, st := range []string{"off", "sel", "pend", "delay", "comm"} {
			st := st
			for d := 1; d <= c.Q(3, 4); d++ {
				seqs(len(all), d, func(ix []int) {
					ops := pick(all, ix)
					c.Case(fmt.Sprintf("history %v %s: %s", gc, st, strings.Join(ops, " ")), Opt{}, func(x *X) { runComm(x, gc, st, ops) })
				})
			}
		}
		if gc.host == gc.active || c.Thorough {
			d := c.Q(4, 5)
			seqs(len(few), d, func(ix []int) {
				ops := pick(few, ix)
				c.Case(fmt.Sprintf("history %v pend: %s", gc, strings.Join(ops, " ")), Opt{}, func(x *X) { runComm(x, gc, "pend", ops) })
			})
		}
	}
	// answers
	forms := answerForms()
	names := keysOf(forms)
	for _, gc := range cfgs {
		for _, es := range []time.Duration{300 * time.Millisecond, 3 * time.Second, 10 * time.Second} {
			for _, t3 := range []int{1, 8} {
				gc := gc
				gc.estab, gc.t3 = es, t3
				for _, n := range names {
					f := forms[n]
					c.Case(fmt.Sprintf("answer %v %v T3=%d %s", gc, es, t3, n), Opt{}, func(x *X) { runAnswers(x, gc, []func(*estw) bool{f, f}) })
				}
			}
		}
		gc := gc
		mix := []string{"silence", "ack1", "bad1", "S1F0", "S9F7", "reject"}
		for d := 2; d <= c.Q(3, 4); d++ {
			seqs(len(mix), d, func(ix []int) {
				ns := pick(mix, ix)
				var fs []func(*estw) bool
				for _, n := range ns {
					fs = append(fs, forms[n])
				}
				c.Case(fmt.Sprintf("answers %v %s", gc, strings.Join(ns, " ")), Opt{}, func(x *X) { runAnswers(x, gc, fs) })
			})
		}
	}
	// values of the timers over their ranges
	for _, gc := range cfgs {
		for _, v := range append([]int{3, 15, 29, 31, 46, 180, 240, 300, 600}, slowT3...) {
			gt, ge := gc, gc
			gt.t3, gt.estab = v, 2*sec
			ge.t3, ge.estab = 2, time.Duration(v)*sec
			c.Case(fmt.Sprintf("T3 %d %v", v, gc), Opt{MaxSteps: 1 << 24}, func(x *X) { runLongWaits(x, gt) })
			c.Case(fmt.Sprintf("delay %d %v", v, gc), Opt{MaxSteps: 1 << 24}, func(x *X) { runLongWaits(x, ge) })
		}
	}
	// races
	deep := map[string]bool{}
	for _, s := range []string{"13", "a0", "a1", "off", "drop", "13 off", "a0 off", "a0 desel", "a1 13", "drop resel", "desel resel", "drop resel 13"} {
		deep[s] = true
	}
	for _, gc := range cfgs {
		gc := gc
		for _, st := range []string{"pend", "cra", "retry", "tick", "comm", "commtick"} {
			st := st
			evs := []string{"13", "a0", "a1", "drop", "sep", "desel", "off", "offon", "wait"}
			var sets [][]string
			for i, a := range evs {
				sets = append(sets, []string{a})
				for j, b := range evs {
					if i != j {
						sets = append(sets, []string{a, b})
					}
				}
			}
			for _, l := range []string{"drop", "desel"} {
				sets = append(sets, []string{l, "resel"}, []string{l, "resel", "13"}, []string{"wait", l, "resel", "13"})
				if st == "pend" {
					sets = append(sets, []string{l, "resel", "a0"}, []string{"a0", l, "resel"}, []string{"13", l, "resel"}, []string{"a0", l, "resel", "13"})
				}
			}
			for _, ev := range sets {
				ev := ev
				has := func(s string) bool {
					for _, e := range ev {
						if e == s {
							return true
						}
					}
					return false
				}
				if (has("a0") || has("a1")) && st != "pend" && st != "cra" || has("a1") && has("a0") {
					continue
				}
				// nothing comes over a link that the peer has closed
				if i := strings.Join(ev, " "); strings.HasPrefix(i, "drop ") && !has("resel") && !has("off") && !has("offon") && !has("wait") {
					continue
				}
				if has("off") && has("offon") || has("drop") && has("sep") {
					continue
				}
				dev := c.Q(1, 2)
				if deep[strings.Join(ev, " ")] && (gc.active == gc.host && (st == "pend" || st == "commtick") || c.Thorough) {
					dev = c.Q(2, 3)
				}
				c.Case(fmt.Sprintf("race %v %s: %s", gc, st, strings.Join(ev, "‖")), Opt{Dev: dev, Split: true, Coarse: dev < 2}, func(x *X) { runCommRace(x, gc, st, ev) })
			}
		}
	}
}

func pick(names []string, ix []int) []string {
	r := make([]string, len(ix))
	for i, k := range ix {
		r[i] = names[k]
	}
	return r
}

func keysOf[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
