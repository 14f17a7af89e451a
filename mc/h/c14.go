package h

import (
	"fmt"
	"strings"
	"time"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/vnet"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C14", Level: "model_checking", Budget: [2]int{240, 850},
		Rule: "every string of dial outcomes to the bound under every retry configuration of a grid, dial instants compared with the reference policy; every sequence of connection losses to the depth bound in both roles, followed by a working selected session; pairs of simultaneous losses under every schedule to the deviation bound",
		Run:  c14})
	register(&Check{ID: "C15", Level: "model_checking", Budget: [2]int{240, 850},
		Rule: "every sequence of enable, disable, peer and time steps to the depth bound in both roles, with the quiet or the working endpoint checked at the end; every pair of concurrent calls and events at every stage of a session under every schedule to the deviation bound",
		Run:  c15})
}

// ---- C14: dial policy

type rpol struct {
	base, max, att int
	auto           bool
	t5             int
}

func (r rpol) String() string {
	return fmt.Sprintf("base%d max%d att%d auto=%v t5=%d", r.base, r.max, r.att, r.auto, r.t5)
}

func runPolicy(x *X, r rpol, script string) {
	cfg := hcfgDefault.asActive(true)
	cfg.t5 = r.t5
	w := newHW(x, cfg)
	t := w.p.Timeouts()
	t.SetReconnectBackoffBase(r.base)
	t.SetReconnectBackoffMax(r.max)
	t.SetMaxReconnectAttempts(r.att)
	t.SetAutoReconnect(r.auto)
	k := 0
	vnet.OnDial(func(string) error {
		k++
		if k <= len(script) && script[k-1] == 'R' {
			return fmt.Errorf("connection refused")
		}
		return nil
	})
	w.p.Enable()
	w.settle()
	next := time.Duration(0) // expected instant of the next dial
	n := 0
	stopped := 0
	for i := 0; i < len(script); i++ {
		w.wait(next - vrt.Now())
		ds := vnet.Dials()
		if len(ds) != i+1 {
			x.Failf("dial-count", "at %v: %d dials, want %d", vrt.Now(), len(ds), i+1)
		}
		if d := ds[i].At - next; d < 0 || d > 300*time.Millisecond {
			x.Failf("dial-time", "dial %d at %v, want %v", i+1, ds[i].At, next)
		}
		if script[i] == 'R' {
			n++
			if !r.auto || r.att > 0 && n > r.att {
				cnt := len(ds)
				w.wait(300 * sec)
				if len(vnet.Dials()) != cnt {
					x.Failf("dial-after-stop", "%d more dials after the last attempt", len(vnet.Dials())-cnt)
				}
				x.Outcome("stopped after %d", cnt)
				// enabling again starts afresh
				w.p.Disable()
				w.p.Enable()
				w.settle()
				n, next = 0, vrt.Now()
				stopped++
				continue
			}
			d := r.base
			for j := 1; j < n && d < r.max; j++ {
				d *= 2
			}
			if d > r.max {
				d = r.max
			}
			next = ds[i].At + time.Duration(d)*sec
		} else {
			n = 0
			if !w.up() {
				x.Failf("no-connection", "accepted dial %d, no connection", i+1)
			}
			// a connection that is lost after a while
			switch script[i] {
			case 'A':
				w.wait(sec)
				w.c.Shut(false)
			case 'S': // selected, then separated
				w.selectNow()
				w.wait(sec)
				w.send(wire.NewCtrl(wire.SeparateReq, uint16(cfg.sess), 0, 0, w.nextSys()))
			case 'N': // select refused
				w.send(wire.NewCtrl(wire.SelectRsp, uint16(cfg.sess), 0, 1, w.selSys))
			}
			w.settle()
			w.take()
			next = vrt.Now() + time.Duration(r.t5)*sec
		}
	}
	x.State(script, fmt.Sprintf("n=%d stopped=%d", n, stopped))
	w.wait(next - vrt.Now())
	ds := vnet.Dials()
	if len(ds) != len(script)+1 {
		x.Failf("dial-count", "at %v: %d dials, want %d", vrt.Now(), len(ds), len(script)+1)
	}
	if d := ds[len(script)].At - next; d < 0 || d > 300*time.Millisecond {
		x.Failf("dial-time", "dial %d at %v, want %v", len(script)+1, ds[len(script)].At, next)
	}
	x.Outcome("dial %d at %v", len(script)+1, next)
	w.selectNow()
	w.probe()
}

// ---- C14: losses

var losses = []string{"close", "abort", "sep", "refuse", "t7", "t8", "short", "junk", "huge"}

// lose makes the current connection go away; it reports false if the way does
// not apply.
func (w *hw) lose(how string, settle bool) bool {
	sess := uint16(w.cfg.sess)
	switch how {
	case "close", "abort":
		w.c.Shut(how == "abort")
		w.lostAt = vrt.Now()
		w.x.Logf("-> %s", how)
	case "sep":
		w.send(wire.NewCtrl(wire.SeparateReq, sess, 0, 0, w.nextSys()))
	case "refuse":
		if w.p.CurrentState() == hstates[2] || w.cfg.active && !w.selOpen {
			return false
		}
		if w.cfg.active {
			w.selOpen = false
			w.send(wire.NewCtrl(wire.SelectRsp, sess, 0, 2, w.selSys))
		} else {
			w.send(wire.NewCtrl(wire.SelectReq, sess+3, 0, 0, w.nextSys()))
		}
	case "t7":
		if w.p.CurrentState() == hstates[2] {
			w.send(wire.NewCtrl(wire.DeselectReq, sess, 0, 0, w.nextSys()))
			w.settle()
		}
		w.wait(time.Duration(w.cfg.t7-1) * sec)
		w.tick(settle)
	case "t8":
		if w.p.CurrentState() != hstates[2] {
			return false // T7 is shorter
		}
		w.raw(wire.NewData(sess, 1, 1, true, w.nextSys(), wire.A(strings.Repeat("x", 40))).Encode()[:20])
		w.settle()
		w.auto = false
		w.wait(time.Duration(w.cfg.t8-1) * sec)
		w.tick(settle)
		w.auto = true
	case "short":
		w.raw([]byte{0, 0, 0, 4, 1, 2, 3, 4})
	case "junk":
		f := wire.NewData(sess, 1, 1, true, w.nextSys(), nil).Encode()
		f[3] = 12
		w.raw(append(f, 0x41, 0x05)) // item longer than the message
	case "huge":
		f := wire.NewCtrl(wire.LinktestReq, 0xffff, 0, 0, w.nextSys())
		f.SType = 77
		w.raw(f.Encode())
	}
	if settle {
		w.settle()
	}
	return true
}

// tick lets a second pass; what happens at its end runs now if settle is set.
func (w *hw) tick(settle bool) {
	if settle {
		w.wait(sec)
	} else {
		vrt.Sleep(sec)
	}
}

func runLosses(x *X, cfg hcfg, steps []string, sched bool) {
	w := newHW(x, cfg)
	w.p.Enable()
	w.settle()
	for i, st := range steps {
		stage, how := st[:strings.IndexByte(st, '/')], st[strings.IndexByte(st, '/')+1:]
		switch stage {
		case "ns":
			w.ensureUp()
		case "sel":
			w.selectNow()
		case "desel":
			w.selectNow()
			w.send(wire.NewCtrl(wire.DeselectReq, uint16(cfg.sess), 0, 0, w.nextSys()))
			w.settle()
		}
		dials := len(vnet.Dials())
		if sched && i == len(steps)-1 {
			vrt.Explore(true)
		}
		for _, h := range strings.Split(how, "+") {
			if w.up() && !w.lose(h, !sched) {
				x.Outcome("n/a")
				return
			}
		}
		w.settle()
		vrt.Explore(false)
		if w.up() {
			w.wait(time.Duration(w.cfg.t8+w.cfg.t7) * sec) // whatever half frames do
		}
		if w.up() {
			x.Failf("still-up", "%s: the connection is still up", st)
		}
		w.take()
		if cfg.active {
			w.wait(w.lostAt + time.Duration(cfg.t5)*sec + 200*time.Millisecond - vrt.Now())
			ds := vnet.Dials()
			if len(ds) <= dials {
				x.Failf("no-redial", "%s: lost at %v, no dial by %v", st, w.lostAt, vrt.Now())
			}
			// the loss is seen at most half a second late
			if d := ds[dials].At - w.lostAt; d < time.Duration(cfg.t5)*sec-500*time.Millisecond {
				x.Failf("dial-early", "%s: lost at %v, dial at %v", st, w.lostAt, ds[dials].At)
			}
		} else {
			w.wait(1500 * time.Millisecond)
			if !vnet.Listening(hwAddr) {
				x.Failf("no-listen", "%s: not listening again", st)
			}
		}
		x.State(st, w.p.CurrentState())
	}
	w.selectNow()
	w.probe()
	w.coherent("after the losses")
	x.Outcome("ok %d", w.nconn)
}

// ensureUp waits for a connection without selecting it.
func (w *hw) ensureUp() {
	for i := 0; i < 200 && !w.up(); i++ {
		if !w.cfg.active && w.connect() {
			w.settle()
			break
		}
		w.wait(500 * time.Millisecond)
	}
	if !w.up() {
		w.x.Failf("no-reconnect", "no connection within 100 s")
	}
}

func runBusyPort(x *X, secs int) {
	l, _ := vnet.Listen("tcp", hwAddr)
	w := newHW(x, hcfgDefault)
	w.p.Enable()
	w.settle()
	w.wait(time.Duration(secs)*sec + 300*time.Millisecond)
	l.Close()
	w.wait(3 * sec)
	if !vnet.Listening(hwAddr) {
		x.Failf("no-listen", "the port was busy for %d s and is free for 3 s: not listening", secs)
	}
	w.selectNow()
	w.probe()
	x.Outcome("listening after a busy port")
}

func c14(c *C) {
	maxLen := c.Q(5, 6)
	for _, r := range []rpol{
		{2, 60, 10, true, 5}, {1, 4, 3, true, 2}, {1, 60, 1, true, 3}, {2, 3, 0, true, 5}, {5, 3, 2, true, 4}, {3, 60, 2, true, 1}, {1, 1, 4, true, 5},
	} {
		for n := 0; n <= maxLen; n++ {
			seqsOf([]string{"R", "A", "S", "N"}, n, func(s []string) {
				script := strings.Join(s, "")
				c.Case(fmt.Sprintf("policy %v %s", r, script), Opt{}, func(x *X) { runPolicy(x, r, script) })
			})
		}
		for _, script := range []string{strings.Repeat("R", 12), strings.Repeat("R", 40), "RRRRARRRRARRRR", "SRRSRRRNRRRR"} {
			c.Case(fmt.Sprintf("policy %v %s", r, script), Opt{}, func(x *X) { runPolicy(x, r, script) })
		}
	}
	// attempts without a limit, past every power of two a delay can overflow at
	for _, r := range []rpol{{1, 64, 0, true, 5}, {2, 3, 0, true, 5}, {3, 1000, 0, true, 5}, {1, 3600, 0, true, 5}} {
		for _, n := range []int{31, 32, 33, 64, 65, 70, 140, 300} {
			for _, tail := range []string{"", "A", "S"} {
				script := strings.Repeat("R", n) + tail
				c.Case(fmt.Sprintf("policy %v %d R %s", r, n, tail), Opt{MaxSteps: 1 << 24}, func(x *X) { runPolicy(x, r, script) })
			}
		}
	}
	for _, s := range []string{"R", "RR"} {
		r := rpol{2, 60, 10, false, 5}
		c.Case(fmt.Sprintf("policy %v %s", r, s), Opt{}, func(x *X) { runPolicy(x, r, s) })
	}
	for i := 1; i <= 4; i++ {
		c.Case(fmt.Sprintf("busy %d", i), Opt{}, func(x *X) { runBusyPort(x, i) })
	}
	var steps []string
	for _, st := range []string{"ns", "sel", "desel"} {
		for _, l := range losses {
			steps = append(steps, st+"/"+l)
		}
	}
	for _, active := range []bool{false, true} {
		cfg := hcfgDefault.asActive(active)
		cfg.t6 = 6
		for n := 1; n <= c.Q(3, 4); n++ {
			seqsOf(steps, n, func(s []string) {
				c.Case(fmt.Sprintf("loss %s %s", cfg.role(), strings.Join(s, " ")), Opt{}, func(x *X) { runLosses(x, cfg, s, false) })
			})
		}
		for _, st := range []string{"ns", "sel", "desel"} {
			for _, a := range losses {
				for _, b := range append([]string{""}, losses...) {
					if a == b || a == "close" || a == "abort" || b == "t7" || b == "t8" {
						continue
					}
					s := st + "/" + a
					if b != "" {
						s += "+" + b
					}
					c.Case(fmt.Sprintf("loss-sched %s %s", cfg.role(), s), Opt{Dev: c.Q(2, 3), Split: true}, func(x *X) { runLosses(x, cfg, []string{s}, true) })
				}
			}
		}
	}
}

// ---- C15

// call runs f as an application thread and returns a completion flag.
func call(name string, f func()) *bool {
	done := new(bool)
	vrt.GoApp(name, func() { f(); *done = true })
	return done
}

// finish waits (simulated) until the calls have returned.
func (w *hw) finish(what string, calls ...*bool) {
	for i := 0; i < 60; i++ {
		ok := true
		for _, d := range calls {
			ok = ok && *d
		}
		if ok {
			return
		}
		w.wait(500 * time.Millisecond)
	}
	w.x.Failf("call-hangs", "%s: the call has not returned after 30 s", what)
}

// quiet checks that a disabled endpoint is at rest and stays so.
func (w *hw) quiet(when string) {
	x := w.x
	w.settle()
	if w.up() {
		x.Failf("disabled-up", "%s: the connection is still open", when)
	}
	if w.p.Connected() || w.p.CurrentState() != hstates[0] {
		x.Failf("disabled-state", "%s: Connected()=%v, state %s", when, w.p.Connected(), w.p.CurrentState())
	}
	if !w.cfg.active && vnet.Listening(hwAddr) {
		x.Failf("disabled-listening", "%s: still listening", when)
	}
	w.take()
	dials, nc := len(vnet.Dials()), w.nconn
	for i := 0; i < 15; i++ {
		w.wait(10 * sec)
		if w.up() || w.nconn != nc {
			x.Failf("disabled-up", "%s: a connection while disabled", when)
		}
		if len(vnet.Dials()) != dials {
			x.Failf("disabled-dials", "%s: dials while disabled", when)
		}
		if !w.cfg.active && vnet.Listening(hwAddr) {
			x.Failf("disabled-listening", "%s: listening while disabled", when)
		}
	}
	if w.p.Connected() || w.p.CurrentState() != hstates[0] {
		x.Failf("disabled-state", "%s: Connected()=%v, state %s", when, w.p.Connected(), w.p.CurrentState())
	}
	if l := vrt.Live(); len(l) > 0 {
		x.Failf("leftover", "%s: still running 150 s later: %v", when, l)
	}
}

var eops = []string{"E", "D", "up", "sel", "desel", "close", "w1", "w6", "refuse", "mute"}

func runEnable(x *X, cfg hcfg, ops []string) {
	w := newHW(x, cfg)
	w.p.Timeouts().SetReconnectBackoffMax(8)
	on := false
	silent := false // the peer does not answer deselect
	refuse := false
	type bye struct {
		f  *wire.Frame
		at time.Duration
	}
	var byes []bye
	w.onFrame = func(f *wire.Frame) {
		if f.SType == wire.DeselectReq || f.SType == wire.SeparateReq {
			byes = append(byes, bye{f, vrt.Now()})
		}
		if f.SType == wire.DeselectReq && !silent {
			w.send(wire.NewCtrl(wire.DeselectRsp, f.Session, 0, 0, f.Sys))
		}
	}
	vnet.OnDial(func(string) error {
		if refuse {
			return fmt.Errorf("connection refused")
		}
		return nil
	})
	hist := ""
	for i, op := range ops {
		hist += " " + op
		switch op {
		case "E":
			w.finish("Enable", call("Enable", w.p.Enable))
			w.settle()
			on = true
		case "D":
			// an active endpoint takes its leave
			var want []byte
			if w.up() && cfg.active {
				if w.p.CurrentState() == hstates[2] {
					want = append(want, wire.DeselectReq)
				}
				want = append(want, wire.SeparateReq)
			}
			byes = nil
			t0 := vrt.Now()
			d := call("Disable", w.p.Disable)
			w.settle()
			w.finish("Disable", d)
			w.settle()
			on = false
			w.take()
			// once deselected it may close without another word
			if len(byes) != len(want) && !(len(want) == 2 && len(byes) == 1 && !silent) {
				x.Failf("leave", "after%s: %d frames of leave, want %x", hist, len(byes), want)
			}
			for j, b := range byes {
				at := t0
				if j == 1 && silent {
					at += time.Duration(cfg.t6) * sec
				}
				if b.f.SType != want[j] || b.f.Session != uint16(cfg.sess) || b.at < at || b.at > at+200*time.Millisecond {
					x.Failf("leave", "after%s: %v at %v, want %x at %v", hist, b.f, b.at, want[j], at)
				}
			}
			if w.up() || w.p.Connected() || w.p.CurrentState() != hstates[0] {
				x.Failf("disabled-state", "after%s: up=%v Connected()=%v state %s", hist, w.up(), w.p.Connected(), w.p.CurrentState())
			}
			if !cfg.active && vnet.Listening(hwAddr) {
				x.Failf("disabled-listening", "after%s: still listening", hist)
			}
		case "up":
			if !on || w.up() || refuse {
				return
			}
			w.ensureUp()
		case "sel":
			if !on || refuse || w.up() && w.p.CurrentState() == hstates[2] {
				return
			}
			w.selectNow()
		case "desel":
			if !w.up() || w.p.CurrentState() != hstates[2] {
				return
			}
			w.send(wire.NewCtrl(wire.DeselectReq, uint16(cfg.sess), 0, 0, w.nextSys()))
			w.settle()
		case "close":
			if !w.up() {
				return
			}
			w.c.Shut(i%2 == 1)
			w.settle()
		case "w1":
			w.wait(sec)
		case "w6":
			w.wait(6 * sec)
		case "refuse":
			if !cfg.active {
				return
			}
			refuse = !refuse
		case "mute":
			silent = !silent
		}
		x.State(op, fmt.Sprintf("%s on=%v %s up=%v", cfg.role(), on, w.p.CurrentState(), w.up()))
	}
	refuse = false
	if !on {
		w.quiet("after" + hist)
		w.finish("Enable", call("Enable", w.p.Enable))
		w.settle()
	}
	if w.up() && w.p.CurrentState() == hstates[2] {
		w.probe()
	} else if w.up() {
		// not selected: T7 may be about to end it
		w.wait(time.Duration(cfg.t7+cfg.t5+1) * sec)
	}
	if !w.up() || w.p.CurrentState() != hstates[2] {
		w.wait(0)
		if w.up() {
			w.c.Shut(false)
			w.settle()
		}
		w.selectNow()
	}
	w.probe()
	silent = false
	w.finish("Disable", call("Disable", w.p.Disable))
	w.quiet("after" + hist + " D")
	x.Outcome("ok")
}

// runEnableRace: calls and events at one instant, at a stage of a session.
func runEnableRace(x *X, cfg hcfg, stage string, evs []string, end string) {
	w := newHW(x, cfg)
	w.p.Timeouts().SetReconnectBackoffMax(8)
	sess := uint16(cfg.sess)
	dialDelay := time.Duration(0)
	w.onFrame = func(f *wire.Frame) {
		if f.SType == wire.DeselectReq {
			w.send(wire.NewCtrl(wire.DeselectRsp, f.Session, 0, 0, f.Sys))
		}
	}
	vnet.OnDial(func(string) error {
		if dialDelay > 0 {
			vrt.Sleep(dialDelay)
		}
		return nil
	})
	block := false
	w.p.RegisterHandler(1, 5, func(m *ast.DataMessage) (*ast.DataMessage, error) {
		if block {
			vrt.Sleep(2 * sec)
		}
		return ast.NewDataMessage("", 1, 6, 0, "H<->E", ast.NewListNode()), nil
	})
	on := true
	switch stage {
	case "off":
		on = false
	case "wait": // listening, or dialling
		w.listen(false)
		w.p.Enable()
		w.settle()
		w.listen(cfg.active)
	case "ns":
		w.p.Enable()
		w.settle()
		w.ensureUp()
	case "sel":
		w.toSelected()
	case "desel":
		w.toSelected()
		w.send(wire.NewCtrl(wire.DeselectReq, sess, 0, 0, w.nextSys()))
		w.settle()
	case "lost":
		w.toSelected()
		w.c.Shut(false)
		w.settle()
	case "dis":
		w.toSelected()
		w.finish("Disable", call("Disable", w.p.Disable))
		w.settle()
		on = false
	case "handler": // a handler is running
		block = true
		w.toSelected()
		w.send(wire.NewData(sess, 1, 5, true, w.nextSys(), nil))
		w.settle()
	case "t7":
		w.p.Enable()
		w.settle()
		w.ensureUp()
		w.wait(time.Duration(cfg.t7)*sec - (vrt.Now() % sec) - sec)
	case "dialing":
		dialDelay = 2 * sec
		w.p.Enable()
		w.settle()
		w.wait(sec)
	}
	_ = on
	w.take()
	var calls []*bool
	vrt.Explore(true)
	if stage == "t7" {
		vrt.Sleep(sec)
	}
	last := ""
	for _, e := range evs {
		switch e {
		case "E":
			calls = append(calls, call("Enable", w.p.Enable))
			last = e
		case "D":
			calls = append(calls, call("Disable", w.p.Disable))
			last = e
		case "DE":
			calls = append(calls, call("Disable+Enable", func() { w.p.Disable(); w.p.Enable() }))
		case "close":
			if w.up() {
				w.c.Shut(false)
			}
		case "sep":
			w.send(wire.NewCtrl(wire.SeparateReq, sess, 0, 0, w.nextSys()))
		case "selreq":
			w.send(wire.NewCtrl(wire.SelectReq, sess, 0, 0, w.nextSys()))
		case "selrsp":
			w.send(wire.NewCtrl(wire.SelectRsp, sess, 0, 0, w.selSys))
		case "data":
			w.send(wire.NewData(sess, 1, 1, true, w.nextSys(), nil))
		case "link":
			w.send(wire.NewCtrl(wire.LinktestReq, 0xffff, 0, 0, w.nextSys()))
		case "dial":
			if !cfg.active && !w.up() {
				if c := vnet.DialNow(hwAddr); c != nil {
					w.setConn(c)
				}
			}
		case "send":
			calls = append(calls, call("send", func() { w.p.SendDataMessage(ast.NewDataMessage("", 1, 3, 0, "H<->E", ast.NewListNode())) }))
		}
	}
	_ = last
	w.settle()
	if stage == "dialing" {
		w.wait(2 * sec)
	}
	vrt.Explore(false)
	w.finish(strings.Join(evs, "‖"), calls...)
	w.settle()
	dialDelay = 0
	x.Outcome("%s up=%v", w.p.CurrentState(), w.up())
	when := fmt.Sprintf("%s at %s", strings.Join(evs, "‖"), stage)
	switch end {
	case "D":
		w.finish("Disable", call("Disable", w.p.Disable))
		if stage == "handler" {
			w.wait(3 * sec)
		}
		if !cfg.active && w.c != nil && w.up() {
			w.settle()
		}
		w.quiet(when + ", Disable")
		w.finish("Enable", call("Enable", w.p.Enable))
	case "E":
		w.finish("Enable", call("Enable", w.p.Enable))
	}
	w.settle()
	w.wait(9 * sec) // a half-open session ends by T7
	if w.up() && w.p.CurrentState() != hstates[2] {
		w.c.Shut(false)
		w.settle()
	}
	if !w.up() {
		w.selectNow()
	}
	w.coherent(when)
	w.probe()
}

// runStalled: the peer stops reading; Disable still returns and closes.
func runStalled(x *X, cfg hcfg, stage string) {
	w := newHW(x, cfg)
	w.p.Enable()
	w.settle()
	if stage == "sel" {
		w.selectNow()
	} else {
		w.ensureUp()
	}
	w.take()
	w.mute = true
	w.c.LimitIn(5)
	d := call("Disable", w.p.Disable)
	for i := 0; i < 80 && !*d; i++ {
		vrt.Sleep(500 * time.Millisecond)
	}
	if !*d {
		x.Failf("call-hangs", "Disable has not returned after 40 s with a peer that does not read")
	}
	vrt.Idle()
	if w.p.Connected() || w.p.CurrentState() != hstates[0] || !w.c.PeerClosed() {
		x.Failf("disabled-state", "Connected()=%v state=%s closed=%v", w.p.Connected(), w.p.CurrentState(), w.c.PeerClosed())
	}
	w.c.Shut(true)
	w.mute = false
	w.rx = nil
	w.p.Enable()
	w.settle()
	w.selectNow()
	w.probe()
	x.Outcome("ok")
}

// runFromHandler: Disable called by a message handler.
func runFromHandler(x *X, cfg hcfg, then string) {
	w := newHW(x, cfg)
	w.p.RegisterHandler(1, 5, func(m *ast.DataMessage) (*ast.DataMessage, error) {
		w.p.Disable()
		if then == "E" {
			w.p.Enable()
		}
		return nil, nil
	})
	w.toSelected()
	vrt.Explore(true)
	w.send(wire.NewData(uint16(cfg.sess), 1, 5, true, w.nextSys(), nil))
	w.settle()
	vrt.Explore(false)
	w.wait(12 * sec)
	if then == "" {
		w.quiet("Disable in a handler")
		w.p.Enable()
		w.settle()
	}
	if w.up() && w.p.CurrentState() != hstates[2] {
		w.c.Shut(false)
		w.settle()
	}
	if !w.up() {
		w.selectNow()
	}
	w.probe()
	x.Outcome("ok")
}

func c15(c *C) {
	for _, active := range []bool{false, true} {
		cfg := hcfgDefault.asActive(active)
		for n := 1; n <= c.Q(5, 6); n++ {
			seqsOf(eops, n, func(ops []string) {
				if ops[0] != "E" && ops[0] != "D" {
					return
				}
				c.Case(fmt.Sprintf("seq %s %s", cfg.role(), strings.Join(ops, " ")), Opt{}, func(x *X) { runEnable(x, cfg, ops) })
			})
		}
		for _, st := range []string{"ns", "sel"} {
			c.Case(fmt.Sprintf("stalled %s %s", cfg.role(), st), Opt{}, func(x *X) { runStalled(x, cfg, st) })
		}
		for _, then := range []string{"", "E"} {
			c.Case(fmt.Sprintf("handler %s %s", cfg.role(), then), Opt{Dev: c.Q(2, 3), Split: true}, func(x *X) { runFromHandler(x, cfg, then) })
		}
		var evs [][]string
		for _, a := range []string{"D", "E", "DE"} {
			evs = append(evs, []string{a})
			for _, b := range []string{"E", "D", "DE", "close", "sep", "selreq", "selrsp", "data", "link", "dial", "send"} {
				evs = append(evs, []string{a, b})
			}
		}
		for _, st := range []string{"off", "wait", "ns", "sel", "desel", "lost", "dis", "handler", "t7", "dialing"} {
			for _, ev := range evs {
				if st == "dialing" && !active || !active && ev[len(ev)-1] == "selrsp" || active && ev[len(ev)-1] == "dial" {
					continue
				}
				if b := ev[len(ev)-1]; (st == "off" || st == "wait" || st == "dis" || st == "lost" || st == "dialing") && strings.Contains("close sep selreq selrsp data link", b) {
					continue
				}
				for _, end := range []string{"D", "E"} {
					dev := c.Q(1, 2)
					if (st == "wait" || st == "sel") && (len(ev) == 1 || strings.Contains("E DE close dial", ev[1])) {
						dev = 2
					}
					c.Case(fmt.Sprintf("race %s %s %s %s", cfg.role(), st, strings.Join(ev, "‖"), end), Opt{Dev: dev, Split: true}, func(x *X) { runEnableRace(x, cfg, st, ev, end) })
				}
			}
		}
	}
}
