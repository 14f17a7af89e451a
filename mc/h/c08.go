package h

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"verif.local/mc/vnet"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C08", Level: "model_checking", Budget: [2]int{240, 850},
		Rule: "every peer action sequence over the alphabet to the depth bound, in both roles, state and frames compared with the reference machine after each action; short sequences and T7 races under every schedule to the deviation bound",
		Run:  c08})
}

const sec = time.Second

// hmodel is the reference connection state machine.
type hmodel struct {
	cfg     hcfg
	st      int // 0 not connected, 1 not selected, 2 selected
	t7      time.Duration
	dialAt  time.Duration // active: next dial
	selOpen bool          // active: select.req outstanding
	selEnd  time.Duration // T6 of it
	ltFrom  time.Duration // link tests since (-1: none)
	ltSeen  int
	bad     bool // the stream is desynchronised (half a frame was sent)
	t8      time.Duration
	adopt   bool
	sess    int
}

var hstates = []string{"NOT-CONNECTED", "CONNECTED_NOT-SELECTED", "CONNECTED_SELECTED"}

func (m *hmodel) String() string {
	return fmt.Sprintf("%s %s t7-%v dial-%v sel=%v bad=%v", m.cfg.role(), hstates[m.st], m.t7-vrt.Now(), m.dialAt-vrt.Now(), m.selOpen, m.bad)
}

func (m *hmodel) lost() {
	m.st = 0
	m.selOpen = false
	m.bad = false
	m.dialAt = vrt.Now() + time.Duration(m.cfg.t5)*sec
	m.ltFrom = -1
}

// after is the end of a timer started now; none if it is off.
func after(secs int) time.Duration {
	if secs <= 0 {
		return 1 << 62
	}
	return vrt.Now() + time.Duration(secs)*sec
}

func (m *hmodel) connected() {
	m.st = 1
	m.t7 = after(m.cfg.t7)
	if m.cfg.active {
		m.selOpen = true
		m.selEnd = vrt.Now() + time.Duration(m.cfg.t6)*sec
	} else {
		m.ltFrom = vrt.Now()
	}
}

// frame patterns: "selrsp:sys:status", "?" as status for any
func ctl(st byte, sess uint16, status int, sys uint32) string {
	return fmt.Sprintf("%d/%04x/%d/%08x", st, sess, status, sys)
}

func matchCtl(pat string, f *wire.Frame) bool {
	if strings.HasSuffix(pat, "!") { // data reply pattern
		return pat == fmt.Sprintf("S%dF%d/%08x!", f.S(), f.F(), f.Sys) && f.SType == 0
	}
	var st, status int
	var sess uint16
	var sys uint32
	fmt.Sscanf(pat, "%d/%04x/%d/%08x", &st, &sess, &status, &sys)
	if f.SType == 0 || int(f.SType) != st || f.Session != sess || f.Sys != sys || f.B2 != 0 && f.SType != wire.RejectReq {
		return false
	}
	switch status {
	case -1: // any
		return true
	case -2: // anything but accepted
		return f.B3 != 0
	}
	return int(f.B3) == status
}

// advance applies the timers that expire up to now; returns what is sent.
func (m *hmodel) advance(now time.Duration) (want []string) {
	if m.st != 0 && m.bad && now >= m.t8 {
		m.lost()
		m.dialAt = m.t8 + time.Duration(m.cfg.t5)*sec
	}
	if m.st == 1 && now >= m.t7 {
		t := m.t7
		m.lost()
		m.dialAt = t + time.Duration(m.cfg.t5)*sec
	}
	if m.selOpen && now >= m.selEnd {
		m.selOpen = false
	}
	if m.cfg.active && m.st == 0 && now >= m.dialAt {
		m.connected()
		return []string{"select.req"}
	}
	return nil
}

var hacts = []string{"selreq", "deselreq", "sep", "selrsp0", "selrsp1", "data", "close", "w3", "w7", "linkreq", "selmis", "selwild", "selunsol", "deselrsp", "linkrsp", "reject", "abort", "half", "w1"}

// do performs an action on both; ok=false if it does not apply in this state.
func (m *hmodel) do(w *hw, a string) (want []string, closes bool) {
	cut := m.bad
	w.auto = !cut
	want, closes = m.act(w, a)
	if m.bad && !(cut && (a == "half" || a[0] == 'w')) && a[0] != 'w' {
		// T8 runs from the last character of the message
		m.t8 = after(m.cfg.t8)
	}
	w.auto = !m.bad
	return
}

func (m *hmodel) act(w *hw, a string) (want []string, closes bool) {
	sess := uint16(m.sess)
	conn := w.nconn
	switch a {
	case "selreq", "selwild", "selmis":
		s := sess
		if a == "selwild" {
			s = 0xffff
		}
		if a == "selmis" {
			s = sess + 7
		}
		if m.cfg.sess == 0 || m.cfg.sess == 0xffff {
			// the endpoint adopts the peer's session id the first time
			if s != 0xffff && !m.adopt && s != sess {
				m.adopt, m.sess = true, int(s)
			}
		}
		sys := w.nextSys()
		w.send(wire.NewCtrl(wire.SelectReq, s, 0, 0, sys))
		if m.bad {
			return
		}
		if s != uint16(m.sess) && s != 0xffff {
			m.lost()
			return []string{ctl(2, s, -2, sys)}, true
		}
		if m.st == 2 {
			return []string{ctl(2, s, -1, sys)}, false
		}
		m.st = 2
		return []string{ctl(2, s, 0, sys)}, false
	case "deselreq":
		sys := w.nextSys()
		w.send(wire.NewCtrl(wire.DeselectReq, sess, 0, 0, sys))
		if m.bad {
			return
		}
		if m.st == 2 {
			m.st = 1
			m.t7 = after(m.cfg.t7)
			return []string{ctl(4, sess, 0, sys)}, false
		}
		return []string{ctl(4, sess, -1, sys)}, false
	case "sep":
		w.send(wire.NewCtrl(wire.SeparateReq, sess, 0, 0, w.nextSys()))
		if m.bad {
			return
		}
		m.lost()
		return nil, true
	case "selrsp0", "selrsp1":
		st := byte(a[6] - '0')
		w.send(wire.NewCtrl(wire.SelectRsp, sess, 0, st, w.selSys))
		w.selOpen = false
		if m.bad {
			return
		}
		if !m.selOpen {
			return // late or repeated: absorbed
		}
		m.selOpen = false
		if st == 0 {
			m.st = 2
			m.ltFrom = vrt.Now()
		} else {
			m.lost()
			return nil, true
		}
		return
	case "data":
		sys := w.nextSys()
		w.send(wire.NewData(sess, 1, 1, true, sys, nil))
		if m.st == 2 && !m.bad {
			return []string{fmt.Sprintf("S1F2/%08x!", sys)}, false
		}
		return
	case "linkreq":
		sys := w.nextSys()
		w.send(wire.NewCtrl(wire.LinktestReq, 0xffff, 0, 0, sys))
		if m.bad {
			return
		}
		return []string{ctl(6, 0xffff, 0, sys)}, false
	case "selunsol":
		w.send(wire.NewCtrl(wire.SelectRsp, sess, 0, 0, w.nextSys()))
	case "selunsol1":
		w.send(wire.NewCtrl(wire.SelectRsp, sess, 0, 1, w.nextSys()))
	case "deselrsp":
		w.send(wire.NewCtrl(wire.DeselectRsp, sess, 0, 0, w.nextSys()))
	case "linkrsp":
		w.send(wire.NewCtrl(wire.LinktestRsp, 0xffff, 0, 0, w.nextSys()))
	case "reject":
		w.send(wire.NewCtrl(wire.RejectReq, sess, 1, 4, w.nextSys()))
	case "close", "abort":
		w.c.Shut(a == "abort")
		w.x.Logf("-> %s", a)
		m.lost()
		return nil, true
	case "half":
		if !m.bad {
			w.raw(wire.NewData(sess, 1, 1, true, w.nextSys(), wire.A(strings.Repeat("x", 2000))).Encode()[:20])
			m.bad = true
		}
	case "drib":
		// a message in pieces, each within T8 of the one before
		sys := w.nextSys()
		b := wire.NewCtrl(wire.LinktestReq, 0xffff, 0, 0, sys).Encode()
		for _, p := range [][]byte{b[:1], b[1:4], b[4:5], b[5:13]} {
			if m.st == 0 || w.nconn != conn {
				return want, false
			}
			w.raw(p)
			w.auto = false
			for k := 1; k < m.cfg.t8; k++ {
				w.wait(sec)
				want = append(want, m.advance(vrt.Now())...)
			}
		}
		if m.st == 0 || w.nconn != conn {
			return want, false
		}
		w.raw(b[13:])
		return append(want, ctl(6, 0xffff, 0, sys)), false
	default:
		n, err := strconv.Atoi(a[1:])
		if a[0] != 'w' || err != nil {
			w.x.Failf("harness", "action %s", a)
		}
		end := vrt.Now() + time.Duration(n)*sec
		for vrt.Now() < end {
			w.wait(sec)
			want = append(want, m.advance(vrt.Now())...)
		}
		return want, false
	}
	return nil, false
}

// applies says whether an action makes sense (prunes equivalent histories).
func (m *hmodel) applies(a string) bool {
	if a[0] == 'w' {
		return true
	}
	switch a {
	case "selrsp0", "selrsp1":
		return m.st != 0 && m.cfg.active
	case "drib":
		return m.st != 0 && !m.bad
	}
	return m.st != 0
}

func (m *hmodel) check(w *hw, after string, want []string, closes bool) {
	x := w.x
	got := w.take()
	i := 0
	for _, f := range got {
		if i >= len(want) {
			x.Failf("extra-frame", "after %s the endpoint sent %s, want %v", after, frames(got), want)
		}
		if want[i] == "select.req" {
			if f.SType != wire.SelectReq || int(f.Session) != m.sess || f.B2 != 0 || f.B3 != 0 {
				x.Failf("select-frame", "after %s the endpoint sent %v, want select.req", after, f)
			}
		} else if !matchCtl(want[i], f) {
			x.Failf("wrong-frame", "after %s the endpoint sent %s, want %v", after, frames(got), want)
		}
		i++
	}
	if i < len(want) {
		x.Failf("missing-frame", "after %s the endpoint sent %s, want %v", after, frames(got), want)
	}
	if s := w.p.CurrentState(); s != hstates[m.st] {
		x.Failf("state", "after %s state %s, want %s", after, s, hstates[m.st])
	}
	if w.p.Connected() != (m.st != 0) {
		x.Failf("connected", "after %s Connected() is %v in state %s", after, w.p.Connected(), hstates[m.st])
	}
	if w.up() != (m.st != 0) {
		x.Failf("socket", "after %s the connection is up: %v, state %s", after, w.up(), hstates[m.st])
	}
	// link tests: at once and then periodically, while connected
	if m.st != 0 && m.ltFrom >= 0 {
		n := 0
		for _, l := range w.lts {
			if l.conn == w.nconn {
				n++
			}
		}
		want := 0
		if m.cfg.lt > 0 {
			want = 1 + int((vrt.Now()-m.ltFrom)/(time.Duration(m.cfg.lt)*sec))
		}
		if n != want && !m.bad {
			x.Failf("linktests", "after %s: %d link tests since %v, want %d", after, n, m.ltFrom, want)
		}
	}
}

func runC08(x *X, cfg hcfg, acts []string, sched bool) {
	w := newHW(x, cfg)
	m := &hmodel{cfg: cfg, ltFrom: -1, sess: cfg.sess}
	w.p.Enable()
	w.settle()
	if cfg.active {
		m.connected()
		m.check(w, "enable", []string{"select.req"}, false)
	} else {
		w.connect()
		w.settle()
		m.connected()
		m.check(w, "connect", nil, false)
	}
	done := "connect"
	for i, a := range acts {
		if sched && i >= len(acts)-1 {
			vrt.Explore(true)
		}
		if m.st == 0 && !cfg.active {
			// a passive endpoint listens again
			for k := 0; k < 4 && !vnet.Listening(hwAddr); k++ {
				w.wait(500 * time.Millisecond)
			}
			if !w.connect() {
				x.Failf("not-listening", "after %s the endpoint does not listen", done)
			}
			w.settle()
			m.connected()
			m.check(w, done+" connect", nil, false)
		}
		if !m.applies(a) {
			vrt.Explore(false)
			x.Outcome("pruned")
			return
		}
		want, closes := m.do(w, a)
		w.settle()
		if !strings.HasPrefix(a, "w") {
			want = append(want, m.advance(vrt.Now())...)
		}
		vrt.Explore(false)
		done += " " + a
		m.check(w, done, want, closes)
		x.State(a, m.String())
	}
	x.Outcome("%s", m.String())
}

func seqsOf(alpha []string, n int, f func([]string)) {
	cur := make([]string, 0, n)
	var rec func()
	rec = func() {
		if len(cur) == n {
			f(append([]string(nil), cur...))
			return
		}
		for _, a := range alpha {
			cur = append(cur, a)
			rec()
			cur = cur[:len(cur)-1]
		}
	}
	rec()
}

// runT7Race lets T7 expire at the instant (or one step around) the peer acts.
func runT7Race(x *X, cfg hcfg, acts []string, pre string) {
	w := newHW(x, cfg)
	w.p.Enable()
	w.settle()
	sess := uint16(cfg.sess)
	if !cfg.active {
		w.connect()
		w.settle()
	}
	var t7 = vrt.Now() + time.Duration(cfg.t7)*sec
	if pre == "deselect" { // T7 armed by a deselect
		if cfg.active {
			w.send(wire.NewCtrl(wire.SelectRsp, sess, 0, 0, w.selSys))
		} else {
			w.send(wire.NewCtrl(wire.SelectReq, sess, 0, 0, w.nextSys()))
		}
		w.settle()
		w.wait(2 * sec)
		w.send(wire.NewCtrl(wire.DeselectReq, sess, 0, 0, w.nextSys()))
		w.settle()
		t7 = vrt.Now() + time.Duration(cfg.t7)*sec
	}
	w.take()
	w.wait(t7 - vrt.Now() - sec)
	conn := w.nconn
	vrt.Explore(true)
	vrt.Sleep(sec) // T7 expires now
	var last uint32
	for _, a := range acts {
		if !w.up() && a != "dial" {
			break
		}
		switch a {
		case "selreq":
			last = w.nextSys()
			w.send(wire.NewCtrl(wire.SelectReq, sess, 0, 0, last))
		case "deselreq":
			w.send(wire.NewCtrl(wire.DeselectReq, sess, 0, 0, w.nextSys()))
		case "data":
			w.send(wire.NewData(sess, 1, 1, true, w.nextSys(), nil))
		case "selrsp":
			w.send(wire.NewCtrl(wire.SelectRsp, sess, 0, 0, w.selSys))
		case "close":
			w.c.Shut(false)
		case "sep":
			w.send(wire.NewCtrl(wire.SeparateReq, sess, 0, 0, w.nextSys()))
		case "linkreq":
			w.send(wire.NewCtrl(wire.LinktestReq, 0xffff, 0, 0, w.nextSys()))
		case "dial":
			vrt.Idle()
			w.poll()
			if !w.up() {
				w.connect()
			}
		}
	}
	w.settle()
	vrt.Explore(false)
	if w.nconn > conn && w.up() {
		// a fresh connection made at the same instant has its own T7
		if s := w.p.CurrentState(); s != hstates[1] {
			x.Failf("stale-t7", "a new connection is in state %s", s)
		}
	}
	w.coherent("after the race")
	for _, f := range w.out {
		if f.SType == 0 && f.F() == 2 && !w.up() && acts[len(acts)-1] == "data" {
			x.Failf("t7-selected", "the session was selected and exchanged data, and T7 ended it")
		}
	}
	if w.up() && w.nconn == conn && w.p.CurrentState() == hstates[1] && acts[0] != "deselreq" && acts[len(acts)-1] != "deselreq" {
		x.Failf("t7-lost", "still not selected on the same connection after T7")
	}
	sel := w.p.CurrentState() == hstates[2]
	x.Outcome("%s up=%v frames=%d", w.p.CurrentState(), w.up(), len(w.out))
	if sel {
		// T7 never ends a selected session
		w.wait(time.Duration(cfg.t7+2) * sec)
		if w.p.CurrentState() != hstates[2] || !w.up() {
			x.Failf("t7-selected", "a selected session ended by T7: %s", w.p.CurrentState())
		}
		w.take()
		w.probe()
		return
	}
	if w.up() {
		// not selected: select now works, T7 counts from the connection
		w.selOpenOr(sess)
	}
	if !w.up() {
		w.selectNow()
	}
	w.probe()
}

// selOpenOr completes selection on the current connection.
func (w *hw) selOpenOr(sess uint16) {
	w.wait(sec)
	w.send(wire.NewCtrl(wire.SelectReq, sess, 0, 0, w.nextSys()))
	w.settle()
	if w.p.CurrentState() != hstates[2] {
		w.x.Failf("not-selected", "select on the new connection left state %s", w.p.CurrentState())
	}
	w.take()
}

func c08(c *C) {
	full := hacts
	core := []string{"selreq", "deselreq", "sep", "selrsp0", "data", "close", "w3", "w7"}
	depthFull, depthCore := c.Q(3, 4), c.Q(5, 6)
	for _, active := range []bool{false, true} {
		cfg := hcfgDefault.asActive(active)
		run := func(kind string, alpha []string, depth int) {
			seqsOf(alpha, depth-1, func(pre []string) {
				// one case per prefix, last action enumerated inside
				if !active {
					for _, a := range pre {
						if strings.HasPrefix(a, "selrsp") {
							return
						}
					}
				}
				for _, a := range alpha {
					acts := append(append([]string(nil), pre...), a)
					c.Case(fmt.Sprintf("%s %s %s", kind, cfg.role(), strings.Join(acts, " ")), Opt{}, func(x *X) { runC08(x, cfg, acts, false) })
				}
			})
		}
		run("full", full, depthFull)
		run("core", core, depthCore)
		// T8 is shorter than any silence: only a message under way is timed
		ct := cfg
		ct.t8, ct.lt, ct.t7 = 3, 60, 25
		for n := 1; n <= c.Q(4, 5); n++ {
			seqsOf([]string{"selreq", "selrsp0", "half", "drib", "w1", "w3", "w7", "data", "linkreq"}, n, func(acts []string) {
				c.Case(fmt.Sprintf("t8 %s %s", cfg.role(), strings.Join(acts, " ")), Opt{}, func(x *X) { runC08(x, ct, acts, false) })
			})
		}
		// values of the timers over their ranges
		for _, v := range []int{1, 2, 5, 9, 10, 30, 59, 60, 61, 119, 120, 121, 240} {
			slow := cfg
			slow.t5, slow.t6, slow.t7, slow.t8, slow.lt = 3, 701, 702, 703, 704
			before, at := fmt.Sprintf("w%d", v-1), fmt.Sprintf("w%d", v)
			tc := func(name string, set func(*hcfg), acts ...string) {
				cf := slow
				set(&cf)
				var as []string
				for _, a := range acts {
					if a != "w0" {
						as = append(as, a)
					}
				}
				c.Case(fmt.Sprintf("%s %d %s %s", name, v, cf.role(), strings.Join(as, " ")), Opt{}, func(x *X) { runC08(x, cf, as, false) })
			}
			sel := "selreq"
			if active {
				sel = "selrsp0"
			}
			t7 := func(h *hcfg) { h.t7 = v }
			t8 := func(h *hcfg) { h.t8 = v }
			lt := func(h *hcfg) { h.lt = v }
			tc("T7", t7, sel, "w1", "deselreq", before, "selreq", "w7")
			tc("T7", t7, sel, "w1", "deselreq", before, "w1", "w3")
			tc("T8", t8, "half", before, "w1", "w3")
			tc("T8", t8, sel, "half", before, "w1", "w3")
			tc("T8", t8, sel, "drib", "data")
			tc("linktest", lt, sel, before, "w1", at, at, "linkreq")
			if active {
				t5 := func(h *hcfg) { h.t5 = v }
				t6 := func(h *hcfg) { h.t6 = v }
				tc("T5", t5, sel, "sep", before, "w1", "w1")
				tc("T5", t5, sel, "close", before, "w1", "w1")
				tc("T6", t6, before, sel, "w7")
				tc("T6", t6, before, "w1", "w3")
			} else {
				tc("T7", t7, before, sel, "w7")
				tc("T7", t7, before, "w1", "w3")
			}
		}
		// timers that are off
		for _, off := range []string{"T7", "T8", "linktest", "all"} {
			for _, v := range []int{0, -1} {
				cf := cfg
				if off == "T7" || off == "all" {
					cf.t7 = v
				}
				if off == "T8" || off == "all" {
					cf.t8 = v
				}
				if off == "linktest" || off == "all" {
					cf.lt = v
				}
				for n := 1; n <= 3; n++ {
					seqsOf([]string{"selreq", "selrsp0", "deselreq", "half", "drib", "w60", "linkreq", "close"}, n, func(acts []string) {
						c.Case(fmt.Sprintf("off %s %d %s %s", off, v, cfg.role(), strings.Join(acts, " ")), Opt{}, func(x *X) { runC08(x, cf, acts, false) })
					})
				}
			}
		}
		// session ids the endpoint adopts
		for _, s := range []int{0, 0xffff} {
			cf := cfg
			cf.sess = s
			seqsOf([]string{"selreq", "selmis", "selwild", "deselreq", "data", "sep"}, 3, func(acts []string) {
				c.Case(fmt.Sprintf("adopt%d %s %s", s, cfg.role(), strings.Join(acts, " ")), Opt{}, func(x *X) { runC08(x, cf, acts, false) })
			})
		}
	}
	// schedules within each action
	for _, active := range []bool{false, true} {
		cfg := hcfgDefault.asActive(active)
		for n := 1; n <= 2; n++ {
			seqsOf(full, n, func(acts []string) {
				c.Case(fmt.Sprintf("sched %s %s", cfg.role(), strings.Join(acts, " ")), Opt{Dev: c.Q(1, 2)}, func(x *X) { runC08(x, cfg, acts, true) })
			})
		}
		var races [][]string
		for _, a := range []string{"selreq", "selrsp", "close", "sep", "linkreq", "deselreq"} {
			races = append(races, []string{a})
			for _, b := range []string{"selreq", "deselreq", "close", "dial", "sep", "data"} {
				races = append(races, []string{a, b})
			}
		}
		for _, r := range races {
			if r[0] == "selrsp" && !active || active && r[len(r)-1] == "dial" {
				continue
			}
			for _, pre := range []string{"connect", "deselect"} {
				r, pre := r, pre
				cf := cfg
				if r[0] == "selrsp" {
					cf.t6 = cf.t7 + 3
				}
				c.Case(fmt.Sprintf("t7 %s %s %s", cf.role(), pre, strings.Join(r, " ")), Opt{Dev: c.Q(2, 3), Split: true}, func(x *X) { runT7Race(x, cf, r, pre) })
			}
		}
	}
}
