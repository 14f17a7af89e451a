package h

import (
	"fmt"
	"sort"
	"strings"

	"github.com/younglifestyle/secs4go/gem"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C22", Level: "model_checking", Budget: [2]int{200, 850},
		Rule: "every sequence of set, clear, enable, disable, register and S5F3 operations of the alphabet to the depth bound, and each operation in every model state, with S5F5 and S5F7 compared with the reference after each; every alarm code, id encoding and id width through S5F1 in both directions; concurrent operations under every schedule to the deviation bound; long lists of alarms; texts of the lengths around field limits that differ in their last character",
		Run:  c22})
}

type almState struct {
	text         string
	set, enabled bool
}

type almModel map[int]almState

func (m almModel) clone() almModel {
	n := almModel{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (m almModel) ids() []int {
	var l []int
	for k := range m {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}

func (m almModel) String() string {
	var s []string
	for _, k := range m.ids() {
		s = append(s, fmt.Sprintf("%d:%v/%v/%s", k, m[k].set, m[k].enabled, m[k].text))
	}
	return strings.Join(s, " ")
}

// almID is the number an ALID item holds.
func almID(it *wire.Item) (int, bool) {
	if it == nil {
		return 0, false
	}
	if u := it.Uints(); it.F&0o70 == 0o50 && len(u) == 1 && u[0] < 1<<63 {
		return int(u[0]), true
	}
	if i := it.Ints(); it.F&0o70 == 0o30 && len(i) == 1 {
		return int(i[0]), true
	}
	return 0, false
}

// aop is one operation on the alarms.
type aop struct {
	name string
	do   func(w *aw)
}

type aw struct {
	*gw
	m almModel
}

func newAW(x *X) *aw {
	w := &aw{gw: newGW(x, gcfgDefault), m: almModel{}}
	w.register(1, "door")
	w.register(70000, "")
	return w
}

func (w *aw) register(id int, text string) {
	w.g.RegisterAlarm(gem.Alarm{ID: id, Text: text})
	w.m[id] = almState{text: text, enabled: true}
}

// app runs one call of the application and returns what was sent.
func (w *aw) app(what string, f func() error) ([]*wire.Frame, error) {
	w.settle()
	w.take()
	var err error
	w.finish(what, call(what, func() { err = f() }))
	w.settle()
	return w.take(), err
}

// s5f1 checks one alarm report.
func (w *aw) s5f1(what string, f *wire.Frame, id int, set bool) {
	it := f.Item
	if f.SType != 0 || f.S() != 5 || f.F() != 1 || int(f.Session) != w.cfg.sess || it == nil || it.F != wire.FL || len(it.L) != 3 {
		w.x.Failf("report", "%s: %v", what, f)
	}
	got, ok := almID(it.L[1])
	if it.L[0].F != wire.FB || len(it.L[0].Data) != 1 || it.L[0].Data[0]&0x80 != 0 != set || !ok || got != id || !wire.Equal(it.L[2], wire.A(w.m[id].text)) {
		w.x.Failf("report", "%s: alarm %d %q, set %v, was reported as %v", what, id, w.m[id].text, set, it)
	}
}

func (w *aw) raise(id int, set bool) {
	what := fmt.Sprintf("RaiseAlarm(%d,%v) in state [%v]", id, set, w.m)
	o, err := w.app(what, func() error {
		if !set {
			return w.g.ClearAlarm(id)
		}
		return w.g.RaiseAlarm(id, set)
	})
	a, ok := w.m[id]
	if !ok {
		if err == nil || len(o) > 0 {
			w.x.Failf("unknown", "%s: %v, sent %s", what, err, frames(o))
		}
		return
	}
	if err != nil {
		w.x.Failf("raise", "%s: %v", what, err)
	}
	a.set = set
	w.m[id] = a
	if !a.enabled {
		if len(o) > 0 {
			w.x.Failf("disabled-sent", "%s sent %s", what, frames(o))
		}
		return
	}
	if len(o) != 1 {
		w.x.Failf("raise", "%s sent %s", what, frames(o))
	}
	w.s5f1(what, o[0], id, set)
}

func (w *aw) local(id int, on bool) {
	what := fmt.Sprintf("local enable %v of alarm %d in state [%v]", on, id, w.m)
	o, err := w.app(what, func() error {
		if on {
			return w.g.EnableAlarm(id)
		}
		return w.g.DisableAlarm(id)
	})
	a, ok := w.m[id]
	if len(o) > 0 || ok != (err == nil) {
		w.x.Failf("local", "%s: %v, sent %s", what, err, frames(o))
	}
	if ok {
		a.enabled = on
		w.m[id] = a
	}
}

// s5f3 sends one enable request; ids nil: malformed.
func (w *aw) s5f3(aled byte, it *wire.Item, ids []*wire.Item, wellFormed bool) {
	ack := ackOf(w.ask(5, 3, it))
	n := w.m.clone()
	ok := wellFormed
	for _, i := range ids {
		id, good := almID(i)
		a, known := w.m[id]
		if !good || !known {
			ok = false
			continue
		}
		a.enabled = aled == 0x80
		n[id] = a
	}
	if ack < 0 || ok != (ack == 0) {
		w.x.Failf("ack", "S5F3 %v in state [%v] answered %d", it, w.m, ack)
	}
	if ok {
		w.m = n
	}
}

// lists compares S5F5 and S5F7 with the model.
func (w *aw) lists(after string) {
	w.list(after, 5, wire.L(), w.m.ids())
	var en []int
	for _, id := range w.m.ids() {
		if w.m[id].enabled {
			en = append(en, id)
		}
	}
	w.list(after, 7, wire.L(), en)
}

func (w *aw) list(after string, f int, req *wire.Item, want []int) {
	got := w.ask(5, f, req)
	bad := func(s string) {
		w.x.Failf("list", "after %s, in state [%v], S5F%d answered with %v: %s", after, w.m, f, got, s)
	}
	if got == nil || got.F != wire.FL || len(got.L) != len(want) {
		bad("wrong number of alarms")
	}
	for i, id := range want {
		e, a := got.L[i], w.m[id]
		if e.F != wire.FL || len(e.L) != 3 || e.L[0].F != wire.FB || len(e.L[0].Data) != 1 {
			bad("malformed")
		}
		n, ok := almID(e.L[1])
		if !ok || n != id {
			bad(fmt.Sprintf("entry %d is not alarm %d", i, id))
		}
		if c := e.L[0].Data[0]; c&0x80 != 0 != a.set || c&0x40 != 0 != a.enabled || !wire.Equal(e.L[2], wire.A(a.text)) {
			bad(fmt.Sprintf("entry %d is wrong", i))
		}
	}
}

func aops() (small, all []aop) {
	op := func(small_ bool, name string, f func(w *aw)) {
		o := aop{name, f}
		if small_ {
			small = append(small, o)
		}
		all = append(all, o)
	}
	raise := func(s bool, id int, set bool) {
		op(s, fmt.Sprintf("raise(%d,%v)", id, set), func(w *aw) { w.raise(id, set) })
	}
	raise(true, 1, true)
	raise(true, 1, false)
	raise(true, 70000, true)
	raise(false, 70000, false)
	raise(false, 99, true)
	for _, id := range []int{1, 70000, 99} {
		for _, on := range []bool{true, false} {
			id, on := id, on
			op(id == 1, fmt.Sprintf("local(%d,%v)", id, on), func(w *aw) { w.local(id, on) })
		}
	}
	s5f3 := func(s bool, aled byte, ids ...*wire.Item) {
		it := wire.L(wire.B(aled), wire.L(ids...))
		op(s, fmt.Sprintf("S5F3 %v", it), func(w *aw) { w.s5f3(aled, it, ids, true) })
	}
	s5f3(true, 0, u4(1))
	s5f3(true, 0x80, u1(1))
	s5f3(true, 0, u4(70000), u4(1))
	s5f3(true, 0x80, u4(1), wire.U(8, 70000))
	s5f3(true, 0, u4(1), u4(99))
	s5f3(true, 0, wire.I(4, 70000))
	s5f3(false, 0x80, wire.I(1, 1))
	s5f3(false, 0x80, wire.I(8, 70000), wire.I(2, 1))
	s5f3(false, 0, u4(99))
	s5f3(false, 0, u4(99), u4(1))
	s5f3(false, 0, u2(1), u4(1))
	s5f3(false, 0, u4(1), wire.A("1"))
	s5f3(false, 0, wire.L(), u4(1))
	s5f3(false, 0, u4(1), wire.U(4))
	s5f3(false, 0, u4(1), wire.U(4, 70000, 1))
	s5f3(false, 0, wire.I(2))
	s5f3(false, 0, wire.U(8, 1<<63), u4(1))
	s5f3(false, 0, u4(1), wire.U(8, 1<<32+1))
	s5f3(false, 0, wire.U(8, 1<<32+1))
	s5f3(false, 0, wire.B(1))
	s5f3(false, 0, wire.I(1, -1))
	for _, it := range []*wire.Item{nil, wire.L(), wire.A("x"), wire.L(wire.B(0)), wire.L(wire.B(), wire.L(u4(1))), wire.L(wire.A(""), wire.L(u4(1))), wire.L(wire.U(1, 0), wire.L(u4(1))), wire.L(wire.B(0), wire.A("1")), wire.L(wire.B(0), wire.B(1))} {
		it := it
		op(false, fmt.Sprintf("malformed S5F3 %v", it), func(w *aw) { w.s5f3(0, it, nil, false) })
	}
	op(true, "register(2)", func(w *aw) { w.register(2, "late") })
	op(false, "register(4294967296)", func(w *aw) { w.register(1<<32, "big") })
	return
}

func runAlarms(x *X, ops []aop) {
	w := newAW(x)
	w.toComm()
	var n []string
	for _, o := range ops {
		n = append(n, o.name)
		o.do(w)
		w.lists(strings.Join(n, ", "))
		x.State(o.name, w.m.String())
	}
	if len(ops) == 0 {
		w.lists("nothing")
	}
	x.Eval(strings.Join(n, ","), true)
	x.Outcome("%v", w.m)
}

// runAlarmIDs registers one alarm with each id and uses it.
func runAlarmIDs(x *X, id int, text string) {
	w := newAW(x)
	w.register(id, text)
	w.toComm()
	w.raise(id, true)
	w.lists("raise")
	w.raise(id, false)
	for wd := 1; wd <= 8; wd *= 2 {
		for _, signed := range []bool{false, true} {
			var it *wire.Item
			switch {
			case signed && wd < 8 && uint64(id) >= 1<<(8*wd-1):
				continue
			case signed:
				it = wire.I(wd, int64(id))
			case wd < 8 && uint64(id) >= 1<<(8*wd):
				continue
			default:
				it = wire.U(wd, uint64(id))
			}
			for _, aled := range []byte{0, 0x80} {
				w.s5f3(aled, wire.L(wire.B(aled), wire.L(it)), []*wire.Item{it}, true)
				w.lists(fmt.Sprintf("S5F3 %d %v", aled, it))
				w.raise(id, true)
			}
		}
	}
	for _, q := range []*wire.Item{nil, wire.L(), wire.A(""), wire.U(4), wire.B(0)} {
		w.list("it all", 5, q, w.m.ids())
		w.list("it all", 7, q, w.m.ids())
	}
	x.Eval(fmt.Sprint(id, text), true)
}

func runHostAlarms(x *X, ops []int) {
	p := newPair(x)
	w := &aw{gw: p.e, m: almModel{}}
	w.register(1, "door")
	w.register(70000, "")
	w.register(7, "x \"y\"")
	var got []gem.AlarmEvent
	p.h.g.Events().AlarmReceived.AddCallback(func(d map[string]interface{}) { got = append(got, d["alarm"].(gem.AlarmEvent)) })
	p.up()
	for _, o := range ops {
		raise := func(id int, set bool) {
			n := len(got)
			var err error
			p.call("RaiseAlarm", func() { err = p.e.g.RaiseAlarm(id, set) })
			a := w.m[id]
			a.set = set
			w.m[id] = a
			ev := got[n:]
			if err != nil || a.enabled && (len(ev) != 1 || ev[0] != (gem.AlarmEvent{ID: id, Text: a.text, Set: set})) || !a.enabled && len(ev) != 0 {
				x.Failf("host", "RaiseAlarm(%d,%v) in [%v]: %v; the host saw %v", id, set, w.m, err, ev)
			}
		}
		enable := func(on bool, want int, ids ...int) {
			var ack byte
			var err error
			p.call("SendEnableAlarm", func() { ack, err = p.h.g.SendEnableAlarm(ids, on) })
			if err != nil || (ack == 0) != (want == 0) {
				x.Failf("host", "SendEnableAlarm(%v,%v) returned %d, %v", ids, on, ack, err)
			}
			if ack == 0 {
				for _, id := range ids {
					a := w.m[id]
					a.enabled = on
					w.m[id] = a
				}
			}
		}
		switch o {
		case 0:
			raise(1, true)
		case 1:
			raise(1, false)
		case 2:
			raise(70000, true)
		case 3:
			enable(false, 0, 1)
		case 4:
			enable(true, 0, 1, 70000)
		case 5:
			enable(false, 1, 70000, 99)
		case 6:
			enable(false, 0, 7, 70000)
		case 7:
			raise(7, true)
		}
		for _, only := range []bool{false, true} {
			var l []gem.AlarmInfo
			var err error
			if only {
				p.call("RequestEnabledAlarmList", func() { l, err = p.h.g.RequestEnabledAlarmList() })
			} else {
				p.call("RequestAlarmList", func() { l, err = p.h.g.RequestAlarmList() })
			}
			var want []gem.AlarmInfo
			for _, id := range w.m.ids() {
				if a := w.m[id]; a.enabled || !only {
					want = append(want, gem.AlarmInfo{ID: id, Text: a.text, Set: a.set, Enabled: a.enabled})
				}
			}
			if err != nil || fmt.Sprint(l) != fmt.Sprint(want) {
				x.Failf("host", "alarm list (enabled only %v) is %v, %v; want %v", only, l, err, want)
			}
		}
	}
	if len(p.e.s9)+len(p.h.s9) > 0 {
		x.Failf("s9", "%v %v", p.e.s9, p.h.s9)
	}
	x.Eval(fmt.Sprint(ops), true)
}

// runHostS5F1 sends the host every alarm code.
func runHostS5F1(x *X, lo, hi int) {
	gc := gcfgDefault
	gc.host = true
	w := newGW(x, gc)
	var got []gem.AlarmEvent
	w.g.Events().AlarmReceived.AddCallback(func(d map[string]interface{}) { got = append(got, d["alarm"].(gem.AlarmEvent)) })
	w.toComm()
	for c := lo; c < hi; c++ {
		for _, id := range []*wire.Item{u1(1), u2(70), u4(70000), wire.U(8, 1<<40), wire.I(1, 1), wire.I(2, 70), wire.I(4, 70000), wire.I(8, 1<<40)} {
			got = nil
			it := wire.L(wire.B(byte(c)), id, wire.A("text"))
			if body := w.ask(5, 1, it); body == nil {
				x.Failf("reply", "S5F1 %v answered without a body", it)
			}
			n, _ := almID(id)
			if len(got) != 1 || got[0] != (gem.AlarmEvent{ID: n, Text: "text", Set: c&0x80 != 0}) {
				x.Failf("host", "S5F1 %v shown as %v", it, got)
			}
			w.data(5, 1, false, it)
			w.settle()
			if o := w.take(); len(o) > 0 || len(got) != 2 || got[1] != got[0] {
				x.Failf("host", "S5F1 %v without wait bit answered by %s, shown as %v", it, frames(o), got)
			}
			x.Eval(it.String(), true)
		}
	}
}

// runAlarmRace runs application calls and host requests at the same time.
func runAlarmRace(x *X, apps []int, req *wire.Item, ids []*wire.Item) {
	w := newAW(x)
	w.toComm()
	w.settle()
	w.take()
	vrt.Explore(true)
	var done []*bool
	sets := map[bool]int{}
	for i, a := range apps {
		a := a
		if a < 2 {
			sets[a == 0]++
		}
		done = append(done, call(fmt.Sprintf("app%d", i), func() {
			var err error
			switch a {
			case 0:
				err = w.g.RaiseAlarm(1, true)
			case 1:
				err = w.g.ClearAlarm(1)
			case 2:
				err = w.g.DisableAlarm(1)
			case 3:
				err = w.g.EnableAlarm(1)
			}
			if err != nil {
				x.Failf("app", "%v", err)
			}
		}))
	}
	sys := uint32(0)
	if req != nil {
		sys = w.data(5, 3, true, req)
	}
	w.settle()
	vrt.Explore(false)
	w.finish("alarm calls", done...)
	n := map[bool]int{}
	last, replies := "", 0
	for _, f := range w.take() {
		if f.S() == 5 && f.F() == 4 && f.Sys == sys && ackOf(f.Item) == 0 {
			replies++
			continue
		}
		if f.S() != 5 || f.F() != 1 || f.Item == nil || len(f.Item.L) != 3 || len(f.Item.L[0].Data) != 1 {
			x.Failf("unexpected", "%v", f)
		}
		set := f.Item.L[0].Data[0]&0x80 != 0
		w.s5f1("race", f, 1, set)
		n[set]++
		last = fmt.Sprint(set)
	}
	if req != nil && replies != 1 {
		x.Failf("no-reply", "S5F3 answered %d times", replies)
	}
	got := w.ask(5, 5, wire.L())
	c := got.L[0].L[0].Data[0]
	always := true
	for _, a := range apps {
		always = always && a != 2
	}
	always = always && (req == nil || req.L[0].Data[0] == 0x80)
	for _, s := range []bool{false, true} {
		if n[s] > sets[s] || always && n[s] != sets[s] {
			x.Failf("count", "%d calls with set %v, %d reports", sets[s], s, n[s])
		}
	}
	if always && last != "" && last != fmt.Sprint(c&0x80 != 0) {
		x.Failf("order", "the last S5F1 said set %s but the list says %v", last, c&0x80 != 0)
	}
	// what some order of the operations leaves
	can := func(now bool, ops ...bool) map[bool]bool {
		m := map[bool]bool{}
		for _, o := range ops {
			m[o] = true
		}
		if len(m) == 0 {
			m[now] = true
		}
		return m
	}
	var en, st []bool
	for _, a := range apps {
		switch a {
		case 0, 1:
			st = append(st, a == 0)
		case 2, 3:
			en = append(en, a == 3)
		}
	}
	if req != nil {
		en = append(en, req.L[0].Data[0] == 0x80)
	}
	if !can(true, en...)[c&0x40 != 0] || !can(false, st...)[c&0x80 != 0] {
		x.Failf("lost", "set operations %v and enable operations %v leave the alarm as %#x", st, en, c)
	}
	w.m[1] = almState{text: "door", set: c&0x80 != 0, enabled: c&0x40 != 0}
	w.lists("the race")
	w.raise(1, true)
	x.Outcome("%v %v %x", n, last, c)
}

func c22(c *C) {
	long(c, longAlarms)
	texts(c, "host texts", textHostAlarms)
	c.Case("ALED", Opt{MaxSteps: 1 << 25}, alarmALED)
	o := Opt{MaxSteps: 1 << 22}
	small, all := aops()
	run := func(tag string, set []aop, ix []int) {
		var s []aop
		var n []string
		for _, i := range ix {
			s = append(s, set[i])
			n = append(n, fmt.Sprint(i))
		}
		c.Case(tag+" "+strings.Join(n, "."), o, func(x *X) { runAlarms(x, s) })
	}
	for d := 0; d <= c.Q(3, 4); d++ {
		set, tag := all, "all"
		if d > 2 {
			set, tag = small, "seq"
		}
		seqs(len(set), d, func(ix []int) { run(tag, set, ix) })
	}
	if c.Thorough {
		seqs(len(all), 3, func(ix []int) { run("all", all, ix) })
	}
	for _, id := range []int{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<62 - 1} {
		for _, text := range []string{"", "a", strings.Repeat("x", 40), strings.Repeat("y", 300)} {
			id, text := id, text
			c.Case(fmt.Sprintf("id %d, text of %d", id, len(text)), o, func(x *X) { runAlarmIDs(x, id, text) })
		}
	}
	for d := 1; d <= c.Q(3, 5); d++ {
		seqs(8, d, func(ix []int) {
			s := append([]int(nil), ix...)
			c.Case(fmt.Sprintf("host %v", s), o, func(x *X) { runHostAlarms(x, s) })
		})
	}
	for lo := 0; lo < 256; lo += 16 {
		lo := lo
		c.Case(fmt.Sprintf("codes %d", lo), o, func(x *X) { runHostS5F1(x, lo, lo+16) })
	}
	ro := Opt{Dev: c.Q(2, 3), Split: true, MaxSteps: 1 << 22}
	on, off := wire.L(wire.B(0x80), wire.L(u4(1))), wire.L(wire.B(0), wire.L(u4(1)))
	for _, apps := range [][]int{{0}, {0, 1}, {0, 0}, {0, 2}, {0, 3}, {2, 3}, {0, 2, 1}, {0, 1, 0}} {
		apps := apps
		for i, req := range []*wire.Item{nil, on, off} {
			req := req
			c.Case(fmt.Sprintf("race %v %d", apps, i), ro, func(x *X) { runAlarmRace(x, apps, req, nil) })
		}
	}
}
