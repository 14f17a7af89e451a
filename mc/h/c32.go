package h

import (
	"errors"
	"fmt"
	"strings"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C32", Level: "model_checking", Budget: [2]int{240, 850},
		Rule: "for every primary the equipment and the host register: every item tree to the depth and width bound over the leaf alphabet and every single (thorough: double) mutation of the well-formed bodies at every position; every stream and function with a few bodies; every sequence of messages of the alphabet to the length bound sent in one piece; in communicating and not-communicating states; each must be answered once by its reply, a stream 9 error or an abort, and a well-formed request afterwards must be answered with the right content; every host call answered with each such body must return",
		Run:  c32})
}

// rob is an endpoint under robustness test.
type rob struct {
	*gw
	odd bool // its texts are not ASCII
}

const robText = "Temp °C é"

func newRob(x *X, host, odd bool) *rob {
	gc := gcfgDefault
	gc.host = host
	r := &rob{odd: odd}
	name := "temp"
	if odd {
		name = robText
		gc.mdln, gc.softrev = "Ätzer", "1.0β"
	}
	r.gw = newGW(x, gc)
	if host {
		return r
	}
	w := r.gw
	w.addStatus(one{id: 10, name: name, unit: name, val: wire.A("ten"), how: "value"})
	w.addStatus(one{id: "v", name: name, unit: "", val: wire.L(wire.U(1, 1), wire.L()), how: "provider"})
	w.addStatus(one{id: 13, name: name, how: "value"})
	w.addStatus(one{id: 14, name: name, how: "error"})
	d, _ := gem.NewDataVariable(11, name, gem.WithDataValue(node(wire.U(2, 11))))
	w.g.RegisterDataVariable(d)
	w.addConst(one{id: 20, name: name, unit: name, val: wire.U(4, 5), min: wire.U(4, 0), max: wire.U(4, 9), how: "value"})
	ec, _ := gem.NewEquipmentConstant("ec", name, node(wire.A("abc")), gem.WithEquipmentConstantUnit(name), gem.WithEquipmentConstantValidator(func(n ast.ItemNode) error {
		if n.Type() != "ascii" {
			return errors.New("refused")
		}
		return nil
	}))
	w.g.RegisterEquipmentConstant(ec)
	for _, id := range []interface{}{1, "e"} {
		e, _ := gem.NewCollectionEvent(id, name)
		w.g.RegisterCollectionEvent(e)
	}
	w.g.RegisterAlarm(gem.Alarm{ID: 1, Text: name})
	w.g.RegisterAlarm(gem.Alarm{ID: 70000, Text: ""})
	w.g.RegisterProcessProgram("RECIPE", "body")
	w.g.SetRemoteCommandHandler(func(q gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
		var acks []gem.RemoteCommandParameterAck
		for _, p := range q.Parameters {
			acks = append(acks, gem.RemoteCommandParameterAck{Name: p.Name, Ack: gem.CPACKValueIllegal})
		}
		return gem.RemoteCommandResult{HCACK: gem.HCACKParameterInvalid, ParameterAcks: acks}, nil
	})
	return r
}

// settleOwn takes what was sent, answering and removing the endpoint's own
// primaries.
func (r *rob) settleOwn() (out []*wire.Frame) {
	for {
		r.settle()
		o := r.take()
		if len(o) == 0 {
			return
		}
		for _, f := range o {
			switch {
			case f.SType == 0 && f.S() == 1 && f.F() == 1 && f.W() && f.Sys < 0x50000000:
				r.reply(f, wire.L())
			case f.SType == 0 && f.S() == 1 && f.F() == 13 && f.W():
				// its own attempt to establish; left open
			case f.SType == 0 && (f.S() == 6 && f.F() == 11 || f.S() == 5 && f.F() == 1) && !f.W():
			default:
				out = append(out, f)
			}
		}
	}
}

// answersTo reports whether o answers the primary q.
func answersTo(o, q *wire.Frame) bool {
	if o.SType != 0 || o.W() {
		return false
	}
	return o.Sys == q.Sys && (o.S() == 9 || o.S() == q.S() && (o.F() == q.F()+1 || o.F() == 0))
}

// must sends messages in one piece and checks their answers.
func (r *rob) must(qs ...*wire.Frame) (own []*wire.Frame) {
	var b []byte
	for _, q := range qs {
		b = append(b, q.Encode()...)
		r.x.Logf("-> %s", trunc(q.String(), 300))
	}
	r.c.Inject(b)
	out := r.settleOwn()
	bad := func(q *wire.Frame, what string) {
		var names []string
		for _, q := range qs {
			names = append(names, q.String())
		}
		r.x.Failf("answer", "%v, sent %s: %s to %s; it sent %s", r.gc, trunc(strings.Join(names, ", "), 500), what, trunc(q.String(), 300), trunc(frames(out), 600))
	}
	used := make([]bool, len(out))
	for _, q := range qs {
		n := 0
		var a *wire.Frame
		for i, o := range out {
			if !used[i] && answersTo(o, q) {
				used[i] = true
				n++
				a = o
			}
		}
		want := q.W() && q.F()%2 == 1
		if want && n != 1 {
			bad(q, fmt.Sprintf("%d answers", n))
		}
		if !want && n > 0 && (n > 1 || a.S() != 9) {
			bad(q, "an answer not asked for")
		}
		own = append(own, a)
	}
	for i, o := range out {
		if !used[i] {
			bad(o, "nothing that matches")
		}
	}
	if !r.up() {
		r.x.Failf("lost", "%v closed the connection after %s", r.gc, frames(qs))
	}
	return
}

func (r *rob) q(s, f int, w bool, it *wire.Item) *wire.Frame {
	return wire.NewData(uint16(r.cfg.sess), s, f, w, r.nextSys(), it)
}

// get sends a well-formed request and returns the body of its own reply.
func (r *rob) get(s, f int, it *wire.Item) *wire.Item {
	a := r.must(r.q(s, f, true, it))[0]
	if a.S() != s || a.F() != f+1 {
		r.x.Failf("follow-up", "%v: well-formed S%dF%d %v answered by %v", r.gc, s, f, it, a)
	}
	return a.Item
}

// alive checks that well-formed requests are answered with the right content.
func (r *rob) alive(full bool) {
	eq := func(s, f int, it, want *wire.Item) {
		if got := r.get(s, f, it); !wire.Equal(got, want) {
			r.x.Failf("follow-up", "%v: S%dF%d %v answered with %v, want %v", r.gc, s, f, it, got, want)
		}
	}
	if r.gc.host {
		eq(1, 1, nil, wire.L(wire.L()))
		if full {
			if got := r.get(6, 11, wire.L(u1(1), u4(1), wire.L(wire.L(u4(1), wire.L(u1(1)))))); ackOf(got) != 0 {
				r.x.Failf("follow-up", "S6F11 answered with %v", got)
			}
			if got := r.get(5, 1, wire.L(wire.B(0x80), u4(1), wire.A("x"))); got == nil || len(got.L) != 1 && ackOf(got) != 0 {
				r.x.Failf("follow-up", "S5F1 answered with %v", got)
			}
		}
		return
	}
	eq(1, 3, wire.L(u4(10), wire.A("v")), wire.L(wire.A("ten"), wire.L(wire.U(1, 1), wire.L())))
	if !full {
		return
	}
	text := func(s string) *wire.Item {
		if r.odd && s != "" {
			return nil
		}
		return wire.A(s)
	}
	list := func(s, f int, it *wire.Item, n, m int, texts ...int) {
		got := r.get(s, f, it)
		ok := got != nil && got.F == wire.FL && len(got.L) == n
		for i := 0; ok && i < n && i < 1; i++ {
			ok = got.L[i].F == wire.FL && len(got.L[i].L) == m
			for _, t := range texts {
				want := text("temp")
				ok = ok && got.L[i].L[t].F == wire.FA && len(got.L[i].L[t].Data) > 0 && (want == nil || wire.Equal(got.L[i].L[t], want))
			}
		}
		if !ok {
			r.x.Failf("follow-up", "%v: S%dF%d %v answered with %v", r.gc, s, f, it, got)
		}
	}
	list(1, 11, wire.L(), 4, 3, 1, 2)
	list(2, 29, wire.L(), 2, 6, 1, 5)
	list(5, 5, wire.L(), 2, 3, 2)
	if got := r.get(1, 1, nil); got == nil || got.F != wire.FL {
		r.x.Failf("follow-up", "S1F1 answered with %v", got)
	}
	for _, a := range []struct {
		s, f int
		it   *wire.Item
	}{
		{2, 33, wire.L(u1(1), wire.L())},
		{2, 33, wire.L(u1(1), wire.L(wire.L(u4(5), wire.L(u4(10), u4(11)))))},
		{2, 35, wire.L(u1(1), wire.L(wire.L(u4(1), wire.L(u4(5)))))},
		{2, 37, wire.L(wire.Bool(true), wire.L())},
		{2, 15, wire.L(wire.L(u4(20), u4(6)))},
		{5, 3, wire.L(wire.B(0x80), wire.L(u4(1)))},
		{7, 3, wire.L(wire.A("RECIPE"), wire.A("new"))},
	} {
		if got := r.get(a.s, a.f, a.it); ackOf(got) != 0 {
			r.x.Failf("follow-up", "%v: well-formed S%dF%d %v answered with %v", r.gc, a.s, a.f, a.it, got)
		}
	}
	if got := r.get(6, 15, u4(1)); got == nil || len(got.L) != 3 || !wire.Equal(got.L[2], wire.L(wire.L(got.L[2].L[0].L[0], wire.L(wire.A("ten"), wire.U(2, 11))))) {
		r.x.Failf("follow-up", "S6F15 answered with %v", got)
	}
	eq(2, 13, wire.L(u4(20)), wire.L(u4(6)))
	if got := r.get(7, 5, wire.A("RECIPE")); got == nil || len(got.L) < 2 || !wire.Equal(got.L[1], wire.A("new")) {
		r.x.Failf("follow-up", "S7F5 answered with %v", got)
	}
	if got := r.get(2, 17, nil); got == nil || got.F != wire.FA {
		r.x.Failf("follow-up", "S2F17 answered with %v", got)
	}
	if got := r.get(2, 41, wire.L(wire.A("GO"), wire.L(wire.L(wire.A("P"), u1(1))))); got == nil || len(got.L) != 2 || ackOf(got.L[0]) != 3 || len(got.L[1].L) != 1 {
		r.x.Failf("follow-up", "S2F41 answered with %v", got)
	}
	var err error
	r.finish("RaiseAlarm", call("raise", func() { err = r.g.RaiseAlarm(1, true) }))
	r.settleOwn()
	if err != nil {
		r.x.Failf("follow-up", "RaiseAlarm: %v", err)
	}
}

// start brings it to COMMUNICATING, or only to SELECTED.
func (r *rob) start(comm bool) {
	if comm {
		r.toComm()
		r.take()
		return
	}
	r.toSel()
}

func (r *rob) toSel() {
	r.g.Enable()
	r.settle()
	r.selectNow()
	r.settleOwn()
}

// wellFormed are the bodies of the primaries of the equipment and the host.
func wellFormed(host bool) []struct {
	s, f int
	it   *wire.Item
} {
	type m = struct {
		s, f int
		it   *wire.Item
	}
	common := []m{{1, 1, nil}, {1, 13, wire.L()}, {1, 13, wire.L(wire.A("H"), wire.A("1"))}}
	if host {
		return append(common,
			m{5, 1, wire.L(wire.B(0x80), u4(1), wire.A("x"))},
			m{6, 11, wire.L(u1(1), u4(1), wire.L())},
			m{6, 11, wire.L(u4(1), wire.A("e"), wire.L(wire.L(u4(1), wire.L(u1(1), wire.A("v"))), wire.L(wire.A("r"), wire.L())))})
	}
	return append(common,
		m{1, 15, nil}, m{1, 17, nil}, m{2, 17, nil},
		m{1, 3, wire.L()}, m{1, 3, wire.L(u4(10), wire.A("v"))},
		m{1, 11, wire.L()}, m{1, 11, wire.L(u4(10), wire.A("v"))},
		m{2, 13, wire.L()}, m{2, 13, wire.L(u4(20), wire.A("ec"))},
		m{2, 29, wire.L()}, m{2, 29, wire.L(u4(20), wire.A("ec"))},
		m{2, 15, wire.L(wire.L(u4(20), u4(6)), wire.L(wire.A("ec"), wire.A("x")))},
		m{2, 31, wire.A("2024022912595900")},
		m{2, 33, wire.L(u4(1), wire.L(wire.L(u4(5), wire.L(u4(10), u4(11)))))},
		m{2, 33, wire.L(u4(1), wire.L())}, m{2, 33, wire.L(u4(1), wire.L(wire.L(u4(5), wire.L())))},
		m{2, 35, wire.L(u4(1), wire.L(wire.L(u4(1), wire.L(u4(5))), wire.L(wire.A("e"), wire.L())))},
		m{2, 37, wire.L(wire.Bool(true), wire.L(u4(1)))}, m{2, 37, wire.L(wire.Bool(false), wire.L())},
		m{2, 41, wire.L(wire.A("GO"), wire.L())}, m{2, 41, wire.L(wire.A("GO"), wire.L(wire.L(wire.A("P"), u1(1)), wire.L(wire.A("Q"), wire.L(u1(1)))))},
		m{5, 3, wire.L(wire.B(0x80), wire.L(u4(1), u4(70000)))}, m{5, 3, wire.L(wire.B(0), u4(1))},
		m{5, 5, wire.L()}, m{5, 5, wire.L(u4(1))}, m{5, 7, nil}, m{5, 7, wire.L()},
		m{6, 15, u4(1)}, m{6, 15, wire.L(u4(1))},
		m{7, 3, wire.L(wire.A("RECIPE"), wire.A("body"))}, m{7, 5, wire.A("RECIPE")}, m{7, 5, wire.L(wire.A("RECIPE"))})
}

func functions(host bool) (out [][2]int) {
	seen := map[[2]int]bool{}
	for _, m := range wellFormed(host) {
		k := [2]int{m.s, m.f}
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return
}

// robLeaves replace parts of well-formed bodies.
func robLeaves() []*wire.Item {
	return append(smallLeaves(), u1(1), u4(10), u4(99), wire.A("v"), wire.A("e"), wire.A("99999999999999"), wire.B(0), wire.B(0x80), wire.B(0xff), wire.U(8, 1<<64-1), wire.U(4, 1, 2), wire.I(8, -1<<63), wire.I(4, 10), wire.Bool(false), wire.Fl(8, 1e300), wire.L(wire.L()), wire.L(u4(1), u4(2), u4(3)))
}

// mutations calls f with every body that differs from it at one position.
func mutations(it *wire.Item, leaves []*wire.Item, f func(*wire.Item)) {
	if it == nil {
		for _, l := range leaves {
			f(l)
		}
		return
	}
	f(nil)
	for _, l := range leaves {
		f(l)
	}
	f(wire.L(it))
	if it.F != wire.FL {
		if n := len(it.Data); n > 0 {
			f(&wire.Item{F: it.F})
			f(&wire.Item{F: it.F, Data: append(append([]byte{}, it.Data...), it.Data...)})
			for _, g := range wire.AllFormats {
				if w := wire.Width(g); g != wire.FL && (w == 0 || n%w == 0) && g != it.F {
					d := append([]byte{}, it.Data...)
					if g == wire.FA || g == wire.FBOOL {
						for i := range d {
							d[i] &= 1
						}
					}
					f(&wire.Item{F: g, Data: d})
				}
			}
		}
		return
	}
	with := func(l ...*wire.Item) *wire.Item { return &wire.Item{F: wire.FL, L: append([]*wire.Item{}, l...)} }
	for i, e := range it.L {
		f(with(append(append([]*wire.Item{}, it.L[:i]...), it.L[i+1:]...)...))                 // without
		f(with(append(append(append([]*wire.Item{}, it.L[:i]...), e, e), it.L[i+1:]...)...))   // twice
		f(with(append(append(append([]*wire.Item{}, it.L[:i]...), wire.L()), it.L[i:]...)...)) // one more
		mutations(e, leaves, func(m *wire.Item) {
			if m == nil {
				return
			}
			l := append([]*wire.Item{}, it.L...)
			l[i] = m
			f(with(l...))
		})
	}
	f(with(append(append([]*wire.Item{}, it.L...), u4(1))...))
	if len(it.L) > 1 {
		l := append([]*wire.Item{}, it.L...)
		l[0], l[1] = l[1], l[0]
		f(with(l...))
	}
}

// runRobust sends bodies to one function.
func runRobust(x *X, host, odd, comm bool, s, f int, bodies []*wire.Item) {
	r := newRob(x, host, odd)
	r.start(comm)
	fresh := comm
	for i, b := range bodies {
		r.must(r.q(s, f, true, b))
		if comm {
			r.alive(i%64 == 63 || i == len(bodies)-1)
		} else {
			r.get(1, 1, nil)
		}
		if i%8 == 0 {
			r.must(r.q(s, f, false, b))
		}
		x.Eval(fmt.Sprintf("%v %v S%dF%d %v", r.gc, fresh, s, f, b), true)
	}
	if !comm {
		if a := r.get(1, 13, wire.L()); a == nil || len(a.L) == 0 || ackOf(a.L[0]) != 0 {
			x.Failf("follow-up", "%v: S1F13 answered with %v", r.gc, a)
		}
		if st := r.g.State(); st != gem.CommunicationStateCommunicating {
			x.Failf("follow-up", "%v after S1F13", st)
		}
		r.alive(true)
	}
}

// runFunctions sends every function of some streams.
func runFunctions(x *X, host, comm bool, lo, hi int) {
	r := newRob(x, host, false)
	r.start(comm)
	bodies := []*wire.Item{nil, wire.L(), wire.L(wire.L(u4(1), wire.L(wire.A("x")))), wire.B(0)}
	for s := lo; s < hi; s++ {
		for f := 0; f < 256; f++ {
			for _, w := range []bool{true, false} {
				for _, b := range bodies {
					if w && (f%2 == 0 || s == 9) {
						continue // not a valid message
					}
					r.must(r.q(s, f, w, b))
					x.Eval(fmt.Sprintf("%v %v S%dF%d %v %v", r.gc, comm, s, f, w, b), true)
				}
			}
			if !comm {
				r.get(1, 1, nil)
			} else if f%16 == 15 {
				r.alive(f == 255)
			}
		}
	}
}

// runSequence sends messages in one piece.
func runSequence(x *X, host bool, msgs []func(r *rob) *wire.Frame) {
	r := newRob(x, host, false)
	r.start(true)
	var qs []*wire.Frame
	var n []string
	for _, m := range msgs {
		q := m(r)
		qs = append(qs, q)
		n = append(n, fmt.Sprintf("S%dF%d %v %v", q.S(), q.F(), q.W(), q.Item))
	}
	r.must(qs...)
	if r.g.State() != gem.CommunicationStateCommunicating {
		x.Failf("state", "no longer communicating after %v", n)
	}
	r.alive(true)
	x.Eval(strings.Join(n, ", "), true)
}

// hostCalls are the host's requests; each returns once answered.
var hostCalls = []struct {
	name string
	s, f int
	ok   []*wire.Item // well-formed answers
	do   func(g *gem.GemHandler) error
}{
	{"RequestStatusVariables", 1, 3, []*wire.Item{wire.L(u1(1), wire.L())}, func(g *gem.GemHandler) error { _, err := g.RequestStatusVariables(10, "v"); return err }},
	{"RequestStatusVariableInfo", 1, 11, []*wire.Item{wire.L(wire.L(u1(10), wire.A("n"), wire.A("u")))}, func(g *gem.GemHandler) error { _, err := g.RequestStatusVariableInfo(10); return err }},
	{"RequestEquipmentConstants", 2, 13, []*wire.Item{wire.L(u1(1), wire.L())}, func(g *gem.GemHandler) error { _, err := g.RequestEquipmentConstants(20, "ec"); return err }},
	{"RequestEquipmentConstantInfo", 2, 29, []*wire.Item{wire.L(wire.L(u1(20), wire.A("n"), u1(0), u1(9), u1(5), wire.A("u")))}, func(g *gem.GemHandler) error { _, err := g.RequestEquipmentConstantInfo(20); return err }},
	{"SendEquipmentConstantValues", 2, 15, []*wire.Item{wire.B(0), wire.B(3)}, func(g *gem.GemHandler) error {
		_, err := g.SendEquipmentConstantValues([]gem.EquipmentConstantUpdate{{ID: 20, Value: node(u1(1))}})
		return err
	}},
	{"DefineReports", 2, 33, []*wire.Item{wire.B(0)}, func(g *gem.GemHandler) error {
		_, err := g.DefineReports(gem.ReportDefinitionRequest{ReportID: 1, VIDs: []interface{}{1}})
		return err
	}},
	{"LinkEventReports", 2, 35, []*wire.Item{wire.B(0)}, func(g *gem.GemHandler) error {
		_, err := g.LinkEventReports(gem.EventReportLinkRequest{CEID: 1, ReportIDs: []interface{}{1}})
		return err
	}},
	{"EnableEventReports", 2, 37, []*wire.Item{wire.B(0)}, func(g *gem.GemHandler) error { _, err := g.EnableEventReports(true); return err }},
	{"RequestCollectionEventReport", 6, 15, []*wire.Item{wire.L(u1(1), u4(1), wire.L(wire.L(u4(1), wire.L(u1(1)))))}, func(g *gem.GemHandler) error { _, err := g.RequestCollectionEventReport(1); return err }},
	{"UploadProcessProgram", 7, 3, []*wire.Item{wire.B(0)}, func(g *gem.GemHandler) error { _, err := g.UploadProcessProgram("P", "body"); return err }},
	{"RequestProcessProgram", 7, 5, []*wire.Item{wire.L(wire.A("P"), wire.A("body"), wire.B(0)), wire.L(wire.A("P"), wire.B(1))}, func(g *gem.GemHandler) error { _, _, err := g.RequestProcessProgram("P"); return err }},
	{"SendRemoteCommand", 2, 41, []*wire.Item{wire.L(wire.B(0), wire.L()), wire.L(wire.B(3), wire.L(wire.L(wire.A("P"), wire.B(1))))}, func(g *gem.GemHandler) error {
		_, err := g.SendRemoteCommand("GO", []gem.RemoteCommandParameterValue{{Name: "P", Value: 1}})
		return err
	}},
	{"SendEnableAlarm", 5, 3, []*wire.Item{wire.B(0)}, func(g *gem.GemHandler) error { _, err := g.SendEnableAlarm([]int{1}, true); return err }},
	{"RequestAlarmList", 5, 5, []*wire.Item{wire.L(wire.L(wire.B(0x80), u4(1), wire.A("x")))}, func(g *gem.GemHandler) error { _, err := g.RequestAlarmList(); return err }},
	{"RequestEnabledAlarmList", 5, 7, []*wire.Item{wire.L(wire.L(wire.B(0x80), u4(1), wire.A("x")))}, func(g *gem.GemHandler) error { _, err := g.RequestEnabledAlarmList(); return err }},
	{"RequestDateTime", 2, 17, []*wire.Item{wire.A("2024022912595900")}, func(g *gem.GemHandler) error { _, err := g.RequestDateTime(); return err }},
	{"SetDateTime", 2, 31, []*wire.Item{wire.B(0)}, func(g *gem.GemHandler) error { _, err := g.SetDateTime("2024022912595900"); return err }},
}

// runReplies answers one host call with every body.
func runReplies(x *X, k int, bodies []*wire.Item) {
	hc := hostCalls[k]
	r := newRob(x, true, false)
	r.start(true)
	one := func(what string, answer func(q *wire.Frame)) error {
		var err error
		r.settleOwn()
		done := call(hc.name, func() { err = hc.do(r.g) })
		o := r.settleOwn()
		if len(o) != 1 || o[0].S() != hc.s || o[0].F() != hc.f || !o[0].W() {
			x.Failf("request", "%s: %v, sent %s", hc.name, err, frames(o))
		}
		answer(o[0])
		if s := r.settleOwn(); len(s) > 0 {
			x.Failf("reply", "%s answered with %s: it sent %s", hc.name, what, frames(s))
		}
		if !*done {
			x.Failf("reply", "%s answered with %s does not return", hc.name, what)
		}
		x.Eval(hc.name+" "+what, true)
		return err
	}
	well := func() {
		for _, ok := range hc.ok {
			if err := one(ok.String(), func(q *wire.Frame) { r.reply(q, ok) }); err != nil {
				x.Failf("reply", "%s answered with %v: %v", hc.name, ok, err)
			}
		}
	}
	well()
	for i, b := range bodies {
		one(b.String(), func(q *wire.Frame) { r.reply(q, b) })
		if i%64 == 63 {
			well()
		}
	}
	for f := 0; f < 256; f += 2 {
		for _, s := range []int{hc.s, 1, 9, 127} {
			if s == 9 || f == 0 && s != hc.s {
				continue
			}
			for _, b := range []*wire.Item{nil, wire.L(), wire.B(0)} {
				if s == hc.s && f == hc.f+1 {
					continue
				}
				one(fmt.Sprintf("S%dF%d", s, f), func(q *wire.Frame) {
					r.send(wire.NewData(uint16(r.cfg.sess), s, f, false, q.Sys, b))
				})
			}
		}
	}
	well()
	r.alive(true)
	if r.gc.host {
		vrt.Idle()
	}
}

func c32(c *C) {
	o := Opt{MaxSteps: 1 << 28}
	var gen []*wire.Item
	gen = append(gen, nil)
	gen = append(gen, leafItems()...)
	trees(2, 2, robLeaves()[:c.Q(12, 21)], func(it *wire.Item) { gen = append(gen, it) })
	trees(3, 2, []*wire.Item{u4(10), wire.A("v"), wire.Bool(true)}[:c.Q(1, 2)], func(it *wire.Item) { gen = append(gen, it) })
	trees(1, 3, robLeaves()[:c.Q(10, 21)], func(it *wire.Item) { gen = append(gen, it) })
	deep := wire.L()
	for i := 0; i < 250; i++ {
		deep = wire.L(deep, u1(1))
		if i%50 == 0 {
			gen = append(gen, deep)
		}
	}
	for _, f := range wire.AllFormats {
		gen = append(gen, sized(f, 300), sized(f, 70000/max(1, wire.Width(f))))
	}
	leaves := robLeaves()
	small := []*wire.Item{wire.L(), u4(1), wire.A("v"), wire.B(), wire.U(4), wire.L(u4(1))}
	chunk := func(name string, l []*wire.Item, n int, f func(name string, part []*wire.Item)) {
		for i := 0; i < len(l); i += n {
			f(fmt.Sprintf("%s #%d", name, i/n), l[i:min(i+n, len(l))])
		}
	}
	muts := func(it *wire.Item) (out []*wire.Item) {
		mutations(it, leaves, func(m *wire.Item) { out = append(out, m) })
		if c.Thorough {
			var first []*wire.Item
			mutations(it, small, func(m *wire.Item) { first = append(first, m) })
			for _, m := range first {
				if m != nil {
					mutations(m, small, func(m *wire.Item) { out = append(out, m) })
				}
			}
		}
		return
	}
	for _, host := range []bool{false, true} {
		for _, comm := range []bool{true, false} {
			host, comm := host, comm
			n := fmt.Sprintf("host=%v comm=%v", host, comm)
			for _, m := range wellFormed(host) {
				m := m
				for _, odd := range []bool{false, true} {
					odd := odd
					if odd && (host || !comm) {
						continue
					}
					chunk(fmt.Sprintf("%s odd=%v S%dF%d mutations of %v", n, odd, m.s, m.f, m.it), append(muts(m.it), m.it), 400, func(name string, part []*wire.Item) {
						c.Case(name, o, func(x *X) { runRobust(x, host, odd, comm, m.s, m.f, part) })
					})
				}
			}
			for s := 0; s < 128; s += 4 {
				s := s
				c.Case(fmt.Sprintf("%s streams %d..", n, s), o, func(x *X) { runFunctions(x, host, comm, s, s+4) })
			}
			for _, k := range functions(host) {
				k := k
				g := gen
				if !comm && !c.Thorough {
					g = gen[:600]
				}
				chunk(fmt.Sprintf("%s S%dF%d bodies", n, k[0], k[1]), g, 400, func(name string, part []*wire.Item) {
					c.Case(name, o, func(x *X) { runRobust(x, host, false, comm, k[0], k[1], part) })
				})
			}
		}
	}
	for k := range hostCalls {
		k := k
		var bodies []*wire.Item
		for _, ok := range hostCalls[k].ok {
			bodies = append(bodies, muts(ok)...)
		}
		bodies = append(bodies, gen[:c.Q(2000, len(gen))]...)
		chunk("replies to "+hostCalls[k].name, bodies, 500, func(name string, part []*wire.Item) {
			c.Case(name, o, func(x *X) { runReplies(x, k, part) })
		})
	}
	for _, host := range []bool{false, true} {
		host := host
		var al []func(r *rob) *wire.Frame
		for _, m := range wellFormed(host) {
			m := m
			al = append(al, func(r *rob) *wire.Frame { return r.q(m.s, m.f, true, m.it) })
		}
		for _, k := range functions(host) {
			k := k
			al = append(al, func(r *rob) *wire.Frame { return r.q(k[0], k[1], true, wire.B(1, 2, 3)) })
		}
		al = append(al, func(r *rob) *wire.Frame { return r.q(99, 1, true, nil) }, func(r *rob) *wire.Frame { return r.q(1, 99, true, wire.L()) }, func(r *rob) *wire.Frame { return r.q(1, 14, false, wire.L()) }, func(r *rob) *wire.Frame { return r.q(1, 0, false, nil) }, func(r *rob) *wire.Frame { return r.q(2, 33, false, wire.L()) })
		for n := 1; n <= c.Q(2, 3); n++ {
			seqs(len(al), n, func(ix []int) {
				var l []func(r *rob) *wire.Frame
				for _, i := range ix {
					l = append(l, al[i])
				}
				c.Case(fmt.Sprintf("host=%v sequence %v", host, ix), o, func(x *X) { runSequence(x, host, l) })
			})
		}
	}
}
