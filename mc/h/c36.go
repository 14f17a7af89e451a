package h

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C35", Level: "model_checking", Budget: [2]int{200, 850},
		Rule: "every host call answered by every reply function of every stream of the alphabet, every stream 9 function, every body of the alphabet, a reject, the loss of the session and silence; the result is compared with what its own well-formed reply says",
		Run:  c35})
	register(&Check{ID: "C36", Level: "model_checking", Budget: [2]int{200, 850},
		Rule: "every exported GEM operation in every stage of the life of an endpoint of both device types: its result, what is on the wire and what it leaves are compared with the table of roles; operations racing with the loss of communication under every schedule to the deviation bound",
		Run:  c36})
}

// gop is one exported operation of the GEM handler.
type gop struct {
	name  string
	s, f  int // the primary it sends, 0 if none
	wait  bool
	ack   bool // its result is the acknowledge code of the reply
	host  bool // for hosts
	equip bool // for equipment
	comm  bool // needs COMMUNICATING
	do    func(g *gem.GemHandler) (string, error)
	ok    *wire.Item // a well-formed reply
	want  string     // and the result it means
	rep   bool       // may be called again
}

func gops() []gop {
	var l []gop
	host := func(name string, s, f int, ok *wire.Item, want string, do func(g *gem.GemHandler) (string, error)) {
		l = append(l, gop{name: name, s: s, f: f, wait: true, host: true, comm: true, do: do, ok: ok, want: want, rep: true})
	}
	ack := func(name string, s, f int, do func(g *gem.GemHandler) (int, error)) {
		host(name, s, f, wire.B(0), "0", func(g *gem.GemHandler) (string, error) {
			n, err := do(g)
			return fmt.Sprint(n), err
		})
		l[len(l)-1].ack = true
	}
	host("RequestStatusVariables", 1, 3, wire.L(u4(5), wire.A("x")), "1=U4[5] 2=\"x\"", func(g *gem.GemHandler) (string, error) {
		v, err := g.RequestStatusVariables(1, 2)
		var s []string
		for _, e := range v {
			s = append(s, fmt.Sprintf("%v=%s", e.ID, value(e.Value)))
		}
		return strings.Join(s, " "), err
	})
	host("RequestStatusVariableInfo", 1, 11, wire.L(wire.L(u4(1), wire.A("n"), wire.A("u"))), "[{1 n u}]", func(g *gem.GemHandler) (string, error) {
		v, err := g.RequestStatusVariableInfo(1)
		return fmt.Sprint(v), err
	})
	host("RequestEquipmentConstants", 2, 13, wire.L(u4(5)), "1=U4[5]", func(g *gem.GemHandler) (string, error) {
		v, err := g.RequestEquipmentConstants(1)
		var s []string
		for _, e := range v {
			s = append(s, fmt.Sprintf("%v=%s", e.ID, value(e.Value)))
		}
		return strings.Join(s, " "), err
	})
	host("RequestEquipmentConstantInfo", 2, 29, wire.L(wire.L(u4(1), wire.A("n"), u4(0), u4(9), u4(5), wire.A("u"))), "1 n u U4[0] U4[9] U4[5]", func(g *gem.GemHandler) (string, error) {
		v, err := g.RequestEquipmentConstantInfo(1)
		var s []string
		for _, e := range v {
			s = append(s, fmt.Sprintf("%v %s %s %s %s %s", e.ID, e.Name, e.Unit, value(e.Min), value(e.Max), value(e.Default)))
		}
		return strings.Join(s, ","), err
	})
	ack("DefineReports", 2, 33, func(g *gem.GemHandler) (int, error) {
		return g.DefineReports(gem.ReportDefinitionRequest{ReportID: 1, VIDs: []interface{}{1}})
	})
	ack("LinkEventReports", 2, 35, func(g *gem.GemHandler) (int, error) {
		return g.LinkEventReports(gem.EventReportLinkRequest{CEID: 1, ReportIDs: []interface{}{1}})
	})
	ack("EnableEventReports", 2, 37, func(g *gem.GemHandler) (int, error) { return g.EnableEventReports(true, 1) })
	ack("SendEquipmentConstantValues", 2, 15, func(g *gem.GemHandler) (int, error) {
		return g.SendEquipmentConstantValues([]gem.EquipmentConstantUpdate{{ID: 1, Value: ast.NewUintNode(4, 1)}})
	})
	ack("UploadProcessProgram", 7, 3, func(g *gem.GemHandler) (int, error) { return g.UploadProcessProgram("P", "body") })
	host("RequestProcessProgram", 7, 5, wire.L(wire.A("P"), wire.A("body")), "body 0", func(g *gem.GemHandler) (string, error) {
		b, n, err := g.RequestProcessProgram("P")
		return fmt.Sprint(b, " ", n), err
	})
	host("RequestCollectionEventReport", 6, 15, wire.L(u1(0), u4(1), wire.L(wire.L(u4(7), wire.L(u4(5))))), "1 [7 U4[5]]", func(g *gem.GemHandler) (string, error) {
		r, err := g.RequestCollectionEventReport(1)
		s := fmt.Sprint(r.CEID)
		for _, p := range r.Reports {
			s += fmt.Sprintf(" [%v", p.RPTID)
			for _, v := range p.Values {
				s += " " + value(v)
			}
			s += "]"
		}
		return s, err
	})
	ack("SendEnableAlarm", 5, 3, func(g *gem.GemHandler) (int, error) {
		n, err := g.SendEnableAlarm([]int{1}, true)
		return int(n), err
	})
	host("RequestAlarmList", 5, 5, wire.L(wire.L(wire.B(0xc0), u4(1), wire.A("t"))), "[{1 t true true}]", func(g *gem.GemHandler) (string, error) {
		v, err := g.RequestAlarmList()
		return fmt.Sprint(v), err
	})
	host("RequestEnabledAlarmList", 5, 7, wire.L(wire.L(wire.B(0x40), u4(1), wire.A("t"))), "[{1 t false true}]", func(g *gem.GemHandler) (string, error) {
		v, err := g.RequestEnabledAlarmList()
		return fmt.Sprint(v), err
	})
	host("SendRemoteCommand", 2, 41, wire.L(wire.B(0), wire.L()), "0 []", func(g *gem.GemHandler) (string, error) {
		r, err := g.SendRemoteCommand("GO", nil)
		return fmt.Sprint(int(r.HCACK), r.ParameterAcks), err
	})
	host("RequestDateTime", 2, 17, wire.A("2024010203040500"), "2024010203040500", func(g *gem.GemHandler) (string, error) { return g.RequestDateTime() })
	ack("SetDateTime", 2, 31, func(g *gem.GemHandler) (int, error) {
		n, err := g.SetDateTime("2024010203040500")
		return int(n), err
	})
	eq := func(name string, s, f int, do func(g *gem.GemHandler) error) {
		l = append(l, gop{name: name, s: s, f: f, equip: true, comm: s > 0, rep: s > 0, do: func(g *gem.GemHandler) (string, error) { return "", do(g) }})
	}
	eq("RaiseAlarm", 5, 1, func(g *gem.GemHandler) error { return g.RaiseAlarm(1, true) })
	eq("ClearAlarm", 5, 1, func(g *gem.GemHandler) error { return g.ClearAlarm(1) })
	eq("TriggerCollectionEvent", 6, 11, func(g *gem.GemHandler) error { return g.TriggerCollectionEvent(1) })
	eq("RegisterStatusVariable", 0, 0, func(g *gem.GemHandler) error {
		v, err := gem.NewStatusVariable(77, "n", "u", gem.WithStatusValue(ast.NewUintNode(4, 1)))
		if err != nil {
			return err
		}
		return g.RegisterStatusVariable(v)
	})
	eq("RegisterEquipmentConstant", 0, 0, func(g *gem.GemHandler) error {
		v, err := gem.NewEquipmentConstant(77, "n", ast.NewUintNode(4, 1))
		if err != nil {
			return err
		}
		return g.RegisterEquipmentConstant(v)
	})
	eq("RegisterDataVariable", 0, 0, func(g *gem.GemHandler) error {
		v, err := gem.NewDataVariable(78, "n", gem.WithDataValue(ast.NewUintNode(4, 1)))
		if err != nil {
			return err
		}
		return g.RegisterDataVariable(v)
	})
	eq("RegisterCollectionEvent", 0, 0, func(g *gem.GemHandler) error {
		v, err := gem.NewCollectionEvent(77, "n")
		if err != nil {
			return err
		}
		return g.RegisterCollectionEvent(v)
	})
	eq("RegisterProcessProgram", 0, 0, func(g *gem.GemHandler) error { return g.RegisterProcessProgram("Q", "b") })
	return l
}

func hostGW(x *X) *gw {
	gc := gcfgDefault
	gc.host = true
	w := newGW(x, gc)
	w.toComm()
	w.settle()
	w.take()
	return w
}

// begin starts an operation and returns the primary it sends.
func (w *gw) begin(o gop) (res *string, err *error, done *bool, f *wire.Frame) {
	res, err = new(string), new(error)
	done = call(o.name, func() { *res, *err = o.do(w.g) })
	w.settle()
	out := w.take()
	if len(out) != 1 || out[0].SType != 0 || out[0].S() != o.s || out[0].F() != o.f || o.wait && !out[0].W() || int(out[0].Session) != w.cfg.sess || *done == o.wait {
		w.x.Failf("request", "%s sent %s (returned: %v, %v)", o.name, frames(out), *done, *err)
	}
	return res, err, done, out[0]
}

// runAnswer has every answer of one stream to one call.
func runAnswer(x *X, o gop, stream int) {
	w := hostGW(x)
	bodies := []*wire.Item{o.ok, nil, wire.B(0), wire.B(0, 1, 0x82, 0x21, 0, 0, 0, 0, 0, 1), wire.L(wire.B(0), wire.L()), wire.L()}
	for f := 0; f < 256; f++ {
		if f%2 == 1 && stream != 9 || stream == o.s && f == o.f+1 {
			continue
		}
		for _, b := range bodies {
			res, err, done, q := w.begin(o)
			w.send(wire.NewData(uint16(w.cfg.sess), stream, f, false, q.Sys, b))
			w.settle()
			if out := w.take(); len(out) > 0 {
				x.Failf("answered", "%s: the reply S%dF%d %v was answered by %s", o.name, stream, f, b, frames(out))
			}
			if !*done || *err == nil {
				x.Failf("foreign", "%s answered by S%dF%d %v: returned %v %q, %v", o.name, stream, f, b, *done, *res, *err)
			}
			x.Eval(fmt.Sprintf("%s S%dF%d %v", o.name, stream, f, b), true)
		}
		// and its own reply still counts
		if f%16 == 0 {
			res, err, done, q := w.begin(o)
			w.reply(q, o.ok)
			w.settle()
			if !*done || *err != nil || *res != o.want {
				x.Failf("own", "%s answered by %v: returned %v %q, %v", o.name, o.ok, *done, *res, *err)
			}
		}
	}
	x.Outcome("stream %d refused", stream)
}

// runAnswerBodies has every body of the alphabet in the reply to one call.
func runAnswerBodies(x *X, o gop, bodies []*wire.Item) {
	w := hostGW(x)
	for _, b := range bodies {
		res, err, done, q := w.begin(o)
		w.reply(q, b)
		w.settle()
		if out := w.take(); len(out) > 0 || !*done {
			x.Failf("body", "%s: the reply %v was answered by %s; returned: %v", o.name, b, frames(out), *done)
		}
		switch {
		case wire.Equal(b, o.ok):
			if *err != nil || *res != o.want {
				x.Failf("own", "%s answered by %v: %q, %v", o.name, b, *res, *err)
			}
		case o.ack:
			// the code, or, tolerated, the first code in a list
			c := b
			if b != nil && b.F == wire.FL && len(b.L) > 0 {
				c = b.L[0]
			}
			has := c != nil && c.F == wire.FB && len(c.Data) > 0
			if *err == nil && (!has || *res != fmt.Sprint(c.Data[0])) || *err != nil && b != nil && b.F == wire.FB && len(b.Data) == 1 {
				x.Failf("ack", "%s answered by %v: %q, %v", o.name, b, *res, *err)
			}
		case *err == nil && (b == nil || o.ok.F != b.F):
			x.Failf("malformed", "%s answered by %v: %q", o.name, b, *res)
		default:
			if want, form := saysWhat(o.name, b); form < 0 && *err == nil || form > 0 && (*err != nil || *res != want) {
				x.Failf("meaning", "%s answered by %v: %q, %v; it says %q (%d)", o.name, b, *res, *err, want, form)
			}
		}
		x.Eval(fmt.Sprintf("%s %v", o.name, b), true)
	}
}

// saysWhat is the result a reply means (form 1), if it is well-formed; -1: it
// is no answer to the request; 0: neither, tolerated with any result.
func saysWhat(name string, b *wire.Item) (string, int) {
	if b == nil || b.F != wire.FL && name != "RequestDateTime" {
		return "", -1
	}
	one := func(it *wire.Item) bool { return it.F == wire.FB && len(it.Data) == 1 }
	id := func(it *wire.Item) bool { return idKey(it) != "" && (it.F != wire.FA || len(it.Data) > 0) }
	show := func(it *wire.Item) string {
		if it.F == wire.FA {
			return string(it.Data)
		}
		return strings.TrimPrefix(idKey(it), "N:")
	}
	switch name {
	case "RequestStatusVariables", "RequestEquipmentConstants":
		n := map[string]int{"RequestStatusVariables": 2, "RequestEquipmentConstants": 1}[name]
		if len(b.L) != n {
			return "", -1
		}
		var s []string
		for i, v := range b.L {
			s = append(s, fmt.Sprintf("%d=%v", i+1, v))
		}
		return strings.Join(s, " "), 1
	case "RequestStatusVariableInfo":
		s := []string{}
		for _, e := range b.L {
			if e.F != wire.FL || len(e.L) != 3 || !id(e.L[0]) || e.L[1].F != wire.FA || e.L[2].F != wire.FA {
				return "", 0
			}
			s = append(s, fmt.Sprintf("{%s %s %s}", show(e.L[0]), e.L[1].Data, e.L[2].Data))
		}
		return "[" + strings.Join(s, " ") + "]", 1
	case "RequestProcessProgram":
		if len(b.L) < 2 {
			return "", -1
		}
		if len(b.L) > 2 || b.L[0].F != wire.FA || b.L[1].F != wire.FA && b.L[1].F != wire.FB {
			return "", 0
		}
		return string(b.L[1].Data) + " 0", 1
	case "RequestAlarmList", "RequestEnabledAlarmList":
		s := []string{}
		for _, e := range b.L {
			if e.F != wire.FL || len(e.L) != 3 || !one(e.L[0]) || !id(e.L[1]) || e.L[1].F == wire.FA || e.L[2].F != wire.FA {
				return "", 0
			}
			c := e.L[0].Data[0]
			s = append(s, fmt.Sprintf("{%s %s %v %v}", show(e.L[1]), e.L[2].Data, c&0x80 > 0, c&0x40 > 0))
		}
		return "[" + strings.Join(s, " ") + "]", 1
	case "RequestDateTime":
		if b.F != wire.FA {
			return "", -1
		}
		return string(b.Data), 1
	}
	return "", 0
}

// runNoAnswer ends one call in another way.
func runNoAnswer(x *X, o gop, how string) {
	w := hostGW(x)
	_, err, done, q := w.begin(o)
	switch how {
	case "silence":
		w.wait(time.Duration(w.cfg.t3)*sec - 500*time.Millisecond)
		if *done {
			x.Failf("early", "%s returned %v before T3", o.name, *err)
		}
		w.wait(sec)
	case "reject":
		w.send(wire.NewCtrl(wire.RejectReq, uint16(w.cfg.sess), 0, 4, q.Sys))
	case "close":
		w.c.Shut(false)
		w.wait(time.Duration(w.cfg.t3) * sec)
	case "deselect":
		w.send(wire.NewCtrl(wire.DeselectReq, uint16(w.cfg.sess), 0, 0, w.nextSys()))
		w.wait(time.Duration(w.cfg.t3) * sec)
	case "separate":
		w.send(wire.NewCtrl(wire.SeparateReq, uint16(w.cfg.sess), 0, 0, w.nextSys()))
		w.wait(time.Duration(w.cfg.t3) * sec)
	case "disable":
		d := call("Disable", w.g.Disable)
		w.finish("Disable", d)
		w.wait(time.Duration(w.cfg.t3) * sec)
	case "primary": // not an answer
		w.send(wire.NewData(uint16(w.cfg.sess), o.s, o.f, false, q.Sys, o.ok))
		w.settle()
		if *done {
			x.Failf("foreign", "%s ended by a primary: %v", o.name, *err)
		}
		w.wait(time.Duration(w.cfg.t3) * sec)
	}
	w.settle()
	if !*done || *err == nil {
		x.Failf("no-answer", "%s after %s: returned %v, %v", o.name, how, *done, *err)
	}
	x.Eval(o.name+" "+how, true)
	x.Outcome("%v", *err)
}

func answerBodies(deep bool) []*wire.Item {
	leaf := []*wire.Item{wire.B(), wire.B(0), wire.B(1), wire.B(0x40), wire.B(255), wire.B(0, 0), wire.A(""), wire.A("x"), u1(0), wire.U(4), u4(1), wire.I(2, -1), wire.Bool(false), wire.Fl(4, 1), wire.L()}
	l := append([]*wire.Item{nil}, leaf...)
	for _, a := range leaf {
		l = append(l, wire.L(a))
		for _, b := range leaf {
			l = append(l, wire.L(a, b), wire.L(wire.L(a, b)))
			if deep {
				for _, c := range leaf {
					l = append(l, wire.L(a, b, c), wire.L(wire.L(a, b, c)), wire.L(a, wire.L(b, c)), wire.L(wire.L(a), wire.L(b, c)))
				}
			}
		}
	}
	return l
}

func c35(c *C) {
	o := Opt{MaxSteps: 1 << 40}
	streams := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 64, 126, 127}
	if c.Thorough {
		streams = nil
		for s := 0; s < 128; s++ {
			streams = append(streams, s)
		}
	}
	for _, op := range gops() {
		if !op.host {
			continue
		}
		op := op
		for _, s := range streams {
			s := s
			c.Case(fmt.Sprintf("%s answered by stream %d", op.name, s), o, func(x *X) { vrt.MaxPts(1 << 31); runAnswer(x, op, s) })
		}
		bodies := append([]*wire.Item{op.ok}, answerBodies(true)...)
		if op.ack {
			for v := 0; v < 256; v++ {
				bodies = append(bodies, wire.B(byte(v)))
			}
		}
		for i := 0; i < len(bodies); i += 500 {
			part := bodies[i:min(i+500, len(bodies))]
			c.Case(fmt.Sprintf("%s bodies %d", op.name, i), o, func(x *X) { vrt.MaxPts(1 << 31); runAnswerBodies(x, op, part) })
		}
		for _, how := range []string{"silence", "reject", "close", "deselect", "separate", "disable", "primary"} {
			how := how
			c.Case(fmt.Sprintf("%s then %s", op.name, how), o, func(x *X) { runNoAnswer(x, op, how) })
		}
	}
}

// ---- C36

// guardEq registers what the equipment operations refer to.
func guardEq(x *X, g *gem.GemHandler) {
	g.RegisterAlarm(gem.Alarm{ID: 1, Text: "t"})
	ce, err := gem.NewCollectionEvent(1, "e")
	if err == nil {
		err = g.RegisterCollectionEvent(ce)
	}
	if err == nil {
		var v *gem.StatusVariable
		if v, err = gem.NewStatusVariable(1, "n", "u", gem.WithStatusValue(ast.NewUintNode(4, 1))); err == nil {
			err = g.RegisterStatusVariable(v)
		}
	}
	if err != nil {
		x.Failf("harness", "%v", err)
	}
}

func (w *gw) enableEvent(x *X) {
	for _, q := range []struct {
		f int
		b *wire.Item
	}{
		{33, wire.L(u4(1), wire.L(wire.L(u4(1), wire.L(u4(1)))))},
		{35, wire.L(u4(1), wire.L(wire.L(u4(1), wire.L(u4(1)))))},
		{37, wire.L(wire.Bool(true), wire.L(u4(1)))},
	} {
		if b := w.ask(2, q.f, q.b); !wire.Equal(b, wire.B(0)) {
			x.Failf("harness", "S2F%d answered %v", q.f, b)
		}
	}
}

var guardStages = []string{"new", "enabled", "connected", "selected", "comm", "deselected", "reselected", "lost", "disabled", "again"}

// toStage brings a fresh endpoint to a stage; it reports whether operations
// that need COMMUNICATING are allowed there.
func (w *gw) toStage(st string) bool {
	switch st {
	case "new":
		return false
	case "enabled", "connected", "selected":
		if st == "enabled" && w.cfg.active {
			w.listen(false)
		}
		w.g.Enable()
		w.settle()
		if st == "connected" && !w.cfg.active {
			w.connect()
			w.settle()
		}
		if st == "selected" {
			w.selectNow()
		}
		return false
	}
	w.toComm()
	w.settle()
	switch st {
	case "comm":
		return true
	case "deselected", "reselected":
		w.send(wire.NewCtrl(wire.DeselectReq, uint16(w.cfg.sess), 0, 0, w.nextSys()))
		w.settle()
		w.wait(500 * time.Millisecond)
		if st == "reselected" {
			w.send(wire.NewCtrl(wire.SelectReq, uint16(w.cfg.sess), 0, 0, w.nextSys()))
			w.settle()
		}
	case "lost":
		w.listen(false)
		w.c.Shut(false)
		w.wait(500 * time.Millisecond)
	case "disabled", "again":
		w.finish("Disable", call("Disable", w.g.Disable))
		if st == "again" {
			w.g.Enable()
			w.selectNow()
			w.data(1, 13, true, wire.L())
			w.settle()
			for _, f := range w.take() {
				if f.S() == 1 && f.F() == 1 {
					w.reply(f, wire.L())
					w.settle()
				}
			}
			return w.g.State() == gem.CommunicationStateCommunicating
		}
	}
	return false
}

func runGuard(x *X, gc gcfg, st string, ops []gop) {
	w := newGW(x, gc)
	if !gc.host {
		guardEq(x, w.g)
	}
	comm := w.toStage(st)
	w.settle()
	w.take()
	if comm && !gc.host {
		w.enableEvent(x)
	}
	if comm != (st == "comm" || st == "again") || comm != (w.g.State() == gem.CommunicationStateCommunicating) {
		x.Failf("stage", "stage %s is %v", st, w.g.State())
	}
	for _, o := range ops {
		what := fmt.Sprintf("%s on %v, %s", o.name, gc, st)
		x.Eval(what, true)
		if !(o.host && gc.host || o.equip && !gc.host) || o.comm && !comm {
			var err error
			w.finish(what, call(o.name, func() { _, err = o.do(w.g) }))
			w.settle()
			out := w.take()
			want := gem.ErrOperationNotSupported
			if o.host && gc.host || o.equip && !gc.host {
				want = gem.ErrNotCommunicating
			}
			if !errors.Is(err, want) {
				x.Failf("error", "%s: %v instead of %v", what, err, want)
			}
			out = notEstablishing(out)
			if len(out) > 0 {
				x.Failf("sent", "%s sent %s", what, frames(out))
			}
			continue
		}
		if o.s == 0 {
			var err error
			w.finish(what, call(o.name, func() { _, err = o.do(w.g) }))
			w.settle()
			if out := notEstablishing(w.take()); err != nil || len(out) > 0 {
				x.Failf("local", "%s: %v, sent %s", what, err, frames(out))
			}
			continue
		}
		res, err, done, f := w.begin(o)
		if o.wait {
			w.reply(f, o.ok)
			w.settle()
		}
		if !*done || *err != nil || *res != o.want {
			x.Failf("result", "%s: returned %v %q, %v", what, *done, *res, *err)
		}
	}
	// refused operations leave no trace: an alarm not set is not set
	if !gc.host && st == "comm" {
		return
	}
	if !gc.host && !comm {
		w.lateComm(st)
		b := w.ask(5, 5, wire.L())
		if want := wire.L(wire.L(wire.B(0x40), b.L[0].L[1], wire.A("t"))); !wire.Equal(b, want) {
			x.Failf("trace", "after %s in stage %s the alarms are %v", opNames(ops), st, b)
		}
	}
	x.Outcome("%v %s", gc, st)
}

// notEstablishing leaves out what the endpoint sends to establish communication.
func notEstablishing(fs []*wire.Frame) (out []*wire.Frame) {
	for _, f := range fs {
		if f.SType == 0 && !(f.S() == 1 && f.F() == 13 || f.S() == 9 && f.F() == 9) {
			out = append(out, f)
		}
	}
	return
}

func opNames(ops []gop) string {
	var n []string
	for _, o := range ops {
		n = append(n, o.name)
	}
	return strings.Join(n, ", ")
}

// lateComm establishes communication from whatever stage.
func (w *gw) lateComm(st string) {
	w.listen(w.cfg.active)
	if st == "new" || st == "disabled" {
		w.g.Enable()
	}
	w.settle()
	for i := 0; i < 40 && w.g.State() != gem.CommunicationStateCommunicating; i++ {
		if w.p.CurrentState() != hstates[2] {
			w.selectNow()
		}
		w.data(1, 13, true, wire.L())
		w.settle()
		for _, f := range w.take() {
			if f.S() == 1 && f.F() == 1 {
				w.reply(f, wire.L())
				w.settle()
			}
		}
	}
	w.settle()
	w.take()
	if w.g.State() != gem.CommunicationStateCommunicating {
		w.x.Failf("late-comm", "communication cannot be established after stage %s", st)
	}
}

// runGuardRace has one operation race with the end of communication: it
// works, or fails without a trace on a later session.
func runGuardRace(x *X, gc gcfg, o gop, ev string) {
	w := newGW(x, gc)
	if !gc.host {
		guardEq(x, w.g)
	}
	w.toComm()
	w.settle()
	w.take()
	if !gc.host {
		w.enableEvent(x)
	}
	vrt.Explore(true)
	var res string
	var err error
	done := call(o.name, func() { res, err = o.do(w.g) })
	var dis *bool
	switch ev {
	case "deselect":
		w.send(wire.NewCtrl(wire.DeselectReq, uint16(w.cfg.sess), 0, 0, w.nextSys()))
	case "separate":
		w.send(wire.NewCtrl(wire.SeparateReq, uint16(w.cfg.sess), 0, 0, w.nextSys()))
	case "close":
		w.c.Shut(false)
	case "disable":
		dis = call("Disable", w.g.Disable)
	}
	w.settle()
	vrt.Explore(false)
	sent := 0
	for _, f := range w.take() {
		if f.SType == 0 && f.S() == o.s && f.F() == o.f {
			sent++
			if o.wait && !*done {
				w.reply(f, o.ok) // may be too late
			}
		}
	}
	if dis != nil {
		w.finish("Disable", dis)
	}
	w.wait(time.Duration(w.cfg.t3+1) * sec)
	if !*done {
		x.Failf("hang", "%s racing with %s has not returned after T3", o.name, ev)
	}
	if sent > 1 || err == nil && sent == 0 && ev != "close" && o.f != 11 { // (events are sent later)
		x.Failf("count", "%s racing with %s returned %v and was sent %d times", o.name, ev, err, sent)
	}
	if err == nil && res != o.want {
		x.Failf("result", "%s racing with %s returned %q", o.name, ev, res)
	}
	for _, f := range w.take() {
		if f.SType == 0 && f.S() == o.s && f.F() == o.f {
			x.Failf("late", "%s racing with %s was sent later: %v", o.name, ev, f)
		}
	}
	x.Outcome("%v %d", err != nil, sent)
}

func c36(c *C) {
	o := Opt{MaxSteps: 1 << 24}
	ops := gops()
	for _, host := range []bool{false, true} {
		for _, active := range []bool{false, true} {
			gc := gcfgDefault
			gc.host, gc.active = host, active
			for _, st := range guardStages {
				st := st
				for i := range ops {
					i := i
					c.Case(fmt.Sprintf("%v %s: %s", gc, st, ops[i].name), o, func(x *X) { runGuard(x, gc, st, ops[i:i+1]) })
					for j := range ops {
						j := j
						if i == j && !ops[i].rep {
							continue
						}
						c.Case(fmt.Sprintf("%v %s: %s, %s", gc, st, ops[i].name, ops[j].name), o, func(x *X) { runGuard(x, gc, st, []gop{ops[i], ops[j]}) })
					}
				}
				c.Case(fmt.Sprintf("%v %s: all", gc, st), o, func(x *X) { runGuard(x, gc, st, ops) })
			}
			for i := range ops {
				if ops[i].s == 0 || ops[i].host != host {
					continue
				}
				i := i
				for _, ev := range []string{"deselect", "separate", "close", "disable"} {
					ev := ev
					dev := c.Q(1, 2)
					if i == 0 || i == 4 || ops[i].equip {
						dev = c.Q(2, 3)
					}
					c.Case(fmt.Sprintf("race %v %s: %s", gc, ev, ops[i].name), Opt{Dev: dev, Split: true, MaxSteps: 1 << 24}, func(x *X) { runGuardRace(x, gc, ops[i], ev) })
				}
			}
		}
	}
}
