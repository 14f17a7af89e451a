package h

import (
	"fmt"
	"strings"

	"github.com/younglifestyle/secs4go/gem"
	"verif.local/mc/wire"
)

// Long texts: ids, names, units, values, command and parameter names of the
// lengths around the limits a fixed-size field would have, which differ only in
// their last character.

var textSizes = []int{6, 7, 8, 9, 12, 13, 15, 16, 17, 19, 20, 21, 24, 25, 31, 32, 33, 39, 40, 41, 63, 64, 65, 79, 80, 81, 100, 101, 120, 121, 127, 128, 129, 160, 161, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4097, 65535, 65536}

// longText is a text of n characters that ends in one of its own.
func longText(n int, end string) string { return strings.Repeat("q", n-len(end)) + end }

func texts(c *C, name string, f func(x *X, n int)) {
	for _, n := range textSizes {
		if n > 5000 && !c.Thorough {
			continue
		}
		n := n
		c.Case(fmt.Sprintf("%s %d", name, n), Opt{MaxSteps: 1 << 26}, func(x *X) { f(x, n) })
	}
}

// C20
func textQueries(sf [2]int) func(x *X, n int) {
	return func(x *X, n int) {
		set := []one{
			{id: longText(n, "a"), name: "na", unit: longText(n, "1"), val: wire.A(longText(n, "x")), how: "value"},
			{id: longText(n, "b"), name: longText(n, "2"), unit: "u", val: wire.L(wire.A(longText(n, "y")), u1(1)), how: "provider"},
			{id: longText(n, "c"), name: longText(n, "3"), unit: longText(n, "4"), val: u4(5), how: "value"},
		}
		w := newGW(x, gcfgDefault)
		for _, o := range set {
			if sf[0] == 1 {
				w.addStatus(o)
			} else {
				w.addConst(o)
			}
		}
		w.toComm()
		a, b, e, d, s := wire.A(longText(n, "a")), wire.A(longText(n, "b")), wire.A(longText(n, "c")), wire.A(longText(n, "d")), wire.A(longText(n, "a")[:n-1])
		for _, r := range [][]*wire.Item{nil, {a}, {b}, {e}, {d}, {s}, {e, b, a}, {d, a, s, b, a}} {
			x.Eval(fmt.Sprintf("text S%dF%d %d %d", sf[0], sf[1], n, len(r)), true)
			checkQuery(x, sf[0], sf[1], set, r, len(r) == 0, w.ask(sf[0], sf[1], wire.L(r...)))
		}
	}
}

// C23
func textCommand(x *X, n int) {
	w := newCW(x)
	w.toComm()
	t := func(e string) *wire.Item { return wire.A(longText(n, e)) }
	for _, cm := range []struct {
		name *wire.Item
		es   []cmdEntry
	}{
		{t("G"), nil},
		{t("H"), []cmdEntry{cmdp(t("a"), t("1")), cmdp(t("b"), t("2"))}},
		{wire.A("GO"), []cmdEntry{cmdp(wire.A("P"), t("1")), cmdp(t("b"), wire.L(t("2"), u1(1))), cmdp(t("c"), wire.B([]byte(longText(n, "3"))...))}},
		{u4(7), []cmdEntry{cmdp(t("z"), u4(1)), cmdp(t("y"), u4(2))}},
	} {
		var l []*wire.Item
		want := ""
		w.reqs, w.events = nil, nil
		w.res = gem.RemoteCommandResult{HCACK: 3}
		for i, e := range cm.es {
			l = append(l, e.it)
			w.res.ParameterAcks = append(w.res.ParameterAcks, gem.RemoteCommandParameterAck{Name: rawID(asU(e.name)), Ack: gem.CPACKCode(i + 1)})
			want += fmt.Sprintf(" %s=%d", idKey(e.name), i+1)
		}
		hc, pa := w.answer("text", w.ask(2, 41, wire.L(cm.name, wire.L(l...))))
		if hc != 3 || strings.TrimSpace(want) != pa || len(w.reqs) != 1 || showReq(w.reqs[0]) != showCmd(cm.name, cm.es) {
			x.Failf("text", "S2F41 with texts of %d: answered %d %s, handler called with %s", n, hc, trunc(pa, 300), trunc(showReqs(w.reqs), 300))
		}
		x.Eval(fmt.Sprint(n, cm.name.F, len(l)), true)
	}
}

// C24
func textPrograms(x *X, n int) {
	w := newPW(x)
	w.toComm()
	id := func(e string) *wire.Item { return wire.A(longText(n, e)) }
	for round := 0; round < 2; round++ {
		for i, e := range []string{"a", "b", "c"} {
			w.upload(wire.L(id(e), wire.A(fmt.Sprint("body ", i, round))), i == round, 0)
			w.upload(wire.L(id("r"), wire.A("refused")), true, 1+i)
		}
		for _, e := range []string{"c", "a", "b", "d", "r", ""} {
			w.fetch(id(e), id(e))
		}
		short := wire.A(longText(n, "a")[:n-1])
		w.fetch(short, short)
		w.stored()
		x.Eval(fmt.Sprint("text ", n, round), true)
	}
}

// C20 through the host's calls.
func textHostQueries(sf [2]int) func(x *X, n int) {
	return func(x *X, n int) {
		a, b, d := longText(n, "a"), longText(n, "b"), longText(n, "d")
		set := []one{
			{id: a, name: longText(n, "1"), unit: "u", val: wire.A(longText(n, "x")), how: "value"},
			{id: b, name: "nb", unit: longText(n, "2"), val: wire.L(wire.A(longText(n, "y")), u1(1)), how: "provider"},
		}
		runHostQueries(x, set, set, sf, []interface{}{b, d, a, a[:n-1]}, false)
	}
}

// C21
func textUpdates(x *X, n int) {
	w := newGW(x, gcfgDefault)
	ends := []string{"a", "b", "c"}
	vals := map[string]*wire.Item{}
	for _, e := range ends {
		vals[e] = wire.A(longText(n, "v"+e))
		k, err := gem.NewEquipmentConstant(longText(n, e), "c", node(vals[e]))
		if err == nil {
			err = w.g.RegisterEquipmentConstant(k)
		}
		if err != nil {
			x.Failf("register", "%v", err)
		}
	}
	w.toComm()
	check := func(what string) {
		got := w.ask(2, 13, wire.L())
		if got == nil || len(got.L) != len(ends) {
			x.Failf("read", "%s: S2F13 answered with %s", what, trunc(got.String(), 200))
		}
		for i, e := range ends {
			if !wire.Equal(got.L[i], vals[e]) {
				x.Failf("value", "%s: constant %d is %s, want %s", what, i, trunc(got.L[i].String(), 200), trunc(vals[e].String(), 200))
			}
		}
	}
	send := func(want bool, m map[string]*wire.Item) {
		l := wire.L()
		for _, e := range []string{"c", "a", "d", "b"} {
			if m[e] != nil {
				l.L = append(l.L, wire.L(wire.A(longText(n, e)), m[e]))
			}
		}
		what := fmt.Sprintf("S2F15 with %d texts of %d", len(l.L), n)
		ack := ackOf(w.ask(2, 15, l))
		if ack < 0 || (ack == 0) != want {
			x.Failf("ack", "%s: answered %d", what, ack)
		}
		if want {
			for e, v := range m {
				vals[e] = v
			}
		}
		check(what)
		x.Eval(fmt.Sprint(n, len(l.L), want), true)
	}
	check("registered")
	send(true, map[string]*wire.Item{"b": wire.A(longText(n, "w"))})
	send(false, map[string]*wire.Item{"d": wire.A("x"), "a": wire.A("y")})
	send(true, map[string]*wire.Item{"a": wire.A(longText(n, "1")), "b": wire.L(wire.A(longText(n, "2"))), "c": wire.B([]byte(longText(n, "3"))...)})
	send(false, map[string]*wire.Item{"a": u4(1), "b": u4(2), "c": u4(3), "d": u4(4)})
}

// C18 and C19: report ids and values.
func textReports(x *X, n int) {
	w := newRW(x)
	w.toComm()
	id := func(e string) *wire.Item { return wire.A(longText(n, e)) }
	w.msg(mk(33, rdef{id("a"), rVars[:2]}, rdef{id("b"), rVars[1:]}))
	w.msg(mk(35, rdef{rEvents[0], []*wire.Item{id("b"), id("a")}}))
	w.observe()
	w.msg(mk(35, rdef{rEvents[1], []*wire.Item{id("a"), id("c")}})) // unknown
	w.msg(mk(33, rdef{id("c"), rVars}, rdef{id("c"), rVars[:1]}))   // twice
	w.msg(mk(33, rdef{id("c"), rVars}))
	w.msg(mk(35, rdef{rEvents[1], []*wire.Item{id("c"), id("a")}}))
	for i, v := range rVars {
		w.set(v, wire.A(longText(n, fmt.Sprint(i))))
	}
	w.observe()
	w.set(rVars[1], wire.L(wire.A(longText(n, "z")), wire.B([]byte(longText(n, "y"))...)))
	w.msg(mk(33, rdef{id: id("a")}))
	w.observe()
	x.Eval(fmt.Sprint("text ", n), true)
}

// C22 through the host's calls.
func textHostAlarms(x *X, n int) {
	p := newPair(x)
	texts := []string{longText(n, "a"), longText(n, "b")}
	for i, t := range texts {
		p.e.g.RegisterAlarm(gem.Alarm{ID: i + 1, Text: t})
	}
	var got []gem.AlarmEvent
	p.h.g.Events().AlarmReceived.AddCallback(func(d map[string]interface{}) { got = append(got, d["alarm"].(gem.AlarmEvent)) })
	p.up()
	for i, t := range texts {
		got = nil
		var err error
		p.call("RaiseAlarm", func() { err = p.e.g.RaiseAlarm(i+1, true) })
		if err != nil || len(got) != 1 || got[0] != (gem.AlarmEvent{ID: i + 1, Text: t, Set: true}) {
			x.Failf("host", "RaiseAlarm with a text of %d: %v; the host saw %s", n, err, trunc(fmt.Sprint(got), 300))
		}
		for _, only := range []bool{false, true} {
			var l []gem.AlarmInfo
			p.call("alarm list", func() {
				if only {
					l, err = p.h.g.RequestEnabledAlarmList()
				} else {
					l, err = p.h.g.RequestAlarmList()
				}
			})
			if err != nil || len(l) != 2 || l[0].Text != texts[0] || l[1].Text != texts[1] {
				x.Failf("host", "alarm list with texts of %d (enabled only %v): %v %s", n, only, err, trunc(fmt.Sprint(l), 300))
			}
		}
	}
	x.Eval(fmt.Sprint("text ", n), true)
}

// C24 through the host's calls.
func textHostPrograms(x *X, n int) {
	p := newPair(x)
	w := &pw{gw: p.e, m: map[string][]byte{}}
	p.up()
	for i, e := range []string{"a", "b", "c"} {
		id, body := longText(n, e), longText(n, fmt.Sprint("\x00\n\xff", i))
		w.handler(i != 1)
		w.code, w.up = 0, nil
		var ack int
		var err error
		p.call("UploadProcessProgram", func() { ack, err = p.h.g.UploadProcessProgram(id, body) })
		if err != nil || ack != 0 || i != 1 && (len(w.up) != 1 || w.up[0] != "S:"+id+"="+body) {
			x.Failf("host", "UploadProcessProgram with texts of %d returned %d, %v; the handler got %s", n, ack, err, trunc(fmt.Sprintf("%q", w.up), 300))
		}
		w.m["S:"+id] = []byte(body)
		for _, e := range []string{"a", "b", "c", "d"} {
			var got string
			id := longText(n, e)
			p.call("RequestProcessProgram", func() { got, ack, err = p.h.g.RequestProcessProgram(id) })
			want, have := w.m["S:"+id]
			if err != nil || have != (ack == 0) || got != string(want) {
				x.Failf("host", "RequestProcessProgram with an id of %d returned %s, %d, %v; want %s, known %v", n, trunc(fmt.Sprintf("%q", got), 200), ack, err, trunc(fmt.Sprintf("%q", want), 200), have)
			}
		}
	}
	w.stored()
	x.Eval(fmt.Sprint("text ", n), true)
}
