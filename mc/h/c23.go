package h

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C23", Level: "model_checking", Budget: [2]int{200, 850},
		Rule: "every S2F41 with a parameter list over the entry alphabet (all item types, malformed entries) to the length bound, every malformed body of the enumerated shapes, every acknowledge code and every list of parameter codes to the length bound; the same through SendRemoteCommand; handler changes racing with commands under every schedule to the deviation bound; long parameter lists; texts of the lengths around field limits that differ in their last character",
		Run:  c23})
}

// cmdEntry is one element of the parameter list.
type cmdEntry struct {
	it        *wire.Item
	name, val *wire.Item
	bad       bool // not a name and a value: the command must be refused
	odd       bool // refused, or taken without what is missing or too much
}

func cmdp(name, val *wire.Item) cmdEntry {
	return cmdEntry{it: wire.L(name, val), name: name, val: val}
}

var cmdEntries = []cmdEntry{
	cmdp(wire.A("P"), wire.A("v")),
	cmdp(wire.A("Q"), wire.L()),
	cmdp(wire.A(""), wire.A("")),
	cmdp(u4(7), wire.L(u1(1), wire.L(wire.A("deep"), wire.L()))),
	cmdp(wire.A("P"), wire.B(0, 255)),
	cmdp(wire.I(2, 300), wire.Bool(true, false)),
	cmdp(wire.U(8, 1<<40), wire.I(8, -1<<63)),
	cmdp(wire.A("7"), wire.Fl(4, 1.5)),
	cmdp(wire.A("u"), wire.U(2, 0, 65535)),
	cmdp(u1(0), wire.U(4)),
	{it: wire.A("P"), bad: true},
	{it: wire.L(), bad: true},
	{it: wire.L(wire.L(), wire.A("v")), bad: true},
	{it: wire.L(wire.B(1), wire.A("v")), bad: true},
	{it: wire.L(wire.I(1, -1), wire.A("v")), bad: true},
	{it: wire.L(wire.U(4), wire.A("v")), bad: true},
	{it: wire.L(wire.Fl(4, 1), wire.A("v")), bad: true},
	{it: wire.L(wire.A("P")), name: wire.A("P"), val: wire.L(), odd: true},
	{it: wire.L(wire.A("P"), wire.A("v"), wire.A("w")), name: wire.A("P"), val: wire.A("v"), odd: true},
}

var cmdNames = []*wire.Item{wire.A("START"), wire.A(""), u1(5), wire.I(2, 5), wire.U(8, 1<<40)}

type cw struct {
	*gw
	reqs   []gem.RemoteCommandRequest
	events []gem.RemoteCommandRequest
	res    gem.RemoteCommandResult
	err    error
}

func newCW(x *X) *cw {
	w := &cw{gw: newGW(x, gcfgDefault)}
	w.handler()
	w.g.Events().RemoteCommandReceived.AddCallback(func(d map[string]interface{}) {
		w.events = append(w.events, d["request"].(gem.RemoteCommandRequest))
	})
	return w
}

func (w *cw) handler() {
	w.g.SetRemoteCommandHandler(func(r gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
		w.reqs = append(w.reqs, r)
		return w.res, w.err
	})
}

// showReq is a request in a comparable form.
func showReq(r gem.RemoteCommandRequest) string {
	s := fmt.Sprintf("%q %s", r.Command, rawKey(r.CommandID))
	for _, p := range r.Parameters {
		v := value(p.Value)
		if v == "-" || v == "nil" {
			v = wire.L().String() // no value
		}
		s += fmt.Sprintf(" [%q %s %s]", p.Name, rawKey(p.Identifier), v)
	}
	return s
}

func plain(id *wire.Item) string { return idKey(id)[2:] }

func showCmd(name *wire.Item, es []cmdEntry) string {
	s := fmt.Sprintf("%q %s", plain(name), idKey(name))
	for _, e := range es {
		s += fmt.Sprintf(" [%q %s %s]", plain(e.name), idKey(e.name), e.val)
	}
	return s
}

// answer checks an S2F42 body and returns HCACK and the parameter codes.
func (w *cw) answer(what string, it *wire.Item) (int, string) {
	if it == nil || it.F != wire.FL || len(it.L) != 2 || ackOf(it.L[0]) < 0 || it.L[1].F != wire.FL {
		w.x.Failf("answer", "%s answered by %v", what, it)
	}
	var s []string
	for _, p := range it.L[1].L {
		if p.F != wire.FL || len(p.L) != 2 || idKey(p.L[0]) == "" || ackOf(p.L[1]) < 0 {
			w.x.Failf("answer", "%s answered by %v", what, it)
		}
		s = append(s, fmt.Sprintf("%s=%d", idKey(p.L[0]), ackOf(p.L[1])))
	}
	return ackOf(it.L[0]), strings.Join(s, " ")
}

func runCommands(x *X, name *wire.Item, lists [][]cmdEntry) {
	w := newCW(x)
	w.toComm()
	for n, es := range lists {
		var l []*wire.Item
		bad, odd := false, false
		for _, e := range es {
			l = append(l, e.it)
			bad, odd = bad || e.bad, odd || e.odd
		}
		it := wire.L(name, wire.L(l...))
		w.res = gem.RemoteCommandResult{HCACK: gem.HCACKCode(n % 7)}
		w.reqs, w.events = nil, nil
		hc, pa := w.answer(it.String(), w.ask(2, 41, it))
		if pa != "" {
			x.Failf("codes", "S2F41 %v: parameter codes %s that the handler did not give", it, pa)
		}
		refused := len(w.reqs) == 0 && hc != 0
		if bad || odd && refused {
			if !refused {
				x.Failf("malformed", "S2F41 %v answered %d, handler called with %d requests", it, hc, len(w.reqs))
			}
		} else {
			if len(w.reqs) != 1 || showReq(w.reqs[0]) != showCmd(name, es) {
				x.Failf("request", "S2F41 %v: the handler was called %d times with %s", it, len(w.reqs), showReqs(w.reqs))
			}
			if hc != n%7 {
				x.Failf("hcack", "S2F41 %v: the handler said %d, answered %d", it, n%7, hc)
			}
			if len(w.events) != 1 || showReq(w.events[0]) != showReq(w.reqs[0]) {
				x.Failf("event", "S2F41 %v announced as %s", it, showReqs(w.events))
			}
		}
		x.Eval(it.String(), true)
	}
}

func showReqs(rs []gem.RemoteCommandRequest) string {
	var s []string
	for _, r := range rs {
		s = append(s, showReq(r))
	}
	return strings.Join(s, "; ")
}

// runBodies sends malformed bodies and commands without a handler.
func runBodies(x *X, its []*wire.Item) {
	w := newCW(x)
	w.toComm()
	for _, it := range its {
		w.reqs = nil
		hc, _ := w.answer(it.String(), w.ask(2, 41, it))
		if hc == 0 || len(w.reqs) > 0 {
			x.Failf("malformed", "S2F41 %v answered %d, handler called with %s", it, hc, showReqs(w.reqs))
		}
		x.Eval(it.String(), true)
	}
	ok := wire.L(wire.A("GO"), wire.L())
	for _, s := range []string{"off", "on", "off", "off", "on", "on"} {
		if s == "off" {
			w.g.SetRemoteCommandHandler(nil)
		} else {
			w.handler()
		}
		w.reqs = nil
		hc, _ := w.answer(s, w.ask(2, 41, ok))
		if on := s == "on"; on != (hc == 0) || on != (len(w.reqs) == 1) {
			x.Failf("handler", "with the handler %s: answered %d, called %d times", s, hc, len(w.reqs))
		}
		w.reqs = nil
		w.data(2, 41, false, ok)
		w.settle()
		if o := w.take(); len(o) > 0 || (s == "on") != (len(w.reqs) == 1) {
			x.Failf("handler", "without wait bit, handler %s: sent %s, called %d times", s, frames(o), len(w.reqs))
		}
	}
}

var pAckNames = []interface{}{"P", uint64(7), 8, "", uint8(9)}

// runCodes returns every code and list of parameter codes.
func runCodes(x *X, fail bool, hcs []int, acks [][]gem.RemoteCommandParameterAck) {
	w := newCW(x)
	w.toComm()
	it := wire.L(wire.A("GO"), wire.L(wire.L(wire.A("P"), u1(1))))
	w.err = nil
	if fail {
		w.err = errors.New("cannot")
	}
	for _, h := range hcs {
		for _, a := range acks {
			w.res = gem.RemoteCommandResult{HCACK: gem.HCACKCode(h), ParameterAcks: a}
			w.reqs = nil
			var want []string
			for _, p := range a {
				want = append(want, fmt.Sprintf("%s=%d", rawKey(p.Name), p.Ack))
			}
			hc, pa := w.answer("GO", w.ask(2, 41, it))
			if len(w.reqs) != 1 || pa != strings.Join(want, " ") || h <= 6 && !(fail && h == 0) && hc != h || (h > 6 || fail) && hc == 0 {
				x.Failf("codes", "the handler said %d %v (error %v), answered %d %s", h, want, fail, hc, pa)
			}
			x.Eval(fmt.Sprint(h, a, fail), true)
		}
	}
}

// runHostCommand compares what the equipment's handler sees and the host gets.
func runHostCommand(x *X, cmd interface{}, cmdIt *wire.Item, ps []int, res gem.RemoteCommandResult) {
	vals := []struct {
		name  interface{}
		nameI *wire.Item
		v     interface{}
		it    *wire.Item
	}{
		{"P", wire.A("P"), "text", wire.A("text")},
		{7, u4(7), -5, wire.I(1, -5)},
		{uint16(9), u4(9), uint64(1 << 40), wire.U(8, 1<<40)},
		{"b", wire.A("b"), []byte{1, 255}, wire.B(1, 255)},
		{"", wire.A(""), true, wire.Bool(true)},
		{"f", wire.A("f"), 1.25, wire.Fl(8, 1.25)},
		{"n", wire.A("n"), nil, wire.L()},
		{"l", wire.A("l"), node(wire.L(wire.A("x"), wire.L())), wire.L(wire.A("x"), wire.L())},
	}
	p := newPair(x)
	w := &cw{gw: p.e, res: res}
	w.handler()
	p.up()
	var in []gem.RemoteCommandParameterValue
	var es []cmdEntry
	for _, i := range ps {
		in = append(in, gem.RemoteCommandParameterValue{Name: vals[i].name, Value: vals[i].v})
		es = append(es, cmdp(vals[i].nameI, vals[i].it))
	}
	var got gem.RemoteCommandResult
	var err error
	p.call("SendRemoteCommand", func() { got, err = p.h.g.SendRemoteCommand(cmd, in) })
	show := func(r gem.RemoteCommandResult) string {
		s := fmt.Sprint(r.HCACK)
		for _, a := range r.ParameterAcks {
			s += fmt.Sprintf(" %s=%d", rawKey(a.Name), a.Ack)
		}
		return s
	}
	if len(w.reqs) != 1 || showReq(w.reqs[0]) != showCmd(cmdIt, es) {
		x.Failf("host-request", "SendRemoteCommand(%v, %v): the handler was called %d times with %s", cmd, in, len(w.reqs), showReqs(w.reqs))
	}
	if err != nil || show(got) != show(res) {
		x.Failf("host-result", "SendRemoteCommand(%v, %v) returned %s, %v; the handler said %s", cmd, in, show(got), err, show(res))
	}
	x.Eval(fmt.Sprint(cmd, ps, res), true)
}

// hostValues are values of every type a parameter can be given as, at the
// limits of every width.
func hostValues() []interface{} {
	vs := []interface{}{nil, true, false, "", "text", "a\x00\x7f", []byte{}, []byte{0}, []byte{1, 128, 255},
		float32(0), float32(-1.5), float32(math.MaxFloat32), float32(math.SmallestNonzeroFloat32), 0.0, -2.25, math.MaxFloat64, 1e300, math.Pi,
		node(wire.L()), node(wire.L(wire.A("x"), wire.L(wire.U(2, 65535)))), node(wire.U(8, 1<<63)), node(wire.I(1, -128, 127)), node(wire.A("é"[:0]))}
	for _, n := range textSizes {
		if n < 5000 {
			vs = append(vs, longText(n, "v"), []byte(longText(n, "w")))
		}
	}
	at := map[int64]bool{0: true, math.MinInt64: true, math.MinInt64 + 1: true}
	for k := 0; k < 63; k++ {
		for d := int64(-1); d <= 1; d++ {
			at[int64(1)<<k+d], at[-int64(1)<<k+d] = true, true
		}
	}
	at[math.MaxInt64] = true
	var ns []int64
	for v := range at {
		ns = append(ns, v)
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
	for _, v := range ns {
		vs = append(vs, int(v), v)
		if int64(int8(v)) == v {
			vs = append(vs, int8(v))
		}
		if int64(int16(v)) == v {
			vs = append(vs, int16(v))
		}
		if int64(int32(v)) == v {
			vs = append(vs, int32(v))
		}
		u := uint64(v) // the negative ones are the upper half
		vs = append(vs, u, uint(u))
		if uint64(uint8(u)) == u {
			vs = append(vs, uint8(u))
		}
		if uint64(uint16(u)) == u {
			vs = append(vs, uint16(u))
		}
		if uint64(uint32(u)) == u {
			vs = append(vs, uint32(u))
		}
	}
	return vs
}

// sameAs tells whether an item holds just the value, in an item of its kind
// of any width.
func sameAs(it *wire.Item, v interface{}) bool {
	switch t := v.(type) {
	case nil:
		return it.F == wire.FL && len(it.L) == 0
	case ast.ItemNode:
		return it.String() == value(t)
	case string:
		return it.F == wire.FA && string(it.Data) == t
	case []byte:
		return it.F == wire.FB && string(it.Data) == string(t)
	case bool:
		return it.String() == wire.Bool(t).String()
	case float32:
		return it.String() == wire.Fl(4, float64(t)).String() || it.String() == wire.Fl(8, float64(t)).String()
	case float64:
		return it.String() == wire.Fl(8, t).String()
	}
	r := reflect.ValueOf(v)
	for _, n := range []int{1, 2, 4, 8} {
		if r.CanInt() {
			i := r.Int()
			if i>>(8*n-1) == 0 || i>>(8*n-1) == -1 {
				if it.String() == wire.I(n, i).String() {
					return true
				}
			}
		} else if u := r.Uint(); n == 8 || u>>(8*n) == 0 {
			if it.String() == wire.U(n, u).String() {
				return true
			}
		}
	}
	return false
}

// runHostValues sends every parameter value, one at a time and two at a time.
func runHostValues(x *X, vs []interface{}) {
	gc := gcfgDefault
	gc.host = true
	w := newGW(x, gc)
	w.toComm()
	for i, v := range vs {
		w.settle()
		w.take()
		ps := []gem.RemoteCommandParameterValue{{Name: "P", Value: v}}
		if i%2 == 1 {
			ps = append(ps, gem.RemoteCommandParameterValue{Name: "Q", Value: vs[i-1]})
		}
		what := fmt.Sprintf("%T %v", v, v)
		var err error
		done := call("SendRemoteCommand", func() { _, err = w.g.SendRemoteCommand("GO", ps) })
		w.settle()
		o := w.take()
		if len(o) != 1 || o[0].S() != 2 || o[0].F() != 41 || !o[0].W() {
			x.Failf("host-value", "SendRemoteCommand with %s sent %s, %v", what, frames(o), err)
		}
		it, _, derr := wire.Decode(o[0].Body)
		good := derr == nil && it != nil && it.F == wire.FL && len(it.L) == 2 && len(it.L[1].L) == len(ps)
		for j, p := range ps {
			good = good && len(it.L[1].L[j].L) == 2 && it.L[1].L[j].L[0].String() == wire.A(p.Name.(string)).String() && sameAs(it.L[1].L[j].L[1], p.Value)
		}
		if !good {
			x.Failf("host-value", "SendRemoteCommand with %s sent %v", what, it)
		}
		w.reply(o[0], wire.L(wire.B(0), wire.L()))
		w.settle()
		w.finish("SendRemoteCommand", done)
		if err != nil {
			x.Failf("host-value", "SendRemoteCommand with %s: %v", what, err)
		}
		x.Eval(what, true)
	}
	for _, v := range []interface{}{"é", "a\x80", []int{1}, struct{}{}, &struct{ a int }{1}, map[string]int{}, complex(1, 1), []string{"a"}} {
		var err error
		done := call("SendRemoteCommand", func() {
			_, err = w.g.SendRemoteCommand("GO", []gem.RemoteCommandParameterValue{{Name: "P", Value: v}})
		})
		w.settle()
		w.finish("SendRemoteCommand", done)
		if o := w.take(); err == nil || len(o) > 0 {
			x.Failf("host-value", "SendRemoteCommand with a value of type %T %v: sent %s, error %v", v, v, frames(o), err)
		}
		x.Eval(fmt.Sprintf("%T", v), true)
	}
}

// runHostAnswers answers SendRemoteCommand with every code and body.
func runHostAnswers(x *X) {
	gc := gcfgDefault
	gc.host = true
	w := newGW(x, gc)
	w.toComm()
	send := func(body *wire.Item) (gem.RemoteCommandResult, error) {
		w.settle()
		w.take()
		var r gem.RemoteCommandResult
		var err error
		done := call("SendRemoteCommand", func() { r, err = w.g.SendRemoteCommand("GO", nil) })
		w.settle()
		o := w.take()
		if len(o) != 1 || o[0].S() != 2 || o[0].F() != 41 || !o[0].W() {
			x.Failf("host-request", "SendRemoteCommand sent %s", frames(o))
		}
		w.reply(o[0], body)
		w.settle()
		w.finish("SendRemoteCommand", done)
		x.Eval(body.String(), true)
		return r, err
	}
	for h := 0; h < 256; h++ {
		r, err := send(wire.L(wire.B(byte(h)), wire.L()))
		if err != nil || h <= 6 && int(r.HCACK) != h || h > 6 && r.HCACK == 0 || len(r.ParameterAcks) != 0 {
			x.Failf("host-result", "HCACK %d returned as %v, %v", h, r, err)
		}
	}
	for a := 1; a < 64; a++ {
		r, err := send(wire.L(wire.B(3), wire.L(wire.L(wire.A("P"), wire.B(byte(a))), wire.L(u2(7), wire.B(byte(64-a))))))
		if err != nil || r.HCACK != 3 || len(r.ParameterAcks) != 2 || r.ParameterAcks[0].Name != "P" || int(r.ParameterAcks[0].Ack) != a || rawKey(r.ParameterAcks[1].Name) != "N:7" || int(r.ParameterAcks[1].Ack) != 64-a {
			x.Failf("host-result", "CPACK %d returned as %v, %v", a, r, err)
		}
	}
	// no acknowledge code: not a success
	for _, b := range []*wire.Item{nil, wire.L(), wire.A("x"), wire.L(wire.L(), wire.L()), wire.L(wire.B(), wire.L()), wire.L(wire.A(""), wire.L())} {
		if r, err := send(b); err == nil && r.HCACK == 0 {
			x.Failf("host-result", "the answer %v was returned as %v without an error", b, r)
		}
	}
}

func runHandlerRace(x *X, n int) {
	w := newCW(x)
	w.toComm()
	w.settle()
	w.take()
	first, second := 0, 0
	w.g.SetRemoteCommandHandler(func(gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
		first++
		return gem.RemoteCommandResult{HCACK: 4}, nil
	})
	vrt.Explore(true)
	done := call("set", func() {
		w.g.SetRemoteCommandHandler(func(gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
			second++
			return gem.RemoteCommandResult{HCACK: 5}, nil
		})
	})
	for i := 0; i < n; i++ {
		w.data(2, 41, true, wire.L(wire.A("GO"), wire.L()))
	}
	w.settle()
	vrt.Explore(false)
	w.finish("SetRemoteCommandHandler", done)
	c := map[int]int{}
	o := w.take()
	for _, f := range o {
		h, _ := w.answer("GO", f.Item)
		c[h]++
	}
	if len(o) != n || first+second != n || c[4] != first || c[5] != second {
		x.Failf("race", "%d commands: %d and %d invocations, answers %s", n, first, second, frames(o))
	}
	x.Outcome("%d %d", first, second)
}

func c23(c *C) {
	long(c, longCommand)
	texts(c, "texts", textCommand)
	o := Opt{MaxSteps: 1 << 25}
	for ni, name := range cmdNames {
		name := name
		depth := c.Q(3, 4)
		if ni == 0 {
			depth = c.Q(4, 5)
		}
		var part [][]cmdEntry
		n := 0
		flush := func() {
			if len(part) == 0 {
				return
			}
			ls := part
			part = nil
			n++
			c.Case(fmt.Sprintf("command %v, batch %d", name, n), o, func(x *X) { runCommands(x, name, ls) })
		}
		for d := 0; d <= depth; d++ {
			seqs(len(cmdEntries), d, func(ix []int) {
				var es []cmdEntry
				for _, i := range ix {
					es = append(es, cmdEntries[i])
				}
				part = append(part, es)
				if len(part) == 40 {
					flush()
				}
			})
		}
		flush()
	}
	p := wire.L(wire.L(wire.A("P"), u1(1)))
	bodies := []*wire.Item{nil, wire.A("GO"), wire.L(), u4(1), wire.B(), wire.L(wire.L(), p), wire.L(wire.B(1), p), wire.L(wire.I(1, -1), p), wire.L(wire.U(1), p), wire.L(wire.Bool(true), p), wire.L(wire.Fl(8, 1), p), wire.L(wire.L(wire.A("GO")), p), wire.L(p, wire.A("GO"))}
	c.Case("bodies", o, func(x *X) { runBodies(x, bodies) })
	var all, few []int
	for h := 0; h < 256; h++ {
		all = append(all, h)
		if h < 8 {
			few = append(few, h)
		}
	}
	var lists, one [][]gem.RemoteCommandParameterAck
	for a := 1; a < 64; a++ {
		one = append(one, []gem.RemoteCommandParameterAck{{Name: "P", Ack: gem.CPACKCode(a)}})
	}
	for d := 0; d <= c.Q(4, 5); d++ {
		seqs(len(pAckNames), d, func(ix []int) {
			var l []gem.RemoteCommandParameterAck
			for j, i := range ix {
				l = append(l, gem.RemoteCommandParameterAck{Name: pAckNames[i], Ack: gem.CPACKCode(1 + (i+j)%5)})
			}
			lists = append(lists, l)
		})
	}
	for _, fail := range []bool{false, true} {
		fail := fail
		c.Case(fmt.Sprintf("codes, error %v", fail), o, func(x *X) { runCodes(x, fail, all, lists[:7]) })
		c.Case(fmt.Sprintf("parameter codes, error %v", fail), o, func(x *X) { runCodes(x, fail, few, one) })
		c.Case(fmt.Sprintf("lists of codes, error %v", fail), o, func(x *X) { runCodes(x, fail, few[:3], lists) })
	}
	ho := Opt{MaxSteps: 1 << 22}
	cmds := []struct {
		v  interface{}
		it *wire.Item
	}{{"START", wire.A("START")}, {5, u4(5)}, {uint64(1 << 40), wire.U(8, 1<<40)}, {"", wire.A("")}}
	for ci, cm := range cmds {
		cm := cm
		for d := 0; d <= c.Q(3, 4); d++ {
			if ci > 0 && d > 1 {
				break
			}
			seqs(8, d, func(ix []int) {
				s := append([]int(nil), ix...)
				c.Case(fmt.Sprintf("host %v %v", cm.it, s), ho, func(x *X) {
					runHostCommand(x, cm.v, cm.it, s, gem.RemoteCommandResult{HCACK: gem.HCACKCode(len(s))})
				})
			})
		}
	}
	for h := 0; h <= 6; h++ {
		for i, l := range lists[:31] {
			res := gem.RemoteCommandResult{HCACK: gem.HCACKCode(h), ParameterAcks: l}
			c.Case(fmt.Sprintf("host result %d list %d", h, i), ho, func(x *X) { runHostCommand(x, "GO", wire.A("GO"), []int{0, 1}, res) })
		}
	}
	c.Case("host answers", o, runHostAnswers)
	hv := hostValues()
	for n := 0; n*64 < len(hv); n++ {
		vs := hv[n*64 : min(n*64+64, len(hv))]
		c.Case(fmt.Sprintf("host values, batch %d", n), o, func(x *X) { runHostValues(x, vs) })
	}
	for n := 1; n <= 3; n++ {
		n := n
		c.Case(fmt.Sprintf("handler race %d", n), Opt{Dev: c.Q(4, 5), Split: true, MaxSteps: 1 << 22}, func(x *X) { runHandlerRace(x, n) })
	}
}
