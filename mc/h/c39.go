package h

import (
	"errors"
	"fmt"
	"strings"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C39", Level: "model_checking", Budget: [2]int{200, 850},
		Rule: "every sequence, to the depth, of registrations, replacements, removals and fallbacks of every kind of handler over the built-in and the unhandled functions of both device types, with the session lost in between, all probed after each step against a table; registrations racing with messages under every schedule to the deviation bound",
		Run:  c39})
}

type sf struct{ s, f int }

func (k sf) String() string { return fmt.Sprintf("S%dF%d", k.s, k.f) }

// builtin is what an endpoint answers by itself.
var builtinEq = []sf{{1, 1}, {1, 3}, {1, 11}, {1, 13}, {1, 15}, {1, 17}, {2, 13}, {2, 15}, {2, 17}, {2, 29}, {2, 31}, {2, 33}, {2, 35}, {2, 37}, {2, 41}, {5, 3}, {5, 5}, {5, 7}, {6, 15}, {7, 3}, {7, 5}}
var builtinHost = []sf{{1, 1}, {1, 13}, {5, 1}, {6, 11}}

// kinds of handlers an application installs
var extKinds = []string{"reply", "none", "error", "once", "sends", "asks"}

type extWorld struct {
	*gw
	tab  map[sf]string // "built-in" or a kind and a serial number
	def  string
	got  []string
	seq  int
	hist string
}

func (w *extWorld) handler(k sf, name string, deflt bool) gem.StreamFunctionHandler {
	kind := strings.SplitN(name, "#", 2)[0]
	return func(m *ast.DataMessage) (*ast.DataMessage, error) {
		w.got = append(w.got, fmt.Sprintf("%s S%dF%d %x", name, m.StreamCode(), m.FunctionCode(), m.SystemBytes()))
		r := ast.NewDataMessage("", m.StreamCode(), m.FunctionCode()+1, 0, "H<->E", ast.NewASCIINode(name))
		switch kind {
		case "none":
			return nil, nil
		case "error":
			return r, errors.New("no")
		case "once": // removes itself
			if deflt {
				w.g.RegisterDefaultStreamHandler(nil)
			} else {
				w.g.RegisterStreamFunctionHandler(k.s, k.f, nil)
			}
		case "sends": // sends a message of its own
			if err := w.g.Protocol().SendDataMessage(ast.NewDataMessage("", 10, 1, 0, "H<->E", ast.NewASCIINode("note"))); err != nil {
				w.x.Failf("handler-send", "a handler cannot send: %v", err)
			}
		case "asks": // looks at the endpoint
			w.g.State()
			w.g.ControlState()
		}
		return r, nil
	}
}

func (w *extWorld) name(kind string) string {
	w.seq++
	return fmt.Sprintf("%s#%d", kind, w.seq)
}

func (w *extWorld) reg(k sf, kind string) {
	if kind == "" {
		delete(w.tab, k)
		w.g.RegisterStreamFunctionHandler(k.s, k.f, nil)
		return
	}
	n := w.name(kind)
	w.tab[k] = n
	w.g.RegisterStreamFunctionHandler(k.s, k.f, w.handler(k, n, false))
}

func (w *extWorld) setDef(kind string) {
	if kind == "" {
		w.def = ""
		w.g.RegisterDefaultStreamHandler(nil)
		return
	}
	w.def = w.name(kind)
	w.g.RegisterDefaultStreamHandler(w.handler(sf{}, w.def, true))
}

// body is a well-formed request, where one without content would be refused
// in another way.
func (k sf) body() *wire.Item {
	switch k {
	case sf{2, 17}, sf{1, 1}, sf{1, 15}, sf{1, 17}, sf{5, 5}, sf{5, 7}:
		return nil
	case sf{2, 31}:
		return wire.A("2024010203040500")
	case sf{2, 41}:
		return wire.L(wire.A("GO"), wire.L())
	case sf{5, 1}:
		return wire.L(wire.B(0x80), u4(1), wire.A("t"))
	case sf{5, 3}:
		return wire.L(wire.B(0x80), u4(1))
	case sf{6, 11}:
		return wire.L(u4(1), u4(1), wire.L())
	case sf{6, 15}:
		return u4(1)
	case sf{7, 3}:
		return wire.L(wire.A("P"), wire.A("b"))
	case sf{7, 5}:
		return wire.A("P")
	}
	return wire.L()
}

// probe sends a message and compares who answers it.
func (w *extWorld) try(k sf, wbit bool) {
	x := w.x
	w.settle()
	if o := w.take(); len(o) > 0 {
		x.Failf("unexpected", "%s: sent %s", w.hist, frames(o))
	}
	w.got = nil
	sys := w.data(k.s, k.f, wbit, k.body())
	w.settle()
	out := w.take()
	who, ok := w.tab[k]
	deflt := false
	if !ok {
		who, deflt = w.def, true
	}
	kind := strings.SplitN(who, "#", 2)[0]
	var want []string
	if who != "" && who != "built-in" {
		want = []string{fmt.Sprintf("%s %v %08x", who, k, sys)}
	}
	if fmt.Sprint(w.got) != fmt.Sprint(want) {
		x.Failf("dispatch", "%s: %v went to %v, want %v", w.hist, k, w.got, want)
	}
	if kind == "sends" {
		if len(out) == 0 || out[0].S() != 10 || out[0].F() != 1 {
			x.Failf("handler-send", "%s: %v: sent %s, want S10F1 first", w.hist, k, frames(out))
		}
		out = out[1:]
	}
	rs, rf, body := k.s, k.f+1, ""
	switch kind {
	case "":
		// S9F5 or S9F3, asked for or not
		rs, rf = 9, 5
		if !knownStreams[k.s] {
			rf = 3
		}
		wbit = true
	case "none", "error":
		rs = 0
	case "built-in":
	default:
		body = wire.A(who).String()
	}
	if rs == 0 || !wbit {
		// equipment that is not asked keeps quiet, a reply to nobody is noise
		if len(out) > 0 {
			x.Failf("reply", "%s: %v W=%v (%s) answered by %s", w.hist, k, wbit, who, frames(out))
		}
	} else {
		if len(out) == 0 || out[0].SType != 0 || out[0].S() != rs || out[0].F() != rf || out[0].Sys != sys || out[0].W() || int(out[0].Session) != w.cfg.sess || body != "" && (out[0].Item == nil || out[0].Item.String() != body) {
			x.Failf("reply", "%s: %v (%s) answered by %s, want S%dF%d %s", w.hist, k, who, frames(out), rs, rf, body)
		}
		if len(out) > 1 && !(k == sf{1, 17} && who == "built-in" || k == sf{1, 13} && who == "built-in") {
			x.Failf("reply", "%s: %v (%s) answered by %s", w.hist, k, who, frames(out))
		}
		for _, f := range out[1:] {
			if f.W() {
				w.reply(f, wire.L())
				w.settle()
			}
		}
	}
	if kind == "once" {
		if deflt {
			w.def = ""
		} else {
			delete(w.tab, k)
		}
	}
	w.all = w.all[:0]
}

func newExt(x *X, gc gcfg) *extWorld {
	w := &extWorld{gw: newGW(x, gc), tab: map[sf]string{}}
	b := builtinEq
	if gc.host {
		b = builtinHost
	}
	for _, k := range b {
		w.tab[k] = "built-in"
	}
	return w
}

// relink loses the session and makes another one.
func (w *extWorld) relink() {
	w.c.Shut(false)
	w.settle()
	w.selectNow()
	w.data(1, 13, true, wire.L())
	w.settle()
	for i := 0; i < 3; i++ {
		for _, f := range w.take() {
			if f.SType != 0 || !f.W() {
				continue
			}
			if f.F() == 13 {
				w.reply(f, wire.L(wire.B(0), wire.L()))
			} else {
				w.reply(f, wire.L())
			}
		}
		w.settle()
	}
	if s := w.g.State(); s != gem.CommunicationStateCommunicating {
		w.x.Failf("establish", "%s: state %v after S1F13", w.hist, s)
	}
}

func runExt(x *X, gc gcfg, before bool, keys []sf, ops []string) {
	w := newExt(x, gc)
	if !before {
		w.toComm()
	}
	for i, op := range ops {
		w.hist += " " + op
		f := strings.Fields(op)
		switch f[0] {
		case "reg":
			var k sf
			fmt.Sscanf(f[1], "S%dF%d", &k.s, &k.f)
			w.reg(k, f[2])
		case "unreg":
			var k sf
			fmt.Sscanf(f[1], "S%dF%d", &k.s, &k.f)
			w.reg(k, "")
		case "default":
			w.setDef(f[1])
		case "nodefault":
			w.setDef("")
		case "relink":
			if before {
				return
			}
			w.relink()
		}
		if before && i == len(ops)-1 {
			w.toComm()
		}
		if before && i < len(ops)-1 {
			continue
		}
		for _, k := range keys {
			w.try(k, true)
			if w.tab[k] != "built-in" {
				w.try(k, false)
			}
		}
		x.State(op, fmt.Sprint(len(w.tab), w.def == ""))
	}
	x.Outcome("%d", len(w.tab))
}

// runExtRace has a replacement race with messages.
func runExtRace(x *X, gc gcfg, evs []string) {
	w := newExt(x, gc)
	k := sf{1, 1}
	w.toComm()
	w.reg(k, "reply")
	w.take()
	var arr []uint32
	names := map[string]bool{wire.A(w.tab[k]).String(): true}
	w.got = nil
	vrt.Explore(true)
	done, n := 0, 0
	for _, e := range evs {
		e := e
		switch e {
		case "in":
			arr = append(arr, w.data(1, 1, true, nil))
			continue
		case "reg":
			nm := w.name("reply")
			names[wire.A(nm).String()] = true
			n++
			vrt.GoApp(e, func() { w.g.RegisterStreamFunctionHandler(k.s, k.f, w.handler(k, nm, false)); done++ })
		case "unreg":
			n++
			vrt.GoApp(e, func() { w.g.RegisterStreamFunctionHandler(k.s, k.f, nil); done++ })
		case "default":
			nm := w.name("reply")
			names[wire.A(nm).String()] = true
			n++
			vrt.GoApp(e, func() { w.g.RegisterDefaultStreamHandler(w.handler(k, nm, true)); done++ })
		}
	}
	w.settle()
	vrt.Explore(false)
	out := w.take()
	if done != n || len(out) != len(arr) {
		x.Failf("reply", "%v: %d of %d done, answered by %s", evs, done, n, frames(out))
	}
	handled := 0
	for i, f := range out {
		if f.Sys != arr[i] || f.W() {
			x.Failf("reply", "%v: answered by %s", evs, frames(out))
		}
		switch {
		case f.S() == 9 && f.F() == 5:
		case f.S() == 1 && f.F() == 2 && f.Item != nil && names[f.Item.String()]:
			handled++
		default:
			x.Failf("reply", "%v: answered by %v", evs, f)
		}
	}
	if handled != len(w.got) {
		x.Failf("dispatch", "%v: handlers got %v, answered %s", evs, w.got, frames(out))
	}
	x.Outcome("%v %d", evs, handled)
}

func c39(c *C) {
	for _, host := range []bool{false, true} {
		b := builtinEq
		if host {
			b = builtinHost
		}
		for _, active := range []bool{false, true} {
			gc := gcfgDefault
			gc.host, gc.active = host, active
			// each function alone
			for _, k := range append(append([]sf(nil), b...), sf{1, 5}, sf{5, 1}, sf{6, 11}, sf{2, 41}, sf{10, 3}, sf{64, 1}, sf{127, 253}) {
				keys := append(append([]sf(nil), b...), k, sf{k.s, k.f + 2}, sf{k.s + 1, k.f})
				if k.s == 127 {
					keys = keys[:len(keys)-1]
				}
				for _, kind := range extKinds {
					for _, before := range []bool{false, true} {
						if before && k == (sf{1, 13}) {
							continue // would not establish communication
						}
						k, before, keys := k, before, keys
						ops := []string{fmt.Sprintf("reg %v %s", k, kind)}
						c.Case(fmt.Sprintf("%v before=%v %v", gc, before, ops), Opt{}, func(x *X) { runExt(x, gc, before, keys, ops) })
						ops2 := append(ops[:1:1], fmt.Sprintf("unreg %v", k))
						if !before {
							c.Case(fmt.Sprintf("%v %v", gc, ops2), Opt{}, func(x *X) { runExt(x, gc, false, keys, ops2) })
						}
					}
				}
			}
			keys := []sf{{1, 1}, {6, 11}, {64, 1}}
			if !host {
				keys = []sf{{2, 41}, {1, 5}, {64, 1}}
			}
			var ops []string
			for _, k := range keys {
				for _, kind := range extKinds[:4] {
					ops = append(ops, fmt.Sprintf("reg %v %s", k, kind))
				}
				ops = append(ops, fmt.Sprintf("unreg %v", k))
			}
			for _, kind := range extKinds {
				ops = append(ops, "default "+kind)
			}
			ops = append(ops, "nodefault", "relink")
			for n := 1; n <= c.Q(3, 4); n++ {
				seqsOf(ops, n, func(l []string) {
					if l[0] == "relink" || l[0] == "nodefault" {
						return
					}
					l = append([]string(nil), l...)
					c.Case(fmt.Sprintf("%v %v", gc, l), Opt{}, func(x *X) { runExt(x, gc, false, keys, l) })
					if l[len(l)-1] != "relink" && n > 1 {
						c.Case(fmt.Sprintf("%v before %v", gc, l), Opt{}, func(x *X) { runExt(x, gc, true, keys, l) })
					}
				})
			}
			for _, evs := range [][]string{{"in", "reg"}, {"in", "unreg", "default"}, {"in", "in", "reg", "unreg"}, {"in", "reg", "reg"}, {"in", "in", "default", "unreg"}} {
				evs := evs
				c.Case(fmt.Sprintf("race %v %v", gc, evs), Opt{Dev: c.Q(2, 3), Split: true}, func(x *X) { runExtRace(x, gc, evs) })
			}
		}
	}
}
