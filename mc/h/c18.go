package h

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C18", Level: "model_checking", Budget: [2]int{240, 850},
		Rule: "every sequence of S2F33, S2F35 and S2F37 messages of the alphabet to the depth bound, and every message of the alphabet in every reachable state of the reference model to the state bound; each acknowledge code and, at the end, the definitions and enablement as seen through S6F15 and triggered S6F11; long lists of ids; texts of the lengths around field limits that differ in their last character",
		Run:  c18})
	register(&Check{ID: "C19", Level: "model_checking", Budget: [2]int{240, 850},
		Rule: "every definition, link, enablement and value change of the alphabet to the depth bound followed by every trigger and request, content compared item by item; triggers racing with definition changes under every schedule to the deviation bound; the host side's events compared with what was sent; long lists of ids; texts of the lengths around field limits that differ in their last character",
		Run:  c19})
}

// ---- the reference model of report definitions

type rmodel struct {
	reports map[string]string   // report -> variables, comma separated keys in order
	links   map[string][]string // event -> reports in order
	off     map[string]bool
}

func newRModel() *rmodel {
	return &rmodel{map[string]string{}, map[string][]string{}, map[string]bool{}}
}

func (m *rmodel) clone() *rmodel {
	n := newRModel()
	for k, v := range m.reports {
		n.reports[k] = v
	}
	for k, v := range m.links {
		n.links[k] = append([]string(nil), v...)
	}
	for k, v := range m.off {
		n.off[k] = v
	}
	return n
}

func (m *rmodel) String() string {
	var s []string
	for k, v := range m.reports {
		s = append(s, "R"+k+"="+v)
	}
	for k, v := range m.links {
		if len(v) > 0 {
			s = append(s, "L"+k+"="+strings.Join(v, ","))
		}
	}
	for k, v := range m.off {
		if v {
			s = append(s, "off"+k)
		}
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

var (
	rEvents = []*wire.Item{wire.U(2, 1), wire.U(4, 2), wire.A("e")}
	rVars   = []*wire.Item{wire.U(4, 10), wire.U(4, 11), wire.A("v")}
)

func known(set []*wire.Item, id string) bool {
	for _, s := range set {
		if idKey(s) == id {
			return true
		}
	}
	return false
}

// rcase is one message and what it means.
type rcase struct {
	f    int // 33, 35, 37
	it   *wire.Item
	bad  bool // not a well-formed message
	defs []rdef
	on   bool
}

type rdef struct {
	id   *wire.Item
	list []*wire.Item
}

func (r rcase) String() string { return fmt.Sprintf("S2F%d %v", r.f, r.it) }

// outcome: an acknowledge code and the state after it
type rout struct {
	ack int // -1: any refusal
	m   *rmodel
}

// apply lists what may follow a message.
func (m *rmodel) apply(r rcase) []rout {
	if r.bad {
		if r.f == 37 {
			return []rout{{-1, m}}
		}
		return []rout{{2, m}}
	}
	var refused []rout
	refuse := func(ack int) {
		for _, o := range refused {
			if o.ack == ack {
				return
			}
		}
		refused = append(refused, rout{ack, m})
	}
	n := m.clone()
	ambiguous := false
	switch r.f {
	case 33:
		if len(r.defs) == 0 {
			n.reports, n.links = map[string]string{}, map[string][]string{}
			break
		}
		seen := map[string]bool{}
		for _, d := range r.defs {
			k := idKey(d.id)
			touched := seen[k]
			seen[k] = true
			if len(d.list) == 0 {
				if touched {
					ambiguous = true
				}
				delete(n.reports, k)
				for e := range n.links {
					n.links[e] = without(n.links[e], k)
				}
				continue
			}
			if _, had := n.reports[k]; had {
				refuse(3)
			} else if touched {
				ambiguous = true // deleted and defined by one message
			}
			var vs []string
			for _, v := range d.list {
				if !known(rVars, idKey(v)) {
					refuse(4)
				}
				vs = append(vs, idKey(v))
			}
			n.reports[k] = strings.Join(vs, ",")
		}
		if ambiguous {
			return append(refused, rout{3, m}, rout{0, n})
		}
	case 35:
		seen := map[string]bool{}
		for _, d := range r.defs {
			k := idKey(d.id)
			if !known(rEvents, k) {
				refuse(4)
			}
			if seen[k] {
				ambiguous = true
			}
			seen[k] = true
			if len(d.list) == 0 {
				delete(n.links, k)
				continue
			}
			for _, v := range d.list {
				rk := idKey(v)
				if _, ok := m.reports[rk]; !ok {
					refuse(5)
				}
				for _, have := range n.links[k] {
					if have == rk {
						refuse(3)
					}
				}
				n.links[k] = append(n.links[k], rk)
			}
		}
		if ambiguous && len(refused) == 0 {
			return []rout{{0, n}, {3, m}}
		}
	case 37:
		if len(r.defs) == 0 {
			for _, e := range rEvents {
				n.off[idKey(e)] = !r.on
			}
			break
		}
		for _, d := range r.defs {
			k := idKey(d.id)
			if !known(rEvents, k) {
				refuse(1)
			}
			n.off[k] = !r.on
		}
	}
	if len(refused) > 0 {
		return refused
	}
	return []rout{{0, n}}
}

func without(l []string, k string) []string {
	var r []string
	for _, v := range l {
		if v != k {
			r = append(r, v)
		}
	}
	return r
}

func d33(id *wire.Item, vids ...*wire.Item) rdef { return rdef{id, vids} }

func mk(f int, defs ...rdef) rcase {
	var l []*wire.Item
	for _, d := range defs {
		l = append(l, wire.L(d.id, wire.L(d.list...)))
	}
	return rcase{f: f, it: wire.L(wire.U(4, 7), wire.L(l...)), defs: defs}
}

func mk37(on bool, ids ...*wire.Item) rcase {
	r := rcase{f: 37, on: on, it: wire.L(wire.Bool(on), wire.L(ids...))}
	for _, i := range ids {
		r.defs = append(r.defs, rdef{id: i})
	}
	return r
}

var (
	u1, u2, u4 = func(v uint64) *wire.Item { return wire.U(1, v) }, func(v uint64) *wire.Item { return wire.U(2, v) }, func(v uint64) *wire.Item { return wire.U(4, v) }
)

// rAlphabet: small is the part explored deepest.
func rAlphabet() (small, all []rcase) {
	a, e, v, r := wire.A("r"), wire.A("e"), wire.A("v"), u4(100)
	i2 := func(v int64) *wire.Item { return wire.I(2, v) }
	small = []rcase{
		mk(33),
		mk(33, d33(r, u4(10))),
		mk(33, d33(u1(101), v, u1(10), u4(10))),
		mk(33, d33(u2(100), u4(11)), d33(u4(101), u4(10))),
		mk(33, d33(u4(102), u4(10)), d33(a, u4(99))),
		mk(33, d33(i2(100))),
		mk(35, d33(u1(1), u4(100))),
		mk(35, d33(u1(1), u4(101))),
		mk(35, d33(u1(1), u4(101), u4(100))),
		mk(35, d33(u4(2), u1(100)), d33(u4(1), u1(100))),
		mk(35, d33(u4(1))),
		mk(35, d33(u4(2), u4(101)), d33(u4(9), u4(100))),
		mk(37, nil...),
		mk37(true),
		mk37(false, u4(1)),
		mk37(true, u2(1)),
		mk37(false, u4(2), u4(9)),
	}
	small[12] = mk37(false)
	all = append(all, small...)
	all = append(all,
		mk(33, d33(a, u4(11))),
		mk(33, d33(a)),
		mk(33, d33(u4(100), u4(10)), d33(u4(100), u4(11))),
		mk(33, d33(u4(100)), d33(u4(100), u4(11))),
		mk(33, d33(u4(100), u4(99))),
		mk(33, d33(u4(100)), d33(u4(101))),
		mk(33, d33(u4(101)), d33(u4(100), u4(99))),
		mk(33, d33(wire.U(8, 1<<40), u4(10))),
		mk(33, d33(u4(777))),
		mk(33, d33(wire.A("100"), u4(10))),
		mk(35),
		mk(35, d33(e, a)),
		mk(35, d33(e, a, u4(100))),
		mk(35, d33(u4(9), u4(100))),
		mk(35, d33(u4(1), u4(999))),
		mk(35, d33(u4(1), u4(100), u4(100))),
		mk(35, d33(u4(1), u4(100)), d33(u4(1), u4(101))),
		mk(35, d33(u4(1)), d33(u4(1), u4(101))),
		mk(35, d33(u4(2)), d33(u4(1), u4(999))),
		mk(35, d33(u4(1), wire.U(8, 1<<40))),
		mk(35, d33(wire.A("1"), u4(100))),
		mk37(false, e),
		mk37(true, e, u1(2)),
		mk37(true, u4(9)),
		mk37(false, u4(1), wire.A("1"), u4(2)),
	)
	// the other encodings of the same message
	one := mk(33, d33(r, u4(10)))
	one.it = one.it.L[1] // without DATAID
	all = append(all, one)
	nothing := mk(33)
	nothing.it = wire.L()
	all = append(all, nothing)
	lone := mk(35, d33(u1(1), u4(100)))
	lone.it = lone.it.L[1]
	all = append(all, lone)
	b37 := mk37(false, u4(1))
	b37.it = wire.L(wire.B(0), wire.L(u4(1)))
	all = append(all, b37)
	b37 = mk37(true)
	b37.it = wire.L(wire.B(1), wire.L())
	all = append(all, b37)
	// malformed
	mal := func(f int, its ...*wire.Item) {
		for _, it := range its {
			all = append(all, rcase{f: f, it: it, bad: true})
		}
	}
	for _, f := range []int{33, 35} {
		mal(f, nil, wire.A("x"), wire.L(u4(0)), wire.L(u4(0), u4(1)), wire.L(u4(0), wire.L(u4(100))), wire.L(u4(0), wire.L(wire.L(u4(100)))),
			wire.L(u4(0), wire.L(wire.L(u4(100), u4(10)))), wire.L(u4(0), wire.L(wire.L(i2(-1), wire.L(u4(10))))),
			wire.L(u4(0), wire.L(wire.L(u4(100), wire.L(wire.B(1))))), wire.L(u4(0), wire.L(wire.L(wire.U(4), wire.L(u4(10))))),
			wire.L(u4(0), wire.L(wire.L(u4(1), wire.L()), wire.L(u4(100), wire.L(wire.L())))))
	}
	mal(37, nil, wire.L(), wire.Bool(true), wire.L(wire.Bool(true)), wire.L(wire.Bool(false), u4(1)), wire.L(wire.U(1, 1), wire.L()), wire.L(wire.Bool(), wire.L()), wire.L(wire.Bool(false), wire.L(wire.L(u4(1)))), wire.L(wire.Bool(false), wire.L(u4(1), wire.I(1, -2))))
	return
}

// rw is an equipment with the variables and events of the model.
type rw struct {
	*gw
	vals map[string]*wire.Item
	sv   map[string]*gem.StatusVariable
	dv   map[string]*gem.DataVariable
	m    *rmodel
}

func rawID(it *wire.Item) interface{} {
	if it.F == wire.FA {
		return string(it.Data)
	}
	return it.Uints()[0]
}

func newRW(x *X) *rw {
	w := &rw{gw: newGW(x, gcfgDefault), vals: map[string]*wire.Item{}, sv: map[string]*gem.StatusVariable{}, dv: map[string]*gem.DataVariable{}, m: newRModel()}
	init := []*wire.Item{wire.A("ten"), wire.U(2, 11), wire.L(wire.Bool(true), wire.A("v"))}
	for i, id := range rVars {
		w.vals[idKey(id)] = init[i]
		if i == 1 {
			v, _ := gem.NewDataVariable(rawID(id), "d", gem.WithDataValue(node(init[i])))
			w.dv[idKey(id)] = v
			if err := w.g.RegisterDataVariable(v); err != nil {
				x.Failf("register", "%v", err)
			}
			continue
		}
		v, _ := gem.NewStatusVariable(rawID(id), "s", "", gem.WithStatusValue(node(init[i])))
		w.sv[idKey(id)] = v
		if err := w.g.RegisterStatusVariable(v); err != nil {
			x.Failf("register", "%v", err)
		}
	}
	for _, id := range rEvents {
		e, _ := gem.NewCollectionEvent(rawID(id), "ev")
		if err := w.g.RegisterCollectionEvent(e); err != nil {
			x.Failf("register", "%v", err)
		}
	}
	return w
}

func (w *rw) set(id *wire.Item, val *wire.Item) {
	k := idKey(id)
	w.vals[k] = val
	if v := w.sv[k]; v != nil {
		v.SetValue(node(val))
	} else {
		w.dv[k].SetValue(node(val))
	}
}

// msg sends one message and follows the model.
func (w *rw) msg(r rcase) {
	got := w.ask(2, r.f, r.it)
	outs := w.m.apply(r)
	ack := -2
	if got != nil && got.F == wire.FB && len(got.Data) == 1 {
		ack = int(got.Data[0])
	}
	for _, o := range outs {
		if o.ack == ack || o.ack == -1 && ack > 0 {
			w.m = o.m
			w.x.State(r.String(), w.m.String())
			return
		}
	}
	w.x.Failf("ack", "%v in state [%v] answered by %v, want %v", r, w.m, got, acks(outs))
}

func acks(outs []rout) string {
	var s []string
	for _, o := range outs {
		s = append(s, fmt.Sprint(o.ack))
	}
	return strings.Join(s, " or ")
}

// content of an event's report list.
func (m *rmodel) content(vals map[string]*wire.Item, ev string) *wire.Item {
	l := wire.L()
	for _, r := range m.links[ev] {
		vs := wire.L()
		if d := m.reports[r]; d != "" {
			for _, v := range strings.Split(d, ",") {
				vs.L = append(vs.L, vals[v])
			}
		}
		l.L = append(l.L, wire.L(wire.A(r), vs))
	}
	return l
}

// norm replaces the report ids of an S6F11 or S6F16 report list by their keys.
func norm(it *wire.Item) *wire.Item {
	if it == nil || it.F != wire.FL {
		return it
	}
	l := wire.L()
	for _, r := range it.L {
		if r.F == wire.FL && len(r.L) == 2 {
			r = wire.L(wire.A(idKey(r.L[0])), r.L[1])
		}
		l.L = append(l.L, r)
	}
	return l
}

func (w *rw) event(what string, ev *wire.Item, it *wire.Item, want *wire.Item, alt *wire.Item) {
	if it == nil || it.F != wire.FL || len(it.L) != 3 || idKey(it.L[1]) != idKey(ev) {
		w.x.Failf("event", "%s for event %v in state [%v]: %v", what, ev, w.m, it)
	}
	got := norm(it.L[2])
	if !wire.Equal(got, want) && (alt == nil || !wire.Equal(got, alt)) {
		w.x.Failf("content", "%s for event %v in state [%v]: reports %v, want %v", what, ev, w.m, got, want)
	}
}

// observe checks all definitions through reports.
func (w *rw) observe() {
	for _, ev := range rEvents {
		w.request(ev)
		w.trigger(ev)
	}
}

func (w *rw) request(ev *wire.Item) {
	full := w.m.content(w.vals, idKey(ev))
	var alt *wire.Item
	if w.m.off[idKey(ev)] {
		alt = wire.L()
	}
	w.event("S6F15", ev, w.ask(6, 15, ev), full, alt)
}

func (w *rw) trigger(ev *wire.Item) {
	w.settle()
	w.take()
	var err error
	w.finish("TriggerCollectionEvent", call("trigger", func() { err = w.g.TriggerCollectionEvent(rawID(ev)) }))
	w.settle()
	o := w.take()
	full := w.m.content(w.vals, idKey(ev))
	if w.m.off[idKey(ev)] || len(full.L) == 0 {
		if len(o) > 0 {
			w.x.Failf("disabled-sent", "triggering event %v in state [%v] sent %s", ev, w.m, frames(o))
		}
		return
	}
	if err != nil || len(o) != 1 || o[0].SType != 0 || o[0].S() != 6 || o[0].F() != 11 {
		w.x.Failf("trigger", "triggering event %v in state [%v]: %v, sent %s", ev, w.m, err, frames(o))
	}
	w.event("S6F11", ev, o[0].Item, full, nil)
}

func runDefs(x *X, seq []rcase) {
	w := newRW(x)
	w.toComm()
	for _, r := range seq {
		w.msg(r)
	}
	w.observe()
	x.Eval(fmt.Sprint(seq), true)
	x.Outcome("%v", w.m)
}

func c18(c *C) {
	long(c, longReports)
	texts(c, "texts", textReports)
	o := Opt{MaxSteps: 1 << 22}
	small, all := rAlphabet()
	names := func(s []rcase, ix []int) string {
		var n []string
		for _, i := range ix {
			n = append(n, fmt.Sprint(i))
		}
		return strings.Join(n, ".")
	}
	pick := func(s []rcase, ix []int) []rcase {
		var r []rcase
		for _, i := range ix {
			r = append(r, s[i])
		}
		return r
	}
	for d := 0; d <= c.Q(2, 3); d++ {
		seqs(len(all), d, func(ix []int) {
			s := pick(all, ix)
			c.Case("all "+names(all, ix), o, func(x *X) { runDefs(x, s) })
		})
	}
	for d := 3; d <= c.Q(4, 5); d++ {
		seqs(len(small), d, func(ix []int) {
			s := pick(small, ix)
			c.Case("seq "+names(small, ix), o, func(x *X) { runDefs(x, s) })
		})
	}
	// every message in every state of the model, reached by a shortest path
	type st struct {
		m    *rmodel
		path []rcase
	}
	q := []st{{newRModel(), nil}}
	seen := map[string]bool{"": true}
	for i := 0; i < len(q) && i < c.Q(150, 3000); i++ {
		s := q[i]
		for j, r := range all {
			path := append(append([]rcase(nil), s.path...), r)
			c.Case(fmt.Sprintf("state %d message %d", i, j), o, func(x *X) { runDefs(x, path) })
			if j >= len(small) {
				continue
			}
			if outs := s.m.apply(r); len(outs) == 1 && !seen[outs[0].m.String()] {
				seen[outs[0].m.String()] = true
				q = append(q, st{outs[0].m, path})
			}
		}
	}
}

// ---- C19

type rop struct {
	name string
	do   func(w *rw)
}

func rops() []rop {
	small, _ := rAlphabet()
	var ops []rop
	for i := range small {
		r := small[i]
		if i == 4 || i == 11 || i == 16 {
			continue
		}
		ops = append(ops, rop{fmt.Sprintf("m%d", i), func(w *rw) { w.msg(r) }})
	}
	for i, v := range []*wire.Item{wire.U(4, 10), wire.U(4, 11), wire.A("v")} {
		v, n := v, i
		ops = append(ops, rop{fmt.Sprintf("set%d", i), func(w *rw) { w.set(v, wire.L(wire.A("new"), wire.U(4, uint64(n)))) }})
	}
	ops = append(ops,
		rop{"unset", func(w *rw) {
			w.vals["N:10"] = wire.L()
			w.sv["N:10"].SetValue(nil)
		}},
		rop{"provider", func(w *rw) {
			n := 0
			w.vals["N:11"] = nil
			w.dv["N:11"].SetValueProvider(func() (ast.ItemNode, error) { n++; return node(wire.U(2, uint64(n))), nil })
			w.vals["N:11"] = wire.A("counter")
		}})
	return ops
}

func runReports(x *X, ops []rop) {
	w := newRW(x)
	w.toComm()
	w.msg(mk(33, d33(u4(100), u4(10), u4(11)), d33(u4(101), wire.A("v"))))
	w.msg(mk(35, d33(u4(1), u4(101), u4(100)), d33(wire.A("e"), u4(100))))
	counter := false
	n := uint64(0)
	for _, o := range ops {
		o.do(w)
		counter = counter || o.name == "provider"
	}
	_ = n
	if counter {
		// a provider is asked once for every value reported
		w.vals["N:11"] = nil
		w.countReports()
		return
	}
	w.observe()
	x.Eval(fmt.Sprint(len(ops)), true)
}

// countReports checks that each report carries a fresh value of the counter.
func (w *rw) countReports() {
	last := uint64(0)
	walk := func(it *wire.Item) {
		if it == nil || len(it.L) != 3 {
			return
		}
		for i, r := range it.L[2].L {
			d := strings.Split(w.m.reports[idKey(r.L[0])], ",")
			if len(r.L[1].L) != len(d) {
				w.x.Failf("content", "report %d of %v", i, it)
			}
			for j, v := range d {
				if v != "N:11" {
					continue
				}
				u := r.L[1].L[j].Uints()
				if len(u) != 1 || u[0] <= last {
					w.x.Failf("stale", "provided value %v after %d in %v", r.L[1].L[j], last, it)
				}
				last = u[0]
			}
		}
	}
	for _, ev := range rEvents {
		walk(w.ask(6, 15, ev))
		var err error
		w.finish("TriggerCollectionEvent", call("trigger", func() { err = w.g.TriggerCollectionEvent(rawID(ev)) }))
		w.settle()
		for _, f := range w.take() {
			walk(f.Item)
		}
		if err != nil {
			w.x.Failf("trigger", "%v", err)
		}
	}
}

// runTriggerRace triggers while definitions change: what is sent must be what
// some moment between the trigger and the end would have sent.
func runTriggerRace(x *X, evs []*wire.Item, change []rcase, pair bool) {
	w := newRW(x)
	w.toComm()
	w.msg(mk(33, d33(u4(100), u4(10), u4(11)), d33(u4(101), wire.A("v"))))
	w.msg(mk(35, d33(u4(1), u4(101), u4(100)), d33(u4(2), u4(100))))
	states := []*rmodel{w.m}
	vrt.Explore(true)
	var done []*bool
	n := map[string]int{}
	for i, ev := range evs {
		ev := ev
		n[idKey(ev)]++
		done = append(done, call(fmt.Sprintf("trigger%d", i), func() {
			if err := w.g.TriggerCollectionEvent(rawID(ev)); err != nil {
				x.Failf("trigger", "%v", err)
			}
		}))
	}
	m := w.m
	var sys []uint32
	for _, r := range change {
		sys = append(sys, w.data(2, r.f, true, r.it))
		o := m.apply(r)
		m = o[0].m
		states = append(states, m)
	}
	w.settle()
	vrt.Explore(false)
	w.finish("TriggerCollectionEvent", done...)
	var got []string
	replies := 0
	for _, f := range w.take() {
		if f.S() == 2 {
			if f.Sys != sys[replies] || f.Item == nil || len(f.Item.Data) != 1 || f.Item.Data[0] != 0 {
				x.Failf("ack", "answer %v to %v", f, change[replies])
			}
			replies++
			continue
		}
		if f.S() != 6 || f.F() != 11 || len(f.Item.L) != 3 {
			x.Failf("unexpected", "%v", f)
		}
		k := idKey(f.Item.L[1])
		n[k]--
		c := norm(f.Item.L[2])
		ok := false
		for _, s := range states {
			if !s.off[k] && wire.Equal(c, s.content(w.vals, k)) {
				ok = true
			}
		}
		if !ok || len(c.L) == 0 || n[k] < 0 {
			x.Failf("torn", "event %s reported %v, which no state of %v has, or too often", k, c, states)
		}
		got = append(got, k+c.String())
	}
	if replies != len(sys) {
		x.Failf("no-reply", "%d of %d messages answered", replies, len(sys))
	}
	for k, c := range n {
		always := true
		for _, s := range states {
			if s.off[k] || len(s.content(w.vals, k).L) == 0 {
				always = false
			}
		}
		if c > 0 && always {
			x.Failf("lost", "event %s: %d reports missing", k, c)
		}
	}
	sort.Strings(got)
	x.Outcome("%s", strings.Join(got, "|"))
	w.m = m
	w.observe()
}

// runHostReports compares what the host's subscribers see with what was sent.
func runHostReports(x *X, change []int, ev *wire.Item, ask bool) {
	p := newPair(x)
	w := &rw{gw: p.e, vals: map[string]*wire.Item{}}
	for i, id := range []interface{}{10, 11, "v"} {
		v, _ := gem.NewStatusVariable(id, "s", "", gem.WithStatusValue(node([]*wire.Item{wire.A("ten"), wire.U(8, 1<<40), wire.L(wire.B(1), wire.L())}[i])))
		if err := p.e.g.RegisterStatusVariable(v); err != nil {
			x.Failf("register", "%v", err)
		}
	}
	for _, id := range rEvents {
		e, _ := gem.NewCollectionEvent(rawID(id), "ev")
		if err := p.e.g.RegisterCollectionEvent(e); err != nil {
			x.Failf("register", "%v", err)
		}
	}
	var got []gem.EventReport
	p.h.g.Events().EventReportReceived.AddCallback(func(d map[string]interface{}) { got = append(got, d["report"].(gem.EventReport)) })
	p.up()
	vals := map[string]*wire.Item{"N:10": wire.A("ten"), "N:11": wire.U(8, 1<<40), "S:v": wire.L(wire.B(1), wire.L())}
	m := newRModel()
	ack := func(what string, f func() (int, error), outs []rout) {
		var a int
		var err error
		p.call(what, func() { a, err = f() })
		for _, o := range outs {
			if err == nil && (a == o.ack || o.ack == -1 && a > 0) {
				m = o.m
				return
			}
		}
		x.Failf("host-ack", "%s returned %d, %v; want %s", what, a, err, acks(outs))
	}
	h := p.h.g
	for _, c := range change {
		switch c {
		case 0:
			ack("DefineReports", func() (int, error) {
				return h.DefineReports(gem.ReportDefinitionRequest{ReportID: 100, VIDs: []interface{}{10, 11}}, gem.ReportDefinitionRequest{ReportID: "r", VIDs: []interface{}{"v"}})
			}, m.apply(mk(33, d33(u4(100), u4(10), u4(11)), d33(wire.A("r"), wire.A("v")))))
		case 1:
			ack("LinkEventReports", func() (int, error) {
				return h.LinkEventReports(gem.EventReportLinkRequest{CEID: 1, ReportIDs: []interface{}{"r", uint16(100)}}, gem.EventReportLinkRequest{CEID: "e", ReportIDs: []interface{}{100}})
			}, m.apply(mk(35, d33(u4(1), wire.A("r"), u4(100)), d33(wire.A("e"), u4(100)))))
		case 2:
			ack("EnableEventReports", func() (int, error) { return h.EnableEventReports(false, "e") }, m.apply(mk37(false, wire.A("e"))))
		case 3:
			ack("EnableEventReports", func() (int, error) { return h.EnableEventReports(true) }, m.apply(mk37(true)))
		case 4:
			ack("DefineReports", func() (int, error) { return h.DefineReports(gem.ReportDefinitionRequest{ReportID: 100}) }, m.apply(mk(33, d33(u4(100)))))
		case 5:
			ack("DefineReports", func() (int, error) { return h.DefineReports() }, m.apply(mk(33)))
		case 6:
			ack("EnableEventReports", func() (int, error) { return h.EnableEventReports(false, 1, 9) }, m.apply(mk37(false, u4(1), u4(9))))
		}
	}
	k := idKey(ev)
	want := m.content(vals, k)
	if m.off[k] {
		want = wire.L()
	}
	same := func(what string, r gem.EventReport, want *wire.Item) {
		l := wire.L()
		for _, e := range r.Reports {
			vs := wire.L()
			for _, v := range e.Values {
				it, err := fromNode(v)
				if err != nil {
					x.Failf("host-event", "%s: %v", what, err)
				}
				vs.L = append(vs.L, it)
			}
			l.L = append(l.L, wire.L(wire.A(rawKey(e.RPTID)), vs))
		}
		if rawKey(r.CEID) != k || !wire.Equal(l, want) {
			x.Failf("host-event", "%s of event %s: %v %v, want %v", what, k, r.CEID, l, want)
		}
	}
	if ask {
		var r gem.EventReport
		var err error
		p.call("RequestCollectionEventReport", func() { r, err = h.RequestCollectionEventReport(rawID(ev)) })
		if err != nil {
			x.Failf("host-event", "RequestCollectionEventReport: %v", err)
		}
		if full := m.content(vals, k); m.off[k] && len(r.Reports) > 0 {
			want = full
		}
		same("S6F16", r, want)
		if len(got) > 0 {
			x.Failf("host-event", "the answer to a request was announced as an event")
		}
	} else {
		n := w.c.Available()
		_ = n
		p.call("TriggerCollectionEvent", func() {
			if err := p.e.g.TriggerCollectionEvent(rawID(ev)); err != nil {
				x.Failf("trigger", "%v", err)
			}
		})
		if len(want.L) == 0 {
			if len(got) > 0 {
				x.Failf("host-event", "event %s disabled or empty in [%v] but %d reported", k, m, len(got))
			}
		} else {
			if len(got) != 1 {
				x.Failf("host-event", "event %s reported %d times to the host's subscriber", k, len(got))
			}
			same("S6F11", got[0], want)
		}
	}
	p.wait(time.Second)
	if len(p.e.s9)+len(p.h.s9) > 0 {
		x.Failf("s9", "stream 9 errors, equipment saw %v, host saw %v, in\n%s", p.e.s9, p.h.s9, p.since())
	}
	x.Eval(fmt.Sprint(change, k, ask), true)
}

func c19(c *C) {
	long(c, longReports)
	texts(c, "texts", textReports)
	o := Opt{MaxSteps: 1 << 22}
	ops := rops()
	for d := 0; d <= c.Q(3, 4); d++ {
		seqs(len(ops), d, func(ix []int) {
			var s []rop
			var n []string
			for _, i := range ix {
				s = append(s, ops[i])
				n = append(n, ops[i].name)
			}
			c.Case("reports "+strings.Join(n, " "), o, func(x *X) { runReports(x, s) })
		})
	}
	for d := 0; d <= c.Q(3, 4); d++ {
		seqs(7, d, func(ix []int) {
			s := append([]int(nil), ix...)
			for _, ev := range rEvents {
				ev := ev
				for _, ask := range []bool{false, true} {
					ask := ask
					c.Case(fmt.Sprintf("host %v event %v ask %v", s, ev, ask), o, func(x *X) { runHostReports(x, s, ev, ask) })
				}
			}
		})
	}
	ro := Opt{Dev: c.Q(2, 3), Split: true, MaxSteps: 1 << 22}
	changes := map[string][]rcase{
		"delete all":      {mk(33)},
		"delete one":      {mk(33, d33(u4(101)))},
		"unlink":          {mk(35, d33(u4(1)))},
		"disable":         {mk37(false, u4(1))},
		"disable all":     {mk37(false)},
		"add":             {mk(33, d33(u4(102), u4(10))), mk(35, d33(u4(1), u4(102)))},
		"redefine":        {mk(33, d33(u4(100)), d33(u4(101))), mk(33, d33(u4(100), wire.A("v")))},
		"disable, enable": {mk37(false), mk37(true)},
	}
	var names []string
	for n := range changes {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		ch := changes[n]
		c.Case("race one trigger, "+n, ro, func(x *X) { runTriggerRace(x, rEvents[:1], ch, false) })
		c.Case("race two triggers, "+n, ro, func(x *X) { runTriggerRace(x, rEvents[:2], ch, false) })
		c.Case("race same event twice, "+n, ro, func(x *X) { runTriggerRace(x, []*wire.Item{rEvents[0], rEvents[0]}, ch, false) })
	}
}
