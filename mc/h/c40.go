package h

import (
	"errors"
	"fmt"
	"strings"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C40", Level: "model_checking", Budget: [2]int{200, 850},
		Rule: "every sequence, to the depth, of values and value sources being set, removed, failing and updated by the host, on status variables, data variables and constants built in every way; each read by every route is compared with the current source; changes racing with reads under every schedule to the deviation bound",
		Run:  c40})
}

// src is the source of a value as the application left it.
type src struct {
	has  bool // a stored value
	val  *wire.Item
	prov string // "", "v", "nil", "err"
	pv   *wire.Item
}

func (s *src) shows() *wire.Item {
	switch s.prov {
	case "v":
		return s.pv
	case "":
		if s.has {
			return s.val
		}
	}
	return nil
}

type valueSetter interface {
	SetValue(ast.ItemNode)
}

type valWorld struct {
	*gw
	sv    *gem.StatusVariable
	dv    *gem.DataVariable
	s, d  src
	ec    *gem.EquipmentConstant
	e     src
	calls int // of the updater
	upd   bool
	hist  string
}

// provide returns a provider of a kind.
func provide(kind string, it *wire.Item) func() (ast.ItemNode, error) {
	switch kind {
	case "v":
		return func() (ast.ItemNode, error) { return node(it), nil }
	case "nil":
		return func() (ast.ItemNode, error) { return nil, nil }
	case "err":
		return func() (ast.ItemNode, error) { return nil, errors.New("sensor") }
	}
	return nil
}

var errRefused = errors.New("refused")

func newValWorld(x *X, static, prov, upd, check bool) *valWorld {
	w := &valWorld{gw: newGW(x, gcfgDefault), upd: upd}
	var so []gem.StatusVariableOption
	var do []gem.DataVariableOption
	eo := []gem.EquipmentConstantOption{}
	a, b := wire.A("first"), wire.U(2, 7)
	if static {
		so = append(so, gem.WithStatusValue(node(a)))
		do = append(do, gem.WithDataValue(node(a)))
		w.s.has, w.s.val = true, a
	}
	if prov {
		so = append(so, gem.WithStatusValueProvider(provide("v", b)))
		do = append(do, gem.WithDataValueProvider(provide("v", b)))
		eo = append(eo, gem.WithEquipmentConstantValueProvider(provide("v", b)))
		w.s.prov, w.s.pv = "v", b
		w.e.prov, w.e.pv = "v", b
	}
	w.d = w.s
	if upd {
		eo = append(eo, gem.WithEquipmentConstantValueUpdater(func(n ast.ItemNode) error {
			w.calls++
			return nil
		}))
	}
	if check {
		eo = append(eo, gem.WithEquipmentConstantValidator(func(n ast.ItemNode) error {
			if it, err := fromNode(n); err != nil || it.F != wire.FU2 {
				return errRefused
			}
			return nil
		}))
	}
	var err [7]error
	w.sv, err[0] = gem.NewStatusVariable(1, "s", "u", so...)
	w.dv, err[1] = gem.NewDataVariable(2, "d", do...)
	w.e.has, w.e.val = true, wire.U(2, 1)
	w.ec, err[2] = gem.NewEquipmentConstant(3, "e", node(w.e.val), eo...)
	err[3] = w.g.RegisterStatusVariable(w.sv)
	err[4] = w.g.RegisterDataVariable(w.dv)
	err[5] = w.g.RegisterEquipmentConstant(w.ec)
	ce, e := gem.NewCollectionEvent(1, "ev")
	if e == nil {
		e = w.g.RegisterCollectionEvent(ce)
	}
	err[6] = e
	for _, e := range err {
		if e != nil {
			x.Failf("register", "%v", e)
		}
	}
	w.toComm()
	for _, m := range []struct {
		f  int
		it *wire.Item
	}{
		{33, wire.L(u4(1), wire.L(wire.L(u4(1), wire.L(u4(2), u4(1), u4(2)))))},
		{35, wire.L(u4(1), wire.L(wire.L(u4(1), wire.L(u4(1)))))},
	} {
		if a := w.ask(2, m.f, m.it); !wire.Equal(a, wire.B(0)) {
			x.Failf("harness", "S2F%d answered %v", m.f, a)
		}
	}
	return w
}

func sameValue(got, want *wire.Item) bool {
	if want == nil {
		return empty(got)
	}
	return got != nil && wire.Equal(got, want)
}

// read compares every route to the values.
func (w *valWorld) read(op string) {
	x := w.x
	bad := func(route string, got, want *wire.Item) {
		if !sameValue(got, want) {
			x.Failf("value", "after%s: %s shows %v, the value is %v", w.hist, route, got, want)
		}
	}
	list := func(it *wire.Item, n int) []*wire.Item {
		if it == nil || it.F != wire.FL || len(it.L) != n {
			x.Failf("shape", "after%s: %v is not a list of %d", w.hist, it, n)
		}
		return it.L
	}
	s, d, e := w.s.shows(), w.d.shows(), w.e.shows()
	for i, it := range list(w.ask(1, 3, wire.L(u4(1), u4(1))), 2) {
		bad(fmt.Sprintf("S1F4 %d", i), it, s)
	}
	bad("S1F4 of all", list(w.ask(1, 3, wire.L()), 1)[0], s)
	bad("S2F14", list(w.ask(2, 13, wire.L(u4(3))), 1)[0], e)
	bad("S2F14 of all", list(w.ask(2, 13, wire.L()), 1)[0], e)
	report := func(what string, it *wire.Item) {
		r := list(list(list(it, 3)[2], 1)[0], 2)
		v := list(r[1], 3)
		bad(what+" data variable", v[0], d)
		bad(what+" status variable", v[1], s)
		bad(what+" data variable again", v[2], d)
	}
	report("S6F16", w.ask(6, 15, u4(1)))
	if err := w.g.TriggerCollectionEvent(1); err != nil {
		x.Failf("trigger", "%v", err)
	}
	w.settle()
	o := w.take()
	if len(o) != 1 || o[0].S() != 6 || o[0].F() != 11 {
		x.Failf("trigger", "after%s: the event sent %s", w.hist, frames(o))
	}
	report("S6F11", o[0].Item)
	if o[0].W() {
		w.reply(o[0], wire.B(0))
		w.settle()
	}
	// the application's own view
	for _, v := range []struct {
		n string
		f func() (ast.ItemNode, error)
		s *src
	}{{"status", w.sv.Value, &w.s}, {"data", w.dv.Value, &w.d}, {"constant", w.ec.Value, &w.e}} {
		got, err := v.f()
		want := v.s.shows()
		switch {
		case v.s.prov == "err" || v.s.prov == "" && !v.s.has:
			if err == nil {
				x.Failf("value", "after%s: Value of the %s gives %v, no error", w.hist, v.n, got)
			}
		case v.s.prov == "nil":
			if got != nil || err != nil {
				x.Failf("value", "after%s: Value of the %s gives %v, %v", w.hist, v.n, got, err)
			}
		default:
			if err != nil || value(got) != want.String() {
				x.Failf("value", "after%s: Value of the %s gives %v, %v, want %v", w.hist, v.n, got, err, want)
			}
		}
	}
	w.all = w.all[:0]
	x.State(op, fmt.Sprint(s, d, e))
}

func runValues(x *X, static, prov, upd, check bool, ops []string) {
	w := newValWorld(x, static, prov, upd, check)
	w.read("start")
	for i, op := range ops {
		w.hist += " " + op
		f := strings.Fields(op)
		it := []*wire.Item{wire.A("a"), wire.U(2, uint64(10+i)), wire.L(wire.A("x"), wire.L()), wire.L()}[i%4]
		set := func(s *src, v valueSetter, prov func(func() (ast.ItemNode, error))) {
			switch f[1] {
			case "set":
				s.has, s.val = true, it
				v.SetValue(node(it))
			case "clear":
				s.has, s.val = false, nil
				v.SetValue(nil)
			case "noprov":
				s.prov = ""
				prov(nil)
			default:
				s.prov, s.pv = f[1], it
				prov(provide(f[1], it))
			}
		}
		switch f[0] {
		case "sv":
			set(&w.s, w.sv, func(p func() (ast.ItemNode, error)) { w.sv.SetValueProvider(p) })
		case "dv":
			set(&w.d, w.dv, func(p func() (ast.ItemNode, error)) { w.dv.SetValueProvider(p) })
		case "ec", "ecbad", "apply":
			it = wire.U(2, uint64(20+i))
			ok := true
			if f[0] == "ecbad" {
				it = wire.A("bad")
				ok = !check
			}
			n := w.calls
			if f[0] == "apply" {
				if err := w.ec.ApplyValue(nil); err == nil || w.calls != n {
					x.Failf("apply", "ApplyValue(nil): %v", err)
				}
				if err := w.ec.ApplyValue(node(it)); err != nil {
					x.Failf("apply", "ApplyValue: %v", err)
				}
			} else if a := w.ask(2, 15, wire.L(wire.L(u4(3), it))); a == nil || a.F != wire.FB || len(a.Data) != 1 || (a.Data[0] == 0) != ok {
				x.Failf("update", "after%s: S2F15 answered %v", w.hist, a)
			}
			want := n
			if ok && upd {
				want++
			}
			if w.calls != want {
				x.Failf("updater", "after%s: the updater was called %d times", w.hist, w.calls-n)
			}
			if ok && w.e.prov == "" {
				w.e.val = it
			}
		}
		w.read(op)
	}
	x.Eval(fmt.Sprint(static, prov, upd, check, ops), true)
}

// runValuesRace has changes race with reads: each entry of an answer is a
// value the variable had, and later entries of one variable are not older.
func runValuesRace(x *X, ops []string) {
	w := newValWorld(x, true, false, false, false)
	n := 0
	hist := map[string][]string{"sv": {w.s.val.String()}, "dv": {w.s.val.String()}, "ec": {w.e.val.String()}}
	vrt.Explore(true)
	done, m := 0, 0
	for _, op := range ops {
		op := op
		f := strings.Fields(op)
		n++
		it := wire.U(2, uint64(50+n))
		switch f[0] {
		case "sv", "dv":
			m++
			hist[f[0]] = append(hist[f[0]], it.String())
			v := valueSetter(w.sv)
			if f[0] == "dv" {
				v = w.dv
			}
			prov := f[1] == "v"
			vrt.GoApp(op, func() {
				if prov && f[0] == "sv" {
					w.sv.SetValueProvider(provide("v", it))
				} else if prov {
					w.dv.SetValueProvider(provide("v", it))
				} else {
					v.SetValue(node(it))
				}
				done++
			})
		case "apply":
			m++
			hist["ec"] = append(hist["ec"], it.String())
			vrt.GoApp(op, func() {
				if err := w.ec.ApplyValue(node(it)); err != nil {
					x.Failf("apply", "%v", err)
				}
				done++
			})
		case "read":
			w.data(1, 3, true, wire.L(u4(1), u4(1), u4(1)))
		case "readec":
			w.data(2, 13, true, wire.L(u4(3), u4(3)))
		case "report":
			w.data(6, 15, true, u4(1))
		case "update":
			hist["ec"] = append(hist["ec"], it.String())
			w.data(2, 15, true, wire.L(wire.L(u4(3), it)))
		}
	}
	w.settle()
	vrt.Explore(false)
	if done != m {
		x.Failf("stuck", "%v: %v", ops, vrt.Live())
	}
	at := map[string]int{}
	see := func(v string, it *wire.Item) {
		for i := at[v]; i < len(hist[v]); i++ {
			if it.String() == hist[v][i] {
				if len(hist[v]) == 2 { // the order of more is not known
					at[v] = i
				}
				return
			}
		}
		x.Failf("value", "%v: %s shows %v, it had %v", ops, v, it, hist[v][at[v]:])
	}
	k := 0
	for _, f := range w.take() {
		k++
		switch {
		case f.S() == 1 && f.F() == 4 && len(f.Item.L) == 3:
			for _, it := range f.Item.L {
				see("sv", it)
			}
		case f.S() == 2 && f.F() == 14 && len(f.Item.L) == 2:
			for _, it := range f.Item.L {
				see("ec", it)
			}
		case f.S() == 2 && f.F() == 16 && wire.Equal(f.Item, wire.B(0)):
		case f.S() == 6 && f.F() == 16:
			v := f.Item.L[2].L[0].L[1].L
			see("dv", v[0])
			see("sv", v[1])
			see("dv", v[2])
		default:
			x.Failf("reply", "%v: %v", ops, f)
		}
	}
	if k != len(ops)-m {
		x.Failf("reply", "%v: %d answers", ops, k)
	}
	// at rest the last one is seen
	for v, s := range map[string]func() (ast.ItemNode, error){"sv": w.sv.Value, "dv": w.dv.Value, "ec": w.ec.Value} {
		n, err := s()
		if err != nil {
			x.Failf("value", "%v: %v", ops, err)
		}
		if h := hist[v]; len(h) == 2 && value(n) != h[1] || value(n) == h[0] && len(h) > 1 {
			x.Failf("value", "%v: %s is %v at rest, it had %v", ops, v, value(n), h)
		}
	}
	x.Outcome("%v %v", ops, at)
}

func c40(c *C) {
	var ops []string
	for _, v := range []string{"sv", "dv"} {
		for _, k := range []string{"set", "clear", "v", "nil", "err", "noprov"} {
			ops = append(ops, v+" "+k)
		}
	}
	ops = append(ops, "ec", "ecbad", "apply")
	for i := 0; i < 16; i++ {
		static, prov, upd, check := i&1 > 0, i&2 > 0, i&4 > 0, i&8 > 0
		for n := 1; n <= c.Q(3, 4); n++ {
			seqsOf(ops, n, func(l []string) {
				if (i&4 > 0 || i&8 > 0) && !strings.Contains(strings.Join(l, " "), "ec") {
					return
				}
				c.Case(fmt.Sprintf("static=%v provider=%v updater=%v validator=%v %v", static, prov, upd, check, l), Opt{}, func(x *X) { runValues(x, static, prov, upd, check, l) })
			})
		}
	}
	for _, r := range [][]string{{"sv set", "read"}, {"sv v", "read"}, {"dv set", "report"}, {"dv v", "sv set", "report"}, {"apply", "readec"}, {"update", "apply", "readec"},
		{"sv set", "sv set", "read"}, {"sv set", "read", "report"}, {"dv v", "dv set", "report"}, {"read", "sv v", "readec", "apply"}} {
		r := r
		c.Case(fmt.Sprintf("race %v", r), Opt{Dev: c.Q(2, 3), Split: true}, func(x *X) { runValuesRace(x, r) })
	}
}
