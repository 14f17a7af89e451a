package h

import (
	"errors"
	"fmt"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/wire"
)

// Lists much longer than those the other cases enumerate: the lengths around
// the limits of item widths and length bytes, in a few fixed orders, with the
// odd one out at the first, the last and some places in between.

func longSizes(c *C) []int {
	s := []int{4, 5, 6, 8, 10, 16, 17, 33, 64, 100, 128, 255, 256, 257}
	if c.Thorough {
		s = append(s, 3, 7, 9, 12, 15, 32, 65, 127, 129, 254, 300, 512, 1000)
	}
	return s
}

// orders are some permutations of 0..n-1.
func orders(n int) [][]int {
	step := 7 // of the mixed order: coprime to n
	for gcd(step, n) != 1 {
		step += 2
	}
	up, down, mixed, rot := make([]int, n), make([]int, n), make([]int, n), make([]int, n)
	for i := range up {
		up[i], down[i], mixed[i], rot[i] = i, n-1-i, (3+i*step)%n, (i+n/2)%n
	}
	return [][]int{up, down, mixed, rot}
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// places are some of the positions in a list of n.
func places(n int) []int {
	if n <= 10 {
		return orders(n)[0]
	}
	return []int{0, 1, 2, 3, n / 2, n - 3, n - 2, n - 1}
}

// longID is the i-th id, of different widths and kinds.
func longID(i int) *wire.Item {
	switch i % 5 {
	case 0:
		return u4(uint64(1000 + i))
	case 1:
		return u2(uint64(2000 + i))
	case 2:
		return wire.A(fmt.Sprintf("id%d", i))
	case 3:
		return wire.I(4, int64(3000+i))
	}
	return wire.U(8, uint64(1<<33+i))
}

func longVal(i int) *wire.Item {
	switch i % 4 {
	case 0:
		return u4(uint64(i))
	case 1:
		return wire.A(fmt.Sprintf("v%d", i))
	case 2:
		return wire.L(u1(uint64(i%256)), wire.L())
	}
	return wire.B(byte(i), byte(i>>8))
}

// C20: long lists of variables and of requests.
func longQueries(sf [2]int) func(x *X, n int) {
	return func(x *X, n int) {
		var set []one
		for _, i := range orders(n)[2] {
			set = append(set, one{id: rawID(asU(longID(i))), name: fmt.Sprintf("n%d", i), unit: fmt.Sprintf("u%d", i), val: longVal(i), how: []string{"value", "provider"}[i/3%2]})
		}
		w := newGW(x, gcfgDefault)
		for _, o := range set {
			if sf[0] == 1 {
				w.addStatus(o)
			} else {
				w.addConst(o)
			}
		}
		w.toComm()
		ask := func(r []*wire.Item) {
			x.Eval(fmt.Sprintf("S%dF%d %d %v", sf[0], sf[1], n, r), true)
			checkQuery(x, sf[0], sf[1], set, r, len(r) == 0, w.ask(sf[0], sf[1], wire.L(r...)))
		}
		ask(nil)
		for _, o := range orders(n) {
			var r []*wire.Item
			for _, i := range o {
				r = append(r, longID(i))
			}
			ask(r)
			for _, k := range places(n) {
				for _, other := range []*wire.Item{wire.A("nope"), u4(99), wire.L(), wire.I(1, -1), longID(k)} {
					q := append([]*wire.Item(nil), r...)
					q[k] = other
					ask(q)
				}
			}
			if n > 64 {
				break
			}
		}
	}
}

// C21: long lists of updates, with the refused one at different places.
func longUpdates(x *X, n int) {
	w := newGW(x, gcfgDefault)
	ord := orders(n)
	vals := map[int]*wire.Item{}
	for _, i := range ord[2] {
		vals[i] = longVal(i)
		opts := []gem.EquipmentConstantOption{gem.WithEquipmentConstantValidator(func(v ast.ItemNode) error {
			if v.Type() == "boolean" {
				return errors.New("refused")
			}
			return nil
		})}
		if i%3 == 1 {
			own := node(vals[i])
			opts = append(opts, gem.WithEquipmentConstantValueProvider(func() (ast.ItemNode, error) { return own, nil }),
				gem.WithEquipmentConstantValueUpdater(func(v ast.ItemNode) error { own = v; return nil }))
		}
		k, err := gem.NewEquipmentConstant(rawID(asU(longID(i))), "c", node(vals[i]), opts...)
		if err == nil {
			err = w.g.RegisterEquipmentConstant(k)
		}
		if err != nil {
			x.Failf("register", "%v", err)
		}
	}
	w.toComm()
	check := func(what string) {
		got := w.ask(2, 13, wire.L())
		if got == nil || len(got.L) != n {
			x.Failf("read", "%s: S2F13 answered with %d entries, want %d", what, len(got.L), n)
		}
		for j, i := range ord[2] {
			if !wire.Equal(got.L[j], vals[i]) {
				x.Failf("value", "%s: constant %v is %v, want %v", what, longID(i), got.L[j], vals[i])
			}
		}
	}
	round := 0
	send := func(o []int, at int, other *wire.Item) {
		round++
		l := wire.L()
		for j, i := range o {
			it := wire.L(longID(i), longVal(i+round))
			if j == at {
				it = other
			}
			l.L = append(l.L, it)
		}
		ack := ackOf(w.ask(2, 15, l))
		what := fmt.Sprintf("S2F15 with %d updates, %v at %d", n, other, at)
		if ack < 0 || (ack == 0) != (other == nil) {
			x.Failf("ack", "%s: answered %d", what, ack)
		}
		if other == nil {
			for _, i := range o {
				vals[i] = longVal(i + round)
			}
		}
		check(what)
		x.Eval(fmt.Sprint(l), true)
	}
	for _, o := range ord {
		send(o, -1, nil)
		for _, k := range places(n) {
			send(o, k, wire.L(longID(o[k]), wire.Bool(true)))
			send(o, k, wire.L(u4(99), u4(1)))
			send(o, k, wire.L(longID(o[k])))
		}
		if n > 64 {
			break
		}
	}
	// the last of several updates of one constant counts
	l := wire.L()
	for j := 0; j < n; j++ {
		l.L = append(l.L, wire.L(longID(0), u4(uint64(j))))
	}
	if ack := ackOf(w.ask(2, 15, l)); ack != 0 {
		x.Failf("ack", "S2F15 with %d updates of one constant answered %d", n, ack)
	}
	vals[0] = u4(uint64(n - 1))
	check("updates of one constant")
}

// C22: many alarms and long S5F3 lists.
func longAlarms(x *X, n int) {
	w := &aw{gw: newGW(x, gcfgDefault), m: almModel{}}
	id := func(i int) int { return 1 + i*37 + i%3*1000000 }
	ord := orders(n)
	for _, i := range ord[2] {
		w.register(id(i), fmt.Sprintf("alarm %d", i))
	}
	w.toComm()
	for _, i := range places(n) {
		w.raise(id(i), true)
	}
	w.lists("raising")
	for _, o := range ord {
		for _, aled := range []byte{0, 0x80} {
			send := func(at int, other *wire.Item) {
				var ids []*wire.Item
				for j, i := range o {
					it := u4(uint64(id(i)))
					if j == at {
						it = other
					}
					ids = append(ids, it)
				}
				it := wire.L(wire.B(aled), wire.L(ids...))
				x.Eval(it.String(), true)
				w.s5f3(aled, it, ids, true)
				w.lists(fmt.Sprintf("S5F3 %d with %d alarms, %v at %d", aled, n, other, at))
			}
			for _, k := range places(n) {
				send(k, u4(99999999))
				send(k, wire.A("x"))
			}
			send(-1, nil)
			send(n/2, u4(uint64(id(o[0])))) // twice
		}
		if n > 64 {
			break
		}
	}
}

// C22: ALED in every value whose bit 8 says disable.
func alarmALED(x *X) {
	w := newAW(x)
	w.toComm()
	for a := 0; a < 128; a++ {
		on := wire.L(wire.B(0x80), wire.L(u4(1)))
		w.s5f3(0x80, on, on.L[1].L, true)
		it := wire.L(wire.B(byte(a)), wire.L(u4(1)))
		if ack := ackOf(w.ask(5, 3, it)); ack == 0 {
			s := w.m[1]
			s.enabled = false
			w.m[1] = s
		}
		w.lists(it.String())
		x.Eval(it.String(), true)
	}
}

// C23: long parameter lists and long lists of parameter codes.
func longCommand(x *X, n int) {
	w := newCW(x)
	w.toComm()
	var es []cmdEntry
	var want string
	w.res = gem.RemoteCommandResult{HCACK: 3}
	for i := 0; i < n; i++ {
		es = append(es, cmdp(longID(i), longVal(i)))
		w.res.ParameterAcks = append(w.res.ParameterAcks, gem.RemoteCommandParameterAck{Name: rawID(asU(longID(i))), Ack: gem.CPACKCode(i%63 + 1)})
		want += fmt.Sprintf(" %s=%d", idKey(longID(i)), i%63+1)
	}
	send := func(es []cmdEntry, at int) {
		var l []*wire.Item
		for _, e := range es {
			l = append(l, e.it)
		}
		w.reqs = nil
		hc, pa := w.answer("long", w.ask(2, 41, wire.L(wire.A("GO"), wire.L(l...))))
		if at >= 0 {
			if hc == 0 || len(w.reqs) > 0 || pa != "" {
				x.Failf("malformed", "S2F41 with %d parameters, %v at %d: answered %d %s, handler called %d times", n, es[at].it, at, hc, pa, len(w.reqs))
			}
		} else if hc != 3 || " "+pa != want || len(w.reqs) != 1 || showReq(w.reqs[0]) != showCmd(wire.A("GO"), es) {
			x.Failf("request", "S2F41 with %d parameters: answered %d %s, handler called with %s", n, hc, pa, showReqs(w.reqs))
		}
		x.Eval(fmt.Sprint(n, at), true)
	}
	send(es, -1)
	for _, k := range places(n) {
		for _, bad := range cmdEntries {
			if bad.bad {
				e := append([]cmdEntry(nil), es...)
				e[k] = bad
				send(e, k)
			}
		}
	}
	send(es, -1)
}

// C18 and C19: long reports, many reports, many links.
func longReports(x *X, n int) {
	w := newRW(x)
	w.toComm()
	rid := func(i int) *wire.Item { return u4(uint64(500 + i)) }
	ord := orders(n)
	for round, o := range ord {
		var defs []rdef
		for _, i := range o {
			d := rdef{id: rid(i)}
			for j := 0; j <= (i+round)%4; j++ {
				d.list = append(d.list, rVars[(i/4+j)%3])
			}
			defs = append(defs, d)
		}
		for _, k := range places(n) {
			bad := append([]rdef(nil), defs...)
			bad[k] = rdef{bad[k].id, []*wire.Item{rVars[0], u4(99)}}
			w.msg(mk(33, bad...))
			bad[k] = rdef{rid(o[(k+1)%n]), rVars}
			w.msg(mk(33, bad...)) // one of them twice
		}
		w.msg(mk(33, defs...))
		w.msg(mk(33, rdef{rid(n), longVIDs(n)})) // one long report
		for e, ev := range rEvents {
			var ids []*wire.Item
			for _, i := range ord[(round+e)%4] {
				ids = append(ids, rid(i))
			}
			for _, k := range places(n) {
				bad := append([]*wire.Item(nil), ids...)
				bad[k] = u4(77)
				w.msg(mk(35, rdef{ev, bad}))
			}
			w.msg(mk(35, rdef{ev, ids}))
			w.msg(mk(35, rdef{ev, []*wire.Item{rid(n)}}))
			w.msg(mk(35, rdef{ev, []*wire.Item{rid(o[n/2])}})) // linked already
		}
		w.observe()
		w.msg(mk(33, rdef{id: rid(o[n/2])}, rdef{id: rid(o[n-1])}))
		w.observe()
		w.set(rVars[1], longVal(n))
		w.observe()
		w.msg(mk(33))
		w.observe()
		x.Eval(fmt.Sprint(n, round), true)
		if n > 64 {
			break
		}
	}
}

func longVIDs(n int) []*wire.Item {
	var l []*wire.Item
	for i := 0; i < n; i++ {
		l = append(l, rVars[i*i%3])
	}
	return l
}

// C24: many programs.
func longPrograms(x *X, n int) {
	w := newPW(x)
	w.toComm()
	for round := 0; round < 2; round++ {
		for _, i := range orders(n)[2-round] {
			body := wire.A(fmt.Sprintf("body %d of %d", i, round))
			if i%2 == round {
				body = wire.B(byte(i), byte(i>>8), 0xFF)
			}
			w.upload(wire.L(longID(i), body), i%3 == 0, 0)
			if i%7 == 0 {
				w.upload(wire.L(longID(i), wire.A("refused")), true, 1+i%5)
			}
		}
		for i := 0; i < n+3; i++ {
			w.fetch(longID(i), longID(i))
		}
		w.stored()
		x.Eval(fmt.Sprint(n, round), true)
	}
}

func long(c *C, f func(x *X, n int)) { longAs(c, "long", f) }

func longAs(c *C, name string, f func(x *X, n int)) {
	for _, n := range longSizes(c) {
		n := n
		c.Case(fmt.Sprintf("%s %d", name, n), Opt{MaxSteps: 1 << 26}, func(x *X) { f(x, n) })
	}
}
