package h

import (
	"errors"
	"fmt"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C20", Level: "model_checking", Budget: [2]int{240, 850},
		Rule: "every request list over known, unknown and malformed ids to the length bound for S1F3, S1F11, S2F13 and S2F29, for each set of registered variables and constants, against a reference answer; the same through the host-side calls; long lists of ids; texts of the lengths around field limits that differ in their last character",
		Run:  c20})
}

// one is a variable or constant of the reference model.
type one struct {
	id     interface{} // as registered
	idItem func() *wire.Item
	name   string
	unit   string
	val    *wire.Item // nil: no value
	min    *wire.Item
	max    *wire.Item
	how    string // value, provider, error
}

func sameID(a, b *wire.Item) bool {
	return a != nil && b != nil && idKey(a) != "" && idKey(a) == idKey(b)
}

// idKey is the identity of an id item: its text or its number.
func idKey(it *wire.Item) string {
	switch it.F {
	case wire.FA:
		return "S:" + string(it.Data)
	case wire.FU1, wire.FU2, wire.FU4, wire.FU8:
		if v := it.Uints(); len(v) == 1 {
			return fmt.Sprintf("N:%d", v[0])
		}
	case wire.FI1, wire.FI2, wire.FI4, wire.FI8:
		if v := it.Ints(); len(v) == 1 && v[0] >= 0 {
			return fmt.Sprintf("N:%d", v[0])
		}
	}
	return ""
}

func rawKey(id interface{}) string {
	if s, ok := id.(string); ok {
		return "S:" + s
	}
	return fmt.Sprintf("N:%d", id)
}

var statusSet = []one{
	{id: 10, name: "Temp", unit: "C", val: wire.Fl(4, 1.5), how: "value"},
	{id: uint32(70000), name: "Long", unit: "", val: wire.L(wire.U(1, 1), wire.L(), wire.A("x")), how: "provider"},
	{id: "v", name: "", unit: "mm", val: wire.A(""), how: "value"},
	{id: int64(0), name: "Zero", unit: "u", val: wire.L(), how: "provider"},
	{id: uint8(13), name: "Novalue", unit: "s", how: "value"},
	{id: uint16(14), name: "Fails", unit: "s", how: "error"},
}

var constSet = []one{
	{id: 20, name: "Limit", unit: "mm", val: wire.U(4, 5), min: wire.U(4, 0), max: wire.U(4, 9), how: "value"},
	{id: "ec", name: "Name", unit: "", val: wire.A("abc"), how: "value"},
	{id: uint64(21), name: "Prov", unit: "x", val: wire.I(2, -3), min: wire.I(2, -9), how: "provider"},
	{id: 22, name: "Bin", unit: "x", val: wire.B(1, 2), max: wire.B(9), how: "value"},
	{id: 23, name: "Fails", unit: "x", val: wire.B(7), how: "error"},
}

func (w *gw) addStatus(o one) {
	var opts []gem.StatusVariableOption
	switch {
	case o.how == "error":
		opts = append(opts, gem.WithStatusValueProvider(func() (ast.ItemNode, error) { return nil, errors.New("sensor") }))
	case o.how == "provider":
		opts = append(opts, gem.WithStatusValueProvider(func() (ast.ItemNode, error) { return node(o.val), nil }))
	case o.val != nil:
		opts = append(opts, gem.WithStatusValue(node(o.val)))
	}
	v, err := gem.NewStatusVariable(o.id, o.name, o.unit, opts...)
	if err == nil {
		err = w.g.RegisterStatusVariable(v)
	}
	if err != nil {
		w.x.Failf("register", "status variable %v: %v", o.id, err)
	}
}

func (w *gw) addConst(o one) {
	opts := []gem.EquipmentConstantOption{gem.WithEquipmentConstantUnit(o.unit)}
	if o.min != nil {
		opts = append(opts, gem.WithEquipmentConstantMin(node(o.min)))
	}
	if o.max != nil {
		opts = append(opts, gem.WithEquipmentConstantMax(node(o.max)))
	}
	switch o.how {
	case "error":
		opts = append(opts, gem.WithEquipmentConstantValueProvider(func() (ast.ItemNode, error) { return nil, errors.New("sensor") }))
	case "provider":
		opts = append(opts, gem.WithEquipmentConstantValueProvider(func() (ast.ItemNode, error) { return node(o.val), nil }))
	}
	v, err := gem.NewEquipmentConstant(o.id, o.name, node(o.val), opts...)
	if err == nil {
		err = w.g.RegisterEquipmentConstant(v)
	}
	if err != nil {
		w.x.Failf("register", "constant %v: %v", o.id, err)
	}
}

// current value as it must show
func (o one) shows() *wire.Item {
	if o.val == nil || o.how == "error" {
		return wire.L()
	}
	return o.val
}

func orEmpty(it *wire.Item) *wire.Item {
	if it == nil {
		return wire.L()
	}
	return it
}

// empty reports whether an item carries no data.
func empty(it *wire.Item) bool { return it == nil || len(it.L) == 0 && len(it.Data) == 0 }

// ids as they may be requested; "" in what: unknown or malformed
var askIDs = []*wire.Item{
	wire.U(4, 10), wire.U(1, 10), wire.I(2, 10), wire.U(4, 70000), wire.A("v"), wire.U(2, 0), wire.U(1, 13), wire.U(8, 14),
	wire.U(4, 20), wire.I(8, 20), wire.A("ec"), wire.U(2, 21), wire.U(1, 22), wire.I(1, 23),
	wire.U(4, 99), wire.A("nope"), wire.A("10"), wire.A(""), wire.I(1, -1), wire.U(8, 1<<40), wire.L(), wire.L(wire.U(1, 10)), wire.B(10), wire.Bool(true), wire.Fl(4, 10), wire.U(4),
}

// checkQuery compares one answer with the reference.
func checkQuery(x *X, s, f int, set []one, req []*wire.Item, all bool, got *wire.Item) {
	if got == nil || got.F != wire.FL {
		x.Failf("shape", "S%dF%d: answer %v is not a list", s, f, got)
	}
	var want []*one
	var ids []*wire.Item
	if all {
		for i := range set {
			want = append(want, &set[i])
			ids = append(ids, nil)
		}
	}
	for _, r := range req {
		var o *one
		for i := range set {
			if idKey(r) == rawKey(set[i].id) {
				o = &set[i]
			}
		}
		want = append(want, o)
		ids = append(ids, r)
	}
	if len(got.L) != len(want) {
		x.Failf("count", "S%dF%d for %v answered with %d entries, want %d: %v", s, f, req, len(got.L), len(want), got)
	}
	for i, o := range want {
		e := got.L[i]
		bad := func(what string) {
			x.Failf("entry", "S%dF%d for %v: entry %d is %v: %s", s, f, req, i, e, what)
		}
		if f == 3 || f == 13 {
			if o == nil {
				if !empty(e) {
					bad("the id is unknown")
				}
			} else if !wire.Equal(e, o.shows()) && !(empty(o.shows()) && (o.val == nil || o.how == "error") && empty(e)) {
				bad(fmt.Sprintf("the value is %v", o.shows()))
			}
			continue
		}
		n := 3
		if f == 29 {
			n = 6
		}
		if e.F != wire.FL || len(e.L) != n {
			bad("malformed")
		}
		if o == nil {
			if idKey(ids[i]) != "" && !sameID(e.L[0], ids[i]) {
				bad("the id is not echoed")
			}
			for _, v := range e.L[1:] {
				if !empty(v) {
					bad("the id is unknown")
				}
			}
			continue
		}
		if idKey(e.L[0]) != rawKey(o.id) {
			bad("wrong id")
		}
		if f == 11 {
			if !wire.Equal(e.L[1], wire.A(o.name)) || !wire.Equal(e.L[2], wire.A(o.unit)) {
				bad("name or unit")
			}
		} else {
			lim := func(got, want *wire.Item) bool {
				return want == nil && empty(got) || want != nil && wire.Equal(got, want)
			}
			if !wire.Equal(e.L[1], wire.A(o.name)) || !lim(e.L[2], o.min) || !lim(e.L[3], o.max) || !wire.Equal(e.L[4], o.val) || !wire.Equal(e.L[5], wire.A(o.unit)) {
				bad("name, limits, default or unit")
			}
		}
	}
}

var queries = [][2]int{{1, 3}, {1, 11}, {2, 13}, {2, 29}}

func runQueries(x *X, set []one, cset []one, sf [2]int, reqs [][]*wire.Item) {
	w := newGW(x, gcfgDefault)
	for _, o := range set {
		w.addStatus(o)
	}
	for _, o := range cset {
		w.addConst(o)
	}
	w.toComm()
	s := set
	if sf[0] == 2 {
		s = cset
	}
	for _, r := range reqs {
		id := fmt.Sprintf("S%dF%d %v", sf[0], sf[1], r)
		x.Eval(id, true)
		got := w.ask(sf[0], sf[1], wire.L(r...))
		checkQuery(x, sf[0], sf[1], s, r, len(r) == 0, got)
		x.State(id, got.String())
	}
}

// runHostQueries does the same through the host's calls.
func runHostQueries(x *X, set, cset []one, sf [2]int, ids []interface{}, noValues bool) {
	p := newPair(x)
	for _, o := range set {
		p.e.addStatus(o)
	}
	for _, o := range cset {
		p.e.addConst(o)
	}
	p.up()
	find := func(s []one, id interface{}) *one {
		for i := range s {
			if rawKey(s[i].id) == rawKey(id) {
				return &s[i]
			}
		}
		return nil
	}
	var err error
	eqv := func(n ast.ItemNode, o *one, val *wire.Item) bool {
		it, e := fromNode(n)
		if e != nil {
			it = wire.L()
		}
		if o == nil || val == nil {
			return empty(it)
		}
		return wire.Equal(it, val)
	}
	x.Eval(fmt.Sprintf("S%dF%d %v", sf[0], sf[1], ids), true)
	fail := func(i int, got interface{}) {
		x.Failf("host", "host call for S%dF%d %v: entry %d is %v", sf[0], sf[1], ids, i, got)
	}
	list := func(s []one) []interface{} {
		if len(ids) > 0 {
			return ids
		}
		var r []interface{}
		for _, o := range s {
			r = append(r, o.id)
		}
		return r
	}
	count := func(n, want int) {
		if err != nil || n != want {
			x.Failf("host", "host call for S%dF%d %v: %d entries, want %d, error %v", sf[0], sf[1], ids, n, want, err)
		}
	}
	val := func(o *one) *wire.Item {
		if o == nil {
			return nil
		}
		return o.shows()
	}
	switch sf {
	case [2]int{1, 3}:
		var r []gem.StatusValue
		p.call("RequestStatusVariables", func() { r, err = p.h.g.RequestStatusVariables(ids...) })
		if len(ids) == 0 {
			if err == nil {
				x.Failf("host", "RequestStatusVariables() without ids returned %v", r)
			}
			return
		}
		count(len(r), len(ids))
		for i, id := range ids {
			o := find(set, id)
			if rawKey(r[i].ID) != rawKey(id) || !eqv(r[i].Value, o, val(o)) {
				fail(i, r[i])
			}
		}
	case [2]int{2, 13}:
		var r []gem.EquipmentConstantValue
		p.call("RequestEquipmentConstants", func() { r, err = p.h.g.RequestEquipmentConstants(ids...) })
		if len(ids) == 0 {
			if err == nil {
				x.Failf("host", "RequestEquipmentConstants() without ids returned %v", r)
			}
			return
		}
		count(len(r), len(ids))
		for i, id := range ids {
			o := find(cset, id)
			if rawKey(r[i].ID) != rawKey(id) || !eqv(r[i].Value, o, val(o)) {
				fail(i, r[i])
			}
		}
	case [2]int{1, 11}:
		var r []gem.StatusVariableInfo
		p.call("RequestStatusVariableInfo", func() { r, err = p.h.g.RequestStatusVariableInfo(ids...) })
		l := list(set)
		count(len(r), len(l))
		for i, id := range l {
			o := find(set, id)
			if o == nil {
				o = &one{}
			}
			if rawKey(r[i].ID) != rawKey(id) || r[i].Name != o.name || r[i].Unit != o.unit {
				fail(i, r[i])
			}
		}
	case [2]int{2, 29}:
		var r []gem.EquipmentConstantInfo
		p.call("RequestEquipmentConstantInfo", func() { r, err = p.h.g.RequestEquipmentConstantInfo(ids...) })
		l := list(cset)
		count(len(r), len(l))
		for i, id := range l {
			o := find(cset, id)
			n := one{}
			if o != nil {
				n = *o
			}
			if rawKey(r[i].ID) != rawKey(id) || r[i].Name != n.name || r[i].Unit != n.unit || !eqv(r[i].Min, o, n.min) || !eqv(r[i].Max, o, n.max) || !eqv(r[i].Default, o, n.val) {
				fail(i, r[i])
			}
		}
	}
	if s := p.since(); len(p.e.s9)+len(p.h.s9) > 0 {
		x.Failf("s9", "stream 9 messages %v %v in\n%s", p.e.s9, p.h.s9, s)
	}
}

func c20(c *C) {
	for _, sf := range queries {
		longAs(c, fmt.Sprintf("long S%dF%d", sf[0], sf[1]), longQueries(sf))
		texts(c, fmt.Sprintf("texts S%dF%d", sf[0], sf[1]), textQueries(sf))
		texts(c, fmt.Sprintf("host texts S%dF%d", sf[0], sf[1]), textHostQueries(sf))
	}
	o := Opt{MaxSteps: 1 << 25}
	per := 40
	for _, sf := range queries {
		sf := sf
		for k := 0; k <= len(statusSet); k += 2 {
			set, cset := statusSet[:k], constSet[:min(k, len(constSet))]
			n, part := 0, [][]*wire.Item(nil)
			flush := func() {
				if len(part) == 0 {
					return
				}
				n++
				reqs := part
				part = nil
				c.Case(fmt.Sprintf("S%dF%d, %d registered, batch %d", sf[0], sf[1], k, n), o, func(x *X) { runQueries(x, set, cset, sf, reqs) })
			}
			depth := c.Q(2, 3)
			if k == len(statusSet) {
				depth = c.Q(3, 4)
			}
			for d := 0; d <= depth; d++ {
				seqs(len(askIDs), d, func(ix []int) {
					var r []*wire.Item
					for _, i := range ix {
						r = append(r, askIDs[i])
					}
					part = append(part, r)
					if len(part) == per {
						flush()
					}
				})
				flush()
			}
		}
	}
	hostIDs := []interface{}{10, uint32(70000), "v", 13, 20, "ec", uint64(21), 22, 99, "nope"}
	for _, sf := range queries {
		sf := sf
		for _, k := range []int{0, 3, 6} {
			set, cset := statusSet[:k], constSet[:min(k, len(constSet))]
			for d := 0; d <= c.Q(2, 3); d++ {
				seqs(len(hostIDs), d, func(ix []int) {
					var ids []interface{}
					for _, i := range ix {
						ids = append(ids, hostIDs[i])
					}
					c.Case(fmt.Sprintf("host S%dF%d %v, %d registered", sf[0], sf[1], ids, k), Opt{MaxSteps: 1 << 22}, func(x *X) { runHostQueries(x, set, cset, sf, ids, false) })
				})
			}
		}
	}
}
