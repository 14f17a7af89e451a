package h

import (
	"errors"
	"fmt"
	"strings"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C21", Level: "model_checking", Budget: [2]int{200, 850},
		Rule: "every S2F15 update list over valid, refused, unknown and malformed entries to the length bound and every sequence of such messages to the depth bound, the constants read back with S2F13 after each one and compared with a map; the same through the host-side calls; S2F15 racing with local reads under every schedule to the deviation bound; long lists of updates; texts of the lengths around field limits that differ in their last character",
		Run:  c21})
}

// ackOf returns the code of a one-byte acknowledge item, -1 if it is none.
func ackOf(it *wire.Item) int {
	if it != nil && it.F == wire.FB && len(it.Data) == 1 {
		return int(it.Data[0])
	}
	return -1
}

// ecModel is the reference: current values by id.
type ecModel map[string]*wire.Item

func (m ecModel) clone() ecModel {
	n := ecModel{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

var ecIDs = []*wire.Item{u4(20), wire.A("ec"), u4(21), u4(22), u4(23)}

func ecInit() ecModel {
	return ecModel{"N:20": u4(5), "S:ec": wire.A("abc"), "N:21": u2(1), "N:22": wire.B(9), "N:23": wire.I(2, -1)}
}

// ecOK is what the validators accept.
func ecOK(k string, v *wire.Item) bool {
	switch k {
	case "N:21":
		return wire.Width(v.F) > 0 && len(v.Uints()) == 1 && v.Uints()[0] <= 9 && v.F&0o70 == 0o50
	case "N:22":
		return v.F == wire.FB
	}
	return true
}

type ecEntry struct {
	it  *wire.Item
	id  *wire.Item // nil: malformed
	val *wire.Item
}

func ece(id, val *wire.Item) ecEntry { return ecEntry{wire.L(id, val), id, val} }

var ecEntries = []ecEntry{
	ece(u4(20), u4(7)),
	ece(u1(20), wire.L()),
	ece(wire.I(4, 20), wire.A("x")),
	ece(wire.A("ec"), wire.L(u1(1), wire.L(wire.A(""), wire.Bool(true)))),
	ece(wire.A("ec"), wire.A("")),
	ece(u4(21), u1(9)),
	ece(u2(21), u1(10)), // refused
	ece(u2(22), wire.B(1, 2)),
	ece(u2(22), wire.A("no")), // refused
	ece(u1(23), wire.Fl(8, 0.25)),
	ece(u4(99), u4(1)),       // unknown
	ece(wire.A("20"), u4(1)), // unknown
	{it: u4(20)}, {it: wire.L()}, {it: wire.L(u4(20))}, {it: wire.L(wire.L(), u1(1))}, {it: wire.L(wire.B(20), u1(1))}, {it: wire.L(wire.I(1, -1), u1(1))}, {it: wire.L(wire.U(4), u1(1))},
}

// apply: the values after an update list, nil if it must be refused.
func (m ecModel) apply(es []ecEntry) ecModel {
	n := m.clone()
	for _, e := range es {
		if e.id == nil {
			return nil
		}
		k := idKey(e.id)
		if _, ok := m[k]; !ok || !ecOK(k, e.val) {
			return nil
		}
		n[k] = e.val
	}
	return n
}

// ecSetup registers the constants.
func ecSetup(w *gw) {
	vals := ecInit()
	own := map[string]ast.ItemNode{}
	for _, id := range ecIDs {
		k := idKey(id)
		var opts []gem.EquipmentConstantOption
		check := gem.WithEquipmentConstantValidator(func(n ast.ItemNode) error {
			it, err := fromNode(n)
			if err != nil {
				return err
			}
			if !ecOK(k, it) {
				return errors.New("refused")
			}
			return nil
		})
		switch k {
		case "N:21":
			opts = append(opts, check)
		case "N:23": // told of the update; the value is the constant's own
			opts = append(opts, check,
				gem.WithEquipmentConstantValueUpdater(func(n ast.ItemNode) error { return nil }))
		case "N:22":
			own[k] = node(vals[k])
			opts = append(opts, check,
				gem.WithEquipmentConstantValueProvider(func() (ast.ItemNode, error) { return own[k], nil }),
				gem.WithEquipmentConstantValueUpdater(func(n ast.ItemNode) error { own[k] = n; return nil }))
		}
		c, err := gem.NewEquipmentConstant(rawID(id), "c", node(vals[k]), opts...)
		if err == nil {
			err = w.g.RegisterEquipmentConstant(c)
		}
		if err != nil {
			w.x.Failf("register", "constant %v: %v", id, err)
		}
	}
}

func (m ecModel) check(x *X, what string, got *wire.Item) {
	if got == nil || got.F != wire.FL || len(got.L) != len(ecIDs) {
		x.Failf("read", "%s: S2F13 answered with %v", what, got)
	}
	for i, id := range ecIDs {
		if want := m[idKey(id)]; !wire.Equal(got.L[i], want) {
			x.Failf("value", "%s: constant %v is %v, want %v", what, id, got.L[i], want)
		}
	}
}

func entriesItem(es []ecEntry) *wire.Item {
	l := wire.L()
	for _, e := range es {
		l.L = append(l.L, e.it)
	}
	return l
}

// update sends one S2F15 and follows the model.
func (m ecModel) update(w *gw, es []ecEntry, sep bool) ecModel {
	it := entriesItem(es)
	ack := ackOf(w.ask(2, 15, it))
	n := m.apply(es)
	if ack < 0 || (n != nil) != (ack == 0) {
		w.x.Failf("ack", "S2F15 %v answered %d, acceptable %v", it, ack, n != nil)
	}
	if n == nil {
		n = m
	}
	n.check(w.x, fmt.Sprintf("after S2F15 %v (%d)", it, ack), w.ask(2, 13, wire.L()))
	return n
}

func runUpdates(x *X, lists [][]ecEntry) {
	w := newGW(x, gcfgDefault)
	ecSetup(w)
	w.toComm()
	m := ecInit()
	for _, es := range lists {
		x.Eval(fmt.Sprint(entriesItem(es)), true)
		m = m.update(w, es, true)
	}
}

func runMalformedUpdates(x *X) {
	w := newGW(x, gcfgDefault)
	ecSetup(w)
	w.toComm()
	m := ecInit()
	for _, it := range []*wire.Item{nil, wire.A("x"), u4(20), wire.B(), wire.Bool(true), wire.L(u4(20), u4(7))} {
		ack := ackOf(w.ask(2, 15, it))
		if ack <= 0 {
			x.Failf("ack", "S2F15 %v answered %d", it, ack)
		}
		m.check(x, fmt.Sprintf("after S2F15 %v", it), w.ask(2, 13, wire.L()))
		x.Eval(fmt.Sprint(it), true)
	}
}

func runHostUpdates(x *X, lists [][]ecEntry) {
	p := newPair(x)
	ecSetup(p.e)
	p.up()
	m := ecInit()
	for _, es := range lists {
		var us []gem.EquipmentConstantUpdate
		for _, e := range es {
			us = append(us, gem.EquipmentConstantUpdate{ID: rawID(asU(e.id)), Value: node(e.val)})
		}
		var ack int
		var err error
		p.call("SendEquipmentConstantValues", func() { ack, err = p.h.g.SendEquipmentConstantValues(us) })
		n := m.apply(es)
		if err != nil || ack < 0 || (n != nil) != (ack == 0) {
			x.Failf("host", "SendEquipmentConstantValues %v returned %d, %v; acceptable %v", entriesItem(es), ack, err, n != nil)
		}
		if n != nil {
			m = n
		}
		var ids []interface{}
		for _, id := range ecIDs {
			ids = append(ids, rawID(id))
		}
		var vs []gem.EquipmentConstantValue
		p.call("RequestEquipmentConstants", func() { vs, err = p.h.g.RequestEquipmentConstants(ids...) })
		l := wire.L()
		for _, v := range vs {
			it, e := fromNode(v.Value)
			if e != nil {
				it = wire.L()
			}
			l.L = append(l.L, it)
		}
		if err != nil {
			x.Failf("host", "RequestEquipmentConstants: %v", err)
		}
		m.check(x, fmt.Sprintf("after %v", entriesItem(es)), l)
		x.Eval(fmt.Sprint(entriesItem(es)), true)
	}
}

// asU gives a numeric id as an unsigned item.
func asU(it *wire.Item) *wire.Item {
	if it.F&0o70 == 0o30 {
		return u4(uint64(it.Ints()[0]))
	}
	return it
}

// runUpdateRace reads the constants locally while S2F15 is handled.
func runUpdateRace(x *X, lists [][]ecEntry, registers bool) {
	w := newGW(x, gcfgDefault)
	ecSetup(w)
	w.toComm()
	m := ecInit()
	w.settle()
	w.take()
	vrt.Explore(true)
	var sys []uint32
	for _, es := range lists {
		sys = append(sys, w.data(2, 15, true, entriesItem(es)))
	}
	done := call("register", func() {
		c, err := gem.NewEquipmentConstant(50, "late", node(u4(1)))
		if err == nil {
			err = w.g.RegisterEquipmentConstant(c)
		}
		if err != nil {
			x.Failf("register", "%v", err)
		}
	})
	w.settle()
	vrt.Explore(false)
	w.finish("RegisterEquipmentConstant", done)
	o := w.take()
	if len(o) != len(sys) {
		x.Failf("no-reply", "%d updates answered by %s", len(sys), frames(o))
	}
	for i, f := range o {
		n := m.apply(lists[i])
		ack := ackOf(f.Item)
		if f.Sys != sys[i] || ack < 0 || (n != nil) != (ack == 0) {
			x.Failf("ack", "S2F15 %v answered by %v", entriesItem(lists[i]), f)
		}
		if n != nil {
			m = n
		}
	}
	got := w.ask(2, 13, wire.L(ecIDs...))
	m.check(x, "at the end", got)
	x.Outcome("%v", got)
}

func c21(c *C) {
	long(c, longUpdates)
	texts(c, "texts", textUpdates)
	o := Opt{MaxSteps: 1 << 25}
	var part [][]ecEntry
	n := 0
	flush := func() {
		if len(part) == 0 {
			return
		}
		ls := part
		part = nil
		n++
		c.Case(fmt.Sprintf("lists %d", n), o, func(x *X) { runUpdates(x, ls) })
	}
	pick := func(ix []int) []ecEntry {
		var es []ecEntry
		for _, i := range ix {
			es = append(es, ecEntries[i])
		}
		return es
	}
	for d := 0; d <= c.Q(4, 4); d++ {
		seqs(len(ecEntries), d, func(ix []int) {
			part = append(part, pick(ix))
			if len(part) == 40 {
				flush()
			}
		})
		flush()
	}
	// sequences of messages, each from the initial values
	msgs := [][]int{{}, {0}, {1}, {3}, {4}, {5}, {6}, {7}, {8}, {9}, {10}, {0, 5, 7, 9}, {0, 6}, {2, 3, 8}, {5, 10}, {3, 12}, {0, 2}, {7, 7, 4}}
	for d := 2; d <= c.Q(3, 4); d++ {
		seqs(len(msgs), d, func(ix []int) {
			var ls [][]ecEntry
			var nm []string
			for _, i := range ix {
				ls = append(ls, pick(msgs[i]))
				nm = append(nm, fmt.Sprint(i))
			}
			c.Case("seq "+strings.Join(nm, "."), o, func(x *X) { runUpdates(x, ls) })
		})
	}
	c.Case("malformed", o, runMalformedUpdates)
	for d := 1; d <= c.Q(3, 3); d++ {
		seqs(len(msgs)-3, d, func(ix []int) {
			var ls [][]ecEntry
			for _, i := range ix {
				ls = append(ls, pick(msgs[i]))
			}
			c.Case(fmt.Sprintf("host %v", ix), o, func(x *X) { runHostUpdates(x, ls) })
		})
	}
	ro := Opt{Dev: c.Q(3, 4), Split: true, MaxSteps: 1 << 22}
	for _, ix := range [][]int{{11, 13}, {11, 12}, {5, 6}} {
		ls := [][]ecEntry{pick(msgs[ix[0]]), pick(msgs[ix[1]])}
		c.Case(fmt.Sprintf("race %v", ix), ro, func(x *X) { runUpdateRace(x, ls, true) })
	}
}
