package h

import (
	"fmt"
	"math"

	"github.com/younglifestyle/secs4go/gem"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C31", Level: "model_checking", Budget: [2]int{200, 850},
		Rule: "for every Go integer type and text used at registration, with every second of the boundary values and confusable texts registered, every wire encoding (each width and signedness that can carry the value, texts, and encodings of values that are not registered) in every message that carries ids; report, link and program ids under every pair of encodings; the host-side calls with ids of every type against what goes on the wire, and received ids in every encoding against what the callbacks get",
		Run:  c31})
}

// idNums are the boundary values, idTexts texts that could be mistaken.
var idNums = []uint64{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<63 - 1, 1 << 63, math.MaxUint64}

var idTexts = []string{"", "0", "1", "01", "N:1", "S:1", "255", "256", "a", "A", "a ", "+1", "1.0", "18446744073709551615", "-1", "\x00", "\x00a",
	longText(20, "a"), longText(20, "b"), longText(64, "a"), longText(65, "a"), longText(65, "b"), longText(81, "a"), longText(81, "b"), longText(121, "a"), longText(121, "b"), longText(256, "a"), longText(256, "b"), longText(300, "a"), longText(300, "b")}

// idType makes a value of one Go type, nil if it does not fit.
type idType struct {
	name string
	of   func(v uint64) interface{}
}

var idTypes = []idType{
	{"uint8", func(v uint64) interface{} {
		if v > math.MaxUint8 {
			return nil
		}
		return uint8(v)
	}},
	{"uint16", func(v uint64) interface{} {
		if v > math.MaxUint16 {
			return nil
		}
		return uint16(v)
	}},
	{"uint32", func(v uint64) interface{} {
		if v > math.MaxUint32 {
			return nil
		}
		return uint32(v)
	}},
	{"uint64", func(v uint64) interface{} { return v }},
	{"uint", func(v uint64) interface{} { return uint(v) }},
	{"int8", func(v uint64) interface{} {
		if v > math.MaxInt8 {
			return nil
		}
		return int8(v)
	}},
	{"int16", func(v uint64) interface{} {
		if v > math.MaxInt16 {
			return nil
		}
		return int16(v)
	}},
	{"int32", func(v uint64) interface{} {
		if v > math.MaxInt32 {
			return nil
		}
		return int32(v)
	}},
	{"int64", func(v uint64) interface{} {
		if v > math.MaxInt64 {
			return nil
		}
		return int64(v)
	}},
	{"int", func(v uint64) interface{} {
		if v > math.MaxInt64 {
			return nil
		}
		return int(v)
	}},
}

// numEnc are the encodings of a number.
func numEnc(v uint64) (out []*wire.Item) {
	for _, w := range []int{1, 2, 4, 8} {
		if w == 8 || v < 1<<(8*w) {
			out = append(out, wire.U(w, v))
		}
		if v < 1<<(8*w-1) {
			out = append(out, wire.I(w, int64(v)))
		}
	}
	return
}

// idEncs are all encodings used in requests; those without key are no ids.
func idEncs() (out []*wire.Item) {
	for _, v := range idNums {
		out = append(out, numEnc(v)...)
	}
	for _, t := range idTexts {
		out = append(out, wire.A(t))
	}
	return append(out, wire.I(1, -1), wire.I(2, -1), wire.I(4, -1), wire.I(8, -1), wire.I(1, -128), wire.I(8, math.MinInt64), wire.I(2, -32768), wire.B(1), wire.B(255), wire.Bool(true), wire.Fl(4, 1), wire.Fl(8, 1))
}

// idSet is what is registered: every second value, in one Go type.
type idSet struct {
	t    idType
	odd  int
	ids  []interface{}
	have map[string]bool
}

func newIDSet(t idType, odd int) *idSet {
	s := &idSet{t: t, odd: odd, have: map[string]bool{}}
	n := 0
	add := func(id interface{}) {
		if id == nil {
			return
		}
		if n++; n%2 == odd {
			s.ids = append(s.ids, id)
			s.have[rawKey(id)] = true
		}
	}
	for _, v := range idNums {
		add(t.of(v))
	}
	n = 0
	for _, v := range idTexts {
		add(v)
	}
	return s
}

// variants are the ids of every Go type for each registered one.
func (s *idSet) variants(id interface{}) (out []interface{}) {
	if t, ok := id.(string); ok {
		return []interface{}{t}
	}
	for _, v := range idNums {
		if fmt.Sprint(v) != fmt.Sprint(id) {
			continue
		}
		for _, t := range idTypes {
			if o := t.of(v); o != nil {
				out = append(out, o)
			}
		}
	}
	return
}

func (s *idSet) dup(x *X, what string, id interface{}, f func(id interface{}) error) {
	for _, v := range s.variants(id) {
		if err := f(v); err == nil {
			x.Failf("duplicate", "%s %v (%T) registered again as %T", what, id, id, v)
		}
	}
}

// show is the value that belongs to an id.
func show(kind, key string) *wire.Item { return wire.A(kind + " " + key) }

func runIDQueries(x *X, s *idSet) {
	w := newGW(x, gcfgDefault)
	for _, id := range s.ids {
		k := rawKey(id)
		w.addStatus(one{id: id, name: "sv", unit: "u", val: show("sv", k), how: "value"})
		w.addConst(one{id: id, name: "ec", unit: "u", val: show("ec", k), how: "value"})
		s.dup(x, "status variable", id, func(v interface{}) error {
			n, err := gem.NewStatusVariable(v, "again", "")
			if err == nil {
				err = w.g.RegisterStatusVariable(n)
			}
			return err
		})
		s.dup(x, "constant", id, func(v interface{}) error {
			n, err := gem.NewEquipmentConstant(v, "again", node(u4(1)))
			if err == nil {
				err = w.g.RegisterEquipmentConstant(n)
			}
			return err
		})
	}
	w.toComm()
	all := wire.L(idEncs()...)
	check := func(sf [2]int, kind string, req, got *wire.Item) {
		bad := func(what string) {
			x.Failf(fmt.Sprintf("id-S%dF%d", sf[0], sf[1]), "registered as %s: S%dF%d %v answered by %v: %s", s.t.name, sf[0], sf[1], req, got, what)
		}
		if got == nil || got.F != wire.FL || len(got.L) != len(req.L) {
			bad("not one entry for each id")
		}
		for i, id := range req.L {
			k, e := idKey(id), got.L[i]
			known := s.have[k] && k != ""
			switch sf[1] {
			case 3, 13:
				if known && !wire.Equal(e, show(kind, k)) || !known && !empty(e) {
					bad(fmt.Sprintf("%v stands for %q", id, k))
				}
			default:
				if e.F != wire.FL || len(e.L) < 3 || k != "" && !sameID(e.L[0], id) || known != wire.Equal(e.L[1], wire.A(kind)) {
					bad(fmt.Sprintf("%v stands for %q", id, k))
				}
				if sf[1] == 29 && known && (len(e.L) < 5 || !wire.Equal(e.L[4], show(kind, k))) {
					bad(fmt.Sprintf("the default of %v", id))
				}
			}
			x.Eval(fmt.Sprintf("S%dF%d %v in %s/%d", sf[0], sf[1], id, s.t.name, s.odd), true)
		}
	}
	for _, q := range []struct {
		sf   [2]int
		kind string
	}{{[2]int{1, 3}, "sv"}, {[2]int{1, 11}, "sv"}, {[2]int{2, 13}, "ec"}, {[2]int{2, 29}, "ec"}} {
		check(q.sf, q.kind, all, w.ask(q.sf[0], q.sf[1], all))
		for _, id := range all.L {
			r := wire.L(id)
			check(q.sf, q.kind, r, w.ask(q.sf[0], q.sf[1], r))
		}
	}
}

func runIDUpdates(x *X, s *idSet) {
	w := newGW(x, gcfgDefault)
	cs := map[string]*gem.EquipmentConstant{}
	vals := map[string]*wire.Item{}
	for _, id := range s.ids {
		k := rawKey(id)
		e, err := gem.NewEquipmentConstant(id, "ec", node(show("ec", k)))
		if err == nil {
			err = w.g.RegisterEquipmentConstant(e)
		}
		if err != nil {
			x.Failf("register", "%v", err)
		}
		cs[k], vals[k] = e, show("ec", k)
	}
	w.toComm()
	for i, id := range idEncs() {
		k := idKey(id)
		v := wire.U(4, uint64(1000+i))
		ack := ackOf(w.ask(2, 15, wire.L(wire.L(id, v))))
		known := k != "" && s.have[k]
		if known != (ack == 0) {
			x.Failf("id-S2F15", "registered as %s: S2F15 for %v (%q) answered %d", s.t.name, id, k, ack)
		}
		if known {
			vals[k] = v
		}
		for c, e := range cs {
			n, err := e.Value()
			if err != nil || value(n) != vals[c].String() {
				x.Failf("id-S2F15", "registered as %s: after S2F15 for %v (%q), constant %q is %v, want %v (%v)", s.t.name, id, k, c, value(n), vals[c], err)
			}
		}
		x.Eval(fmt.Sprintf("S2F15 %v in %s/%d", id, s.t.name, s.odd), true)
	}
}

// runIDReports: events and variables registered in one Go type; reports over
// every encoding of an id, under report ids in every pair of encodings.
func runIDReports(x *X, s *idSet) {
	w := newGW(x, gcfgDefault)
	for i, id := range s.ids {
		k := rawKey(id)
		var err error
		if i%2 == 0 {
			w.addStatus(one{id: id, val: show("v", k), how: "value"})
		} else {
			v, e := gem.NewDataVariable(id, "dv", gem.WithDataValue(node(show("v", k))))
			if err = e; err == nil {
				err = w.g.RegisterDataVariable(v)
			}
			s.dup(x, "data variable", id, func(v interface{}) error {
				n, err := gem.NewDataVariable(v, "again")
				if err == nil {
					err = w.g.RegisterDataVariable(n)
				}
				return err
			})
		}
		if err == nil {
			var e *gem.CollectionEvent
			if e, err = gem.NewCollectionEvent(id, "ev"); err == nil {
				err = w.g.RegisterCollectionEvent(e)
			}
		}
		if err != nil {
			x.Failf("register", "%v: %v", id, err)
		}
		s.dup(x, "event", id, func(v interface{}) error {
			n, err := gem.NewCollectionEvent(v, "again")
			if err == nil {
				err = w.g.RegisterCollectionEvent(n)
			}
			return err
		})
	}
	w.toComm()
	ack := func(f int, it *wire.Item, want bool, what string) {
		if a := ackOf(w.ask(2, f, it)); (a == 0) != want {
			x.Failf(fmt.Sprintf("id-S2F%d", f), "registered as %s: S2F%d %v answered %d: %s", s.t.name, f, it, a, what)
		}
	}
	rep := func(what string, it, ev, rpt *wire.Item, keys ...string) {
		vs := wire.L()
		for _, k := range keys {
			vs.L = append(vs.L, show("v", k))
		}
		if it == nil || it.F != wire.FL || len(it.L) != 3 || !sameID(it.L[1], ev) || it.L[2].F != wire.FL || len(it.L[2].L) != 1 ||
			len(it.L[2].L[0].L) != 2 || !sameID(it.L[2].L[0].L[0], rpt) || !wire.Equal(it.L[2].L[0].L[1], vs) {
			x.Failf("id-report", "registered as %s: %s of event %v, report %v, values of %q: %v", s.t.name, what, ev, rpt, keys, it)
		}
	}
	none := func(what string, it *wire.Item) {
		if it != nil && (it.F != wire.FL || len(it.L) == 3 && !empty(it.L[2])) {
			x.Failf("id-report", "registered as %s: %s: %v", s.t.name, what, it)
		}
	}
	def := func(r *wire.Item, vs ...*wire.Item) *wire.Item {
		return wire.L(u1(1), wire.L(wire.L(r, wire.L(vs...))))
	}
	encs := idEncs()
	anyEv := encOf(s.ids[0])[0]
	// variable ids, one at a time
	for _, id := range encs {
		k := idKey(id)
		ok := k != "" && s.have[k]
		ack(33, def(u4(7), id), ok, "variable "+k)
		if ok {
			ack(35, def(anyEv, u4(7)), true, "link")
			rep("S6F16", w.ask(6, 15, anyEv), anyEv, u4(7), k)
		}
		ack(33, wire.L(u1(1), wire.L()), true, "delete all")
		x.Eval(fmt.Sprintf("VID %v in %s/%d", id, s.t.name, s.odd), true)
	}
	// event ids: link, enable, request, trigger
	first := rawKey(s.ids[0])
	for _, id := range encs {
		k := idKey(id)
		ok := k != "" && s.have[k]
		ack(33, def(u4(7), encOf(s.ids[0])[0]), true, "define")
		ack(35, def(id, u4(7)), ok, "event "+k)
		ack(37, wire.L(wire.Bool(true), wire.L(id)), ok, "event "+k)
		if ok {
			for _, id2 := range encs {
				if k2 := idKey(id2); k2 == k {
					rep("S6F16", w.ask(6, 15, id2), id2, u4(7), first)
				} else if id2.F == id.F && len(k2) == len(k) {
					none("S6F16 of event "+k2, w.ask(6, 15, id2))
				}
			}
			for _, raw := range s.ids {
				if rawKey(raw) != k {
					continue
				}
				for _, v := range s.variants(raw) {
					var err error
					w.settle()
					w.take()
					w.finish("TriggerCollectionEvent", call("trigger", func() { err = w.g.TriggerCollectionEvent(v) }))
					w.settle()
					o := w.take()
					if err != nil || len(o) != 1 || o[0].S() != 6 || o[0].F() != 11 {
						x.Failf("id-trigger", "event %v (%T) triggered as %T: %v, %s", raw, raw, v, err, frames(o))
					}
					rep("S6F11", o[0].Item, id, u4(7), first)
				}
			}
			for _, off := range []bool{true, false} {
				ack(37, wire.L(wire.Bool(!off), wire.L(id)), true, "switch")
				raw := idRaw(id)
				w.finish("TriggerCollectionEvent", call("trigger", func() { w.g.TriggerCollectionEvent(raw) }))
				w.settle()
				if o := w.take(); (len(o) == 0) != off {
					x.Failf("id-S2F37", "registered as %s: event %v disabled %v under %v, triggered: %s", s.t.name, raw, off, id, frames(o))
				}
			}
		} else {
			none("S6F16 of event "+id.String(), w.ask(6, 15, id))
		}
		ack(33, wire.L(u1(1), wire.L()), true, "delete all")
		x.Eval(fmt.Sprintf("CEID %v in %s/%d", id, s.t.name, s.odd), true)
	}
}

// encOf are the encodings of a registered id.
func encOf(id interface{}) []*wire.Item {
	if t, ok := id.(string); ok {
		return []*wire.Item{wire.A(t)}
	}
	for _, v := range idNums {
		if fmt.Sprint(v) == fmt.Sprint(id) {
			return numEnc(v)
		}
	}
	return nil
}

// idRaw is the id of an item in Go.
func idRaw(id *wire.Item) interface{} {
	if id.F&0o70 == 0o30 {
		return id.Ints()[0]
	}
	return rawID(id)
}

// runReportIDs: a report id defined, redefined, linked, reported and deleted
// in each encoding; a neighbour stays.
func runReportIDs(x *X, id *wire.Item) {
	w := newRW(x)
	w.toComm()
	encs := idEncs()
	k := idKey(id)
	other := u4(4711)
	for _, e := range encs {
		ke := idKey(e)
		if ke == "" {
			continue
		}
		ack := func(f int, it *wire.Item, want bool) {
			if a := ackOf(w.ask(2, f, it)); (a == 0) != want {
				x.Failf("id-RPTID", "report %v: S2F%d %v answered %d", id, f, it, a)
			}
		}
		def := func(r *wire.Item, vs ...*wire.Item) *wire.Item {
			return wire.L(u1(1), wire.L(wire.L(r, wire.L(vs...))))
		}
		ack(33, wire.L(u1(1), wire.L()), true)
		ack(33, def(id, rVars[0]), true)
		ack(33, def(other, rVars[1]), true)
		ack(35, def(rEvents[0], other), true)
		ack(35, def(rEvents[0], e), ke == k) // an undefined report otherwise
		ack(35, def(rEvents[0], e), false)   // linked already, or undefined
		ack(33, def(e, rVars[1]), ke != k)   // a redefinition
		got := w.ask(6, 15, rEvents[0])
		n := 1
		if ke == k {
			n = 2
		}
		if len(got.L) != 3 || len(got.L[2].L) != n || !sameID(got.L[2].L[0].L[0], other) || n == 2 && !sameID(got.L[2].L[1].L[0], id) {
			x.Failf("id-RPTID", "reports %v (defined as %v) and %v: %v", id, e, other, got)
		}
		if ke == k {
			ack(33, def(e), true) // deletes it
			if got := w.ask(6, 15, rEvents[0]); len(got.L) != 3 || len(got.L[2].L) != 1 || !sameID(got.L[2].L[0].L[0], other) {
				x.Failf("id-RPTID", "report %v deleted as %v: %v", id, e, got)
			}
			ack(33, def(e, rVars[2]), true)
		}
		x.Eval(fmt.Sprintf("RPTID %v %v", id, e), true)
	}
}

func runIDPrograms(x *X, s *idSet) {
	w := newPW(x)
	w.handler(false)
	for _, id := range s.ids {
		k := rawKey(id)
		if err := w.g.RegisterProcessProgram(id, "old "+k); err != nil {
			x.Failf("register", "%v", err)
		}
		for _, v := range s.variants(id) {
			if err := w.g.RegisterProcessProgram(v, "local "+k); err != nil {
				x.Failf("register", "%v", err)
			}
		}
		w.m[k] = []byte("local " + k)
	}
	w.toComm()
	w.stored()
	encs := idEncs()
	for _, id := range encs {
		if idKey(id) == "" {
			w.fetch(id, nil)
			continue
		}
		w.fetch(id, id)
		x.Eval(fmt.Sprintf("S7F5 %v in %s/%d", id, s.t.name, s.odd), true)
	}
	for i, id := range encs {
		w.upload(wire.L(id, wire.A(fmt.Sprintf("upload %d", i))), i%2 == 0, 0)
		w.handler(false)
		w.stored()
		if k := idKey(id); k != "" {
			for _, id2 := range encs {
				if idKey(id2) == k {
					w.fetch(id2, id2)
				}
			}
		}
		x.Eval(fmt.Sprintf("S7F3 %v in %s/%d", id, s.t.name, s.odd), true)
	}
}

func runIDAlarms(x *X, odd int) {
	w := &aw{gw: newGW(x, gcfgDefault), m: almModel{}}
	for i, v := range idNums {
		if i%2 == odd && v <= math.MaxInt64 {
			w.register(int(v), fmt.Sprint("alarm ", v))
		}
	}
	w.toComm()
	for _, id := range idEncs() {
		n, ok := almID(id)
		_, known := w.m[n]
		if !ok || !known {
			continue // refused or ignored, C22
		}
		for _, on := range []bool{false, true} {
			aled := byte(0)
			if on {
				aled = 0x80
			}
			w.s5f3(aled, wire.L(wire.B(aled), wire.L(id)), []*wire.Item{id}, true)
			w.lists(fmt.Sprintf("S5F3 %v %v", on, id))
		}
		x.Eval(fmt.Sprintf("ALID %v", id), true)
	}
	for _, id := range w.m.ids() {
		w.raise(id, true)
		w.raise(id, false)
	}
}

func runIDCommands(x *X) {
	w := newCW(x)
	w.res = gem.RemoteCommandResult{}
	w.toComm()
	for _, id := range idEncs() {
		if idKey(id) == "" {
			continue
		}
		for _, p := range idEncs() {
			if idKey(p) == "" {
				continue
			}
			w.reqs = nil
			w.ask(2, 41, wire.L(id, wire.L(wire.L(p, id))))
			if len(w.reqs) != 1 || rawKey(w.reqs[0].CommandID) != idKey(id) || len(w.reqs[0].Parameters) != 1 || rawKey(w.reqs[0].Parameters[0].Identifier) != idKey(p) {
				x.Failf("id-S2F41", "command %v with parameter %v reached the handler as %v", id, p, w.reqs)
			}
			x.Eval(fmt.Sprintf("RCMD %v %v", id, p), true)
		}
	}
}

// runHostIDs: ids of every Go type through the host's calls, checked on the wire.
func runHostIDs(x *X, id interface{}) {
	gc := gcfgDefault
	gc.host = true
	w := newGW(x, gc)
	var reports []gem.EventReport
	w.g.Events().EventReportReceived.AddCallback(func(d map[string]interface{}) { reports = append(reports, d["report"].(gem.EventReport)) })
	w.toComm()
	h := w.g
	k := rawKey(id)
	want := func(it *wire.Item, path ...int) {
		full := it
		for _, i := range path {
			if it == nil || it.F != wire.FL || i >= len(it.L) {
				x.Failf("id-host", "id %v (%T) was sent as %v", id, id, full)
			}
			it = it.L[i]
		}
		if it == nil || idKey(it) != k {
			x.Failf("id-host", "id %v (%T) was sent as %v", id, id, full)
		}
	}
	do := func(s, f int, rsp *wire.Item, call_ func() error, paths ...[]int) {
		var err error
		w.settle()
		w.take()
		done := call("host call", func() { err = call_() })
		w.settle()
		o := w.take()
		if len(o) != 1 || o[0].S() != s || o[0].F() != f || !o[0].W() {
			x.Failf("id-host", "call with id %v (%T): %v, sent %s", id, id, err, frames(o))
		}
		for _, p := range paths {
			want(o[0].Item, p...)
		}
		w.reply(o[0], rsp)
		w.settle()
		if !*done || err != nil {
			x.Failf("id-host", "S%dF%d with id %v (%T) answered with %v: returned %v, %v", s, f, id, id, rsp, *done, err)
		}
		x.Eval(fmt.Sprintf("host S%dF%d %v %T", s, f, id, id), true)
	}
	b0 := wire.B(0)
	encs := encOf(id)
	if encs == nil {
		encs = []*wire.Item{wire.A(k[2:])}
	}
	p0 := []int{0}
	do(1, 3, wire.L(u1(1)), func() error { _, err := h.RequestStatusVariables(id); return err }, p0)
	do(2, 13, wire.L(u1(1)), func() error { _, err := h.RequestEquipmentConstants(id); return err }, p0)
	do(2, 15, b0, func() error {
		_, err := h.SendEquipmentConstantValues([]gem.EquipmentConstantUpdate{{ID: id, Value: node(u1(1))}})
		return err
	}, []int{0, 0})
	do(2, 33, b0, func() error {
		_, err := h.DefineReports(gem.ReportDefinitionRequest{ReportID: id, VIDs: []interface{}{id, id}})
		return err
	}, []int{1, 0, 0}, []int{1, 0, 1, 0}, []int{1, 0, 1, 1})
	do(2, 35, b0, func() error {
		_, err := h.LinkEventReports(gem.EventReportLinkRequest{CEID: id, ReportIDs: []interface{}{id, id}})
		return err
	}, []int{1, 0, 0}, []int{1, 0, 1, 0}, []int{1, 0, 1, 1})
	do(2, 37, b0, func() error { _, err := h.EnableEventReports(true, id); return err }, []int{1, 0})
	do(7, 3, b0, func() error { _, err := h.UploadProcessProgram(id, "x"); return err }, p0)
	do(2, 41, wire.L(b0, wire.L()), func() error {
		_, err := h.SendRemoteCommand(id, []gem.RemoteCommandParameterValue{{Name: id, Value: 1}})
		return err
	}, p0, []int{1, 0, 0})
	for _, e := range encs {
		e := e
		do(1, 11, wire.L(wire.L(e, wire.A("n"), wire.A("u"))), func() error {
			r, err := h.RequestStatusVariableInfo(id)
			if err == nil && (len(r) != 1 || rawKey(r[0].ID) != k) {
				return fmt.Errorf("returned %v", r)
			}
			return err
		}, p0)
		do(6, 15, wire.L(u1(1), e, wire.L(wire.L(e, wire.L(u1(1))))), func() error {
			r, err := h.RequestCollectionEventReport(id)
			if err == nil && (rawKey(r.CEID) != k || len(r.Reports) != 1 || rawKey(r.Reports[0].RPTID) != k) {
				return fmt.Errorf("returned %v", r)
			}
			return err
		}, nil)
		do(7, 5, wire.L(e, wire.A("body")), func() error {
			b, a, err := h.RequestProcessProgram(id)
			if err == nil && (b != "body" || a != 0) {
				return fmt.Errorf("returned %q, %d", b, a)
			}
			return err
		}, nil)
		reports = nil
		w.data(6, 11, true, wire.L(u1(1), e, wire.L(wire.L(e, wire.L(u1(1))))))
		w.settle()
		if len(reports) != 1 || rawKey(reports[0].CEID) != k || len(reports[0].Reports) != 1 || rawKey(reports[0].Reports[0].RPTID) != k {
			x.Failf("id-host", "event %v reported to the application as %v", e, reports)
		}
		w.take()
		x.Eval(fmt.Sprintf("host S6F11 %v", e), true)
	}
}

// notIDs are values that are not ids: negative numbers, text that is not
// ASCII, and what is neither number nor text.
func notIDs() []interface{} {
	l := []interface{}{nil, 1.0, float32(0), true, "é", "a\x80", "\xff", "\u0100", "1\u00a0", []byte{1}, []interface{}{1}}
	for _, v := range []int64{-1, -2, -128, -129, -32768, -32769, -1 << 31, -1<<31 - 1, -1 << 63} {
		if v >= math.MinInt8 {
			l = append(l, int8(v))
		}
		if v >= math.MinInt16 {
			l = append(l, int16(v))
		}
		if v >= math.MinInt32 {
			l = append(l, int32(v))
		}
		l = append(l, v, int(v))
	}
	return l
}

// runNotIDs: what is not an id is refused by every constructor and call, and
// nothing of such a call is sent.
func runNotIDs(x *X, host bool) {
	gc := gcfgDefault
	gc.host = host
	w := newGW(x, gc)
	w.toComm()
	g := w.g
	type ids = []interface{}
	for bi, bad := range notIDs() {
		id := fmt.Sprintf("%d %q %T", bi, fmt.Sprint(bad), bad)
		refused := func(what string, f func() error) {
			x.Try(what+" "+id, func() {
				var err error
				done := call(what, func() { err = f() })
				w.settle()
				if o := w.take(); len(o) > 0 {
					x.Bad("not-id", "%s with %s sent %s", what, id, frames(o))
				}
				if !*done || err == nil {
					x.Bad("not-id", "%s accepted %s (returned: %v)", what, id, *done)
				}
				x.Eval("not an id: "+what, true)
			})
		}
		if !host {
			refused("NewStatusVariable", func() error { _, err := gem.NewStatusVariable(bad, "n", "u"); return err })
			refused("NewDataVariable", func() error { _, err := gem.NewDataVariable(bad, "n"); return err })
			refused("NewEquipmentConstant", func() error { _, err := gem.NewEquipmentConstant(bad, "n", node(u1(1))); return err })
			refused("NewCollectionEvent", func() error { _, err := gem.NewCollectionEvent(bad, "n"); return err })
			refused("RegisterProcessProgram", func() error { return g.RegisterProcessProgram(bad, "b") })
			refused("TriggerCollectionEvent", func() error { return g.TriggerCollectionEvent(bad) })
			continue
		}
		for _, l := range []ids{{bad}, {1, bad}, {bad, 1}, {1, "a", bad}} {
			l := l
			refused("RequestStatusVariables", func() error { _, err := g.RequestStatusVariables(l...); return err })
			refused("RequestStatusVariableInfo", func() error { _, err := g.RequestStatusVariableInfo(l...); return err })
			refused("RequestEquipmentConstants", func() error { _, err := g.RequestEquipmentConstants(l...); return err })
			refused("RequestEquipmentConstantInfo", func() error { _, err := g.RequestEquipmentConstantInfo(l...); return err })
			refused("EnableEventReports", func() error { _, err := g.EnableEventReports(true, l...); return err })
			refused("DefineReports vids", func() error {
				_, err := g.DefineReports(gem.ReportDefinitionRequest{ReportID: 1, VIDs: l})
				return err
			})
			refused("LinkEventReports reports", func() error {
				_, err := g.LinkEventReports(gem.EventReportLinkRequest{CEID: 1, ReportIDs: l})
				return err
			})
			var defs []gem.ReportDefinitionRequest
			var links []gem.EventReportLinkRequest
			var upds []gem.EquipmentConstantUpdate
			var pars []gem.RemoteCommandParameterValue
			for _, v := range l {
				defs = append(defs, gem.ReportDefinitionRequest{ReportID: v, VIDs: ids{1}})
				links = append(links, gem.EventReportLinkRequest{CEID: v, ReportIDs: ids{1}})
				upds = append(upds, gem.EquipmentConstantUpdate{ID: v, Value: node(u1(1))})
				pars = append(pars, gem.RemoteCommandParameterValue{Name: v, Value: 1})
			}
			refused("DefineReports", func() error { _, err := g.DefineReports(defs...); return err })
			refused("LinkEventReports", func() error { _, err := g.LinkEventReports(links...); return err })
			refused("SendEquipmentConstantValues", func() error { _, err := g.SendEquipmentConstantValues(upds); return err })
			refused("SendRemoteCommand parameter", func() error { _, err := g.SendRemoteCommand("GO", pars); return err })
		}
		refused("RequestCollectionEventReport", func() error { _, err := g.RequestCollectionEventReport(bad); return err })
		refused("UploadProcessProgram", func() error { _, err := g.UploadProcessProgram(bad, "b"); return err })
		refused("RequestProcessProgram", func() error { _, _, err := g.RequestProcessProgram(bad); return err })
		refused("SendRemoteCommand", func() error { _, err := g.SendRemoteCommand(bad, nil); return err })
	}
	w.wait(2 * sec)
	w.take()
	x.Outcome("%v", g.State())
}

func c31(c *C) {
	for _, host := range []bool{false, true} {
		host := host
		c.Case(fmt.Sprintf("not ids host=%v", host), Opt{MaxSteps: 1 << 26}, func(x *X) { runNotIDs(x, host) })
	}
	o := Opt{MaxSteps: 1 << 26}
	for _, t := range idTypes {
		for odd := 0; odd < 2; odd++ {
			s := newIDSet(t, odd)
			n := fmt.Sprintf("ids as %s/%d", t.name, odd)
			c.Case(n+" queries", o, func(x *X) { runIDQueries(x, s) })
			c.Case(n+" updates", o, func(x *X) { runIDUpdates(x, s) })
			c.Case(n+" reports", o, func(x *X) { runIDReports(x, s) })
			c.Case(n+" programs", o, func(x *X) { runIDPrograms(x, s) })
			for _, id := range s.ids {
				id := id
				c.Case(fmt.Sprintf("host id %q %T", fmt.Sprint(id), id), o, func(x *X) { runHostIDs(x, id) })
			}
		}
	}
	for _, id := range idEncs() {
		if id := id; idKey(id) != "" {
			c.Case(fmt.Sprintf("report id %v", id), o, func(x *X) { runReportIDs(x, id) })
		}
	}
	for odd := 0; odd < 2; odd++ {
		odd := odd
		c.Case(fmt.Sprintf("alarm ids/%d", odd), o, func(x *X) { runIDAlarms(x, odd) })
	}
	c.Case("command ids", o, runIDCommands)
}
