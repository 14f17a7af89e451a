package h

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C07", Level: "exploration", Budget: [2]int{150, 800},
		Rule: "every enumerated template, subset of its variables, ellipsis repetition and order of steps is filled through the public methods and compared with substitution on a reference tree; after every operation each older message of the history must be unchanged; non-trivial: distinct (template, values, order)",
		Run:  c07})
}

// snap is everything observable of a message.
func snap(m *ast.DataMessage) string {
	n, err := m.Get()
	if err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprintf("%s|%x|%v|%d|%x|%s|%s|%d|%v", m.String(), m.ToBytes(), m.Variables(), m.SessionID(), m.SystemBytes(), m.WaitBit(), n.Type(), n.Size(), n.Values())
}

// msgs is the set of messages of one history with what each looked like when
// it was made.
type hist struct {
	x  *X
	ms []*ast.DataMessage
	ss []string
}

func (h *hist) add(m *ast.DataMessage) *ast.DataMessage {
	h.ms = append(h.ms, m)
	h.ss = append(h.ss, snap(m))
	return m
}

func (h *hist) verify(after string) {
	for i, m := range h.ms {
		if s := snap(m); s != h.ss[i] {
			h.x.Bad("mutated", "after %s message %d changed from %s to %s", after, i, trunc(h.ss[i], 300), trunc(s, 300))
		}
	}
}

func (h *hist) fill(m *ast.DataMessage, vals map[string]interface{}, after string) *ast.DataMessage {
	cp := map[string]interface{}{}
	for k, v := range vals {
		cp[k] = v
	}
	r := m.FillVariables(vals)
	if len(cp) != len(vals) {
		h.x.Bad("input-changed", "%s changed the map of values", after)
	}
	for k, v := range cp {
		if !reflect.DeepEqual(v, vals[k]) {
			h.x.Bad("input-changed", "%s changed the value of %s", after, k)
		}
	}
	return h.add(r)
}

// agree compares a message with the reference.
func c07agree(x *X, m *ast.DataMessage, t *tm, w, sess int, sys []byte, what string) {
	if m.Name() != "N" || m.StreamCode() != 6 || m.FunctionCode() != 11 || m.Direction() != "H<-E" || m.WaitBit() != waits[w] || m.SessionID() != sess || string(m.SystemBytes()) != string(sys) {
		x.Bad("header", "%s: header %q S%dF%d %s %s session %d system %x", what, m.Name(), m.StreamCode(), m.FunctionCode(), m.Direction(), m.WaitBit(), m.SessionID(), m.SystemBytes())
	}
	n, err := m.Get()
	if err != nil {
		x.Bad("get", "%s: %v", what, err)
	}
	if d := t.same(n); d != "" {
		x.Bad("fill", "%s: %s (is %v)", what, d, n)
	}
	b := m.ToBytes()
	it, ok := t.item()
	if ok && w != 2 && sess >= 0 {
		var s4 uint32
		for _, c := range sys {
			s4 = s4<<8 | uint32(c)
		}
		want := wire.NewData(uint16(sess), 6, 11, w == 1, s4, it).Encode()
		if string(b) != string(want) {
			x.Bad("encode", "%s: encodes to %s instead of %s", what, hexs(b), hexs(want))
		}
	} else if len(b) != 0 {
		x.Bad("encodable", "%s: encodes to %s although incomplete", what, hexs(b))
	}
}

// c07template fills one template (no ellipses left after e) in every way.
func c07template(x *X, t *tm, maxVars int) {
	// ellipsis repetitions
	var ells []string
	for _, v := range t.vars() {
		if strings.HasPrefix(v, "...") {
			ells = append(ells, v)
		}
	}
	reps := [][]int{nil}
	if len(ells) > 0 {
		reps = nil
		seqs(3, len(ells), func(s []int) {
			if len(ells) == 2 && !x.C.Thorough && s[0] == s[1] && s[0] > 0 {
				return
			}
			reps = append(reps, append([]int{}, s...))
		})
	}
	for _, rep := range reps {
		em := map[string]fv{}
		for i, n := range rep {
			em[ells[i]] = fv{n: n}
		}
		e := t
		if len(em) > 0 {
			e = t.expand(em, "")
		}
		vs := e.vars()
		if len(vs) > maxVars {
			vs = vs[:maxVars]
		}
		for mask := 0; mask < 1<<len(vs); mask++ {
			for variant := 0; variant < x.C.Q(1, 2); variant++ {
				if variant == 1 && mask == 0 {
					continue
				}
				m := map[string]fv{}
				for i, v := range vs {
					if mask>>i&1 == 1 {
						m[v] = e.val(v, i+2*variant)
					}
				}
				id := fmt.Sprintf("%v repeat %v mask %b variant %d", t, rep, mask, variant)
				x.Try(id, func() {
					x.Eval(id, true)
					vrt.MaxPts(1 << 31)
					h := &hist{x: x}
					orig := h.add(ast.NewDataMessage("N", 6, 11, 1, "H<-E", t.node()))
					sys := []byte{1, 2, 3, 4}
					orig = h.add(orig.SetSessionIDAndSystemBytes(9, sys))
					all := e.api(m)
					for k, v := range em {
						all[k] = v.n
					}
					all["notThere"] = 5
					once := h.fill(orig, all, "filling at once")
					want := e.fill(m)
					c07agree(x, once, want, 1, 9, sys, "filled at once")
					// ellipses first, then the variables one at a time, forwards and backwards
					base := orig
					if len(em) > 0 {
						base = h.fill(orig, t.api(em), "filling the ellipses")
						c07agree(x, base, e, 1, 9, sys, "ellipses filled")
					}
					var names []string
					for i, v := range vs {
						if mask>>i&1 == 1 {
							names = append(names, v)
						}
					}
					for dir := 0; dir < 2; dir++ {
						cur, ref := base, e
						for i := range names {
							v := names[i]
							if dir == 1 {
								v = names[len(names)-1-i]
							}
							one := map[string]fv{v: m[v]}
							cur = h.fill(cur, e.api(one), "filling "+v)
							ref = ref.fill(one)
							c07agree(x, cur, ref, 1, 9, sys, "filled "+v)
						}
						if cur.String() != once.String() {
							x.Bad("steps", "filled in steps %q, at once %q", cur.String(), once.String())
						}
					}
					h.verify("all steps")
				})
			}
		}
	}
	// a value of the wrong type is refused and leaves the message alone
	if vs := t.vars(); len(vs) > 0 {
		id := fmt.Sprintf("%v wrong type", t)
		x.Try(id, func() {
			h := &hist{x: x}
			orig := h.add(ast.NewDataMessage("N", 6, 11, 0, "H<-E", t.node()))
			for _, v := range vs {
				if strings.HasPrefix(v, "...") {
					continue
				}
				for _, val := range []interface{}{struct{}{}, nil, []int{1}, []byte("a"), errors.New("e")} {
					if r := c07refuse(func() { orig.FillVariables(map[string]interface{}{v: val}) }); r == "" {
						x.Bad("wrong-type", "a %T was accepted for %s", val, v)
					}
					h.verify("refused value")
				}
			}
		})
	}
}

// c07refuse gives what f panics with, "" if it does not.
func c07refuse(f func()) (r string) {
	defer func() {
		if p := recover(); p != nil {
			r = fmt.Sprint(p)
		}
	}()
	f()
	return ""
}

// scalars are boundary values of every Go number type, and booleans.
func scalars() []interface{} {
	var vals []interface{}
	bounds := []*big.Int{}
	for _, k := range []uint{0, 1, 7, 8, 15, 16, 24, 31, 32, 53, 63, 64} {
		p := new(big.Int).Lsh(big.NewInt(1), k)
		for d := int64(-2); d <= 2; d++ {
			q := new(big.Int).Add(p, big.NewInt(d))
			bounds = append(bounds, q, new(big.Int).Neg(q))
		}
	}
	for _, z := range []interface{}{int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0)} {
		t := reflect.TypeOf(z)
		for _, b := range bounds {
			v := reflect.New(t).Elem()
			if t.Kind() >= reflect.Uint {
				if !b.IsUint64() || v.OverflowUint(b.Uint64()) {
					continue
				}
				v.SetUint(b.Uint64())
			} else {
				if !b.IsInt64() || v.OverflowInt(b.Int64()) {
					continue
				}
				v.SetInt(b.Int64())
			}
			vals = append(vals, v.Interface())
		}
	}
	for _, f := range []float64{0, 1, -1, 0.1, 1e-45, 5e-324, math.MaxFloat32, -math.MaxFloat32, 3.5e38, 1e39, -1e39, math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN()} {
		vals = append(vals, f, float32(f))
	}
	vals = append(vals, true, false)
	return vals
}

// scalarWant gives the item of the value and whether it must be accepted or
// refused; 0 leaves it open.
func scalarWant(f int, v interface{}) (b []byte, must int) {
	r := reflect.ValueOf(v)
	n := new(big.Int)
	isInt := true
	switch {
	case r.Kind() == reflect.Bool:
		if f != wire.FBOOL {
			return nil, -1
		}
		return wire.Bool(r.Bool()).Data, 1
	case r.Kind() >= reflect.Uint && r.Kind() <= reflect.Uint64:
		n.SetUint64(r.Uint())
	case r.Kind() <= reflect.Int64:
		n.SetInt64(r.Int())
	default:
		isInt = false
	}
	w := elw(f)
	switch f {
	case wire.FBOOL:
		return nil, -1
	case wire.FF4, wire.FF8:
		var fl float64
		if isInt {
			fl, _ = new(big.Float).SetInt(n).Float64()
		} else {
			fl = r.Float()
		}
		if math.IsNaN(fl) || math.IsInf(fl, 0) || w == 4 && math.Abs(fl) > math.MaxFloat32 {
			return nil, -1
		}
		return wire.Fl(w, fl).Data, 1
	}
	if !isInt {
		return nil, -1
	}
	signed := f == wire.FI1 || f == wire.FI2 || f == wire.FI4 || f == wire.FI8
	lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(8*w))
	if signed {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	if n.Cmp(lo) < 0 || n.Cmp(hi) >= 0 {
		return nil, -1
	}
	must = 1
	if f == wire.FB && r.Kind() != reflect.Int && r.Kind() != reflect.Uint8 {
		must = 0
	}
	if signed {
		return wire.I(w, n.Int64()).Data, must
	}
	return wire.U(w, n.Uint64()).Data, must
}

// c07values: every boundary value of every Go number type, and booleans, in
// every scalar format, through the constructor and through filling: accepted
// as it is if the format can hold it, refused otherwise.
func c07values(c *C) {
	vals, want := scalars(), scalarWant
	for _, f := range []int{wire.FB, wire.FBOOL, wire.FI1, wire.FI2, wire.FI4, wire.FI8, wire.FU1, wire.FU2, wire.FU4, wire.FU8, wire.FF4, wire.FF8} {
		f := f
		c.Case("values "+wire.Name(f), bulk, func(x *X) {
			vrt.MaxPts(1 << 31)
			for pos := 0; pos < 3; pos++ {
				t := &tm{f: f}
				for i := 0; i < 3; i++ {
					e := tv{b: make([]byte, elw(f))}
					if i == pos {
						e = tv{v: "y"}
					}
					t.el = append(t.el, e)
				}
				in := &tm{f: wire.FL, kids: []tk{{v: "z"}, {t: t}}}
				for _, v := range vals {
					b, must := want(f, v)
					for nest, tt := range []*tm{t, in} {
						id := fmt.Sprintf("%v filled with %T %v", tt, v, v)
						x.Try(id, func() {
							x.Eval(id, true)
							h := &hist{x: x}
							orig := h.add(ast.NewDataMessage("N", 6, 11, 0, "H<-E", tt.node()).SetSessionIDAndSystemBytes(1, []byte{1, 2, 3, 4}))
							var m *ast.DataMessage
							r := c07refuse(func() { m = orig.FillVariables(map[string]interface{}{"y": v}) })
							h.verify("the value")
							if must == 1 && r != "" || must == -1 && r == "" {
								x.Bad("value", "refused with %q", r)
							}
							if r != "" {
								return
							}
							vals := map[string]fv{"y": {b: b}}
							if nest == 1 {
								vals["z"] = fv{t: tmOf(wire.L())}
								m = m.FillVariables(map[string]interface{}{"z": ast.NewListNode()})
							}
							c07agree(x, m, tt.fill(vals), 0, 1, []byte{1, 2, 3, 4}, "filled")
						})
					}
				}
			}
		})
	}
	c.Case("lengths", bulk, func(x *X) {
		vrt.MaxPts(1 << 31)
		for lo := 0; lo <= 4; lo++ {
			for hi := lo - 1; hi <= 6; hi++ {
				max := hi
				if hi < lo {
					max = -1
				}
				t := &tm{f: wire.FA, av: "y", min: lo, max: max}
				in := &tm{f: wire.FL, kids: []tk{{t: t}}}
				for _, tt := range []*tm{t, in} {
					for n := 0; n <= 9; n++ {
						for _, ch := range []string{"a", "\x00", "\x7f", "\"", "\u0080", "\u00e9", "\u65e5"} {
							s := strings.Repeat(ch, n)
							id := fmt.Sprintf("%v filled with %q", tt, s)
							x.Try(id, func() {
								x.Eval(id, true)
								h := &hist{x: x}
								orig := h.add(ast.NewDataMessage("N", 6, 11, 0, "H<-E", tt.node()).SetSessionIDAndSystemBytes(1, []byte{1, 2, 3, 4}))
								var m *ast.DataMessage
								r := c07refuse(func() { m = orig.FillVariables(map[string]interface{}{"y": s}) })
								h.verify("the value")
								ok := n >= lo && (max < 0 || n <= max) && (n == 0 || ch < "\x80")
								if n > 0 && ch >= "\x80" && r == "" || ch < "\x80" && ok != (r == "") {
									x.Bad("length", "refused with %q", r)
								}
								if r == "" {
									c07agree(x, m, tt.fill(map[string]fv{"y": {s: s}}), 0, 1, []byte{1, 2, 3, 4}, "filled")
								}
							})
						}
					}
				}
			}
		}
	})
}

// ellTemplates enumerates lists with ellipses.
func ellTemplates(depth, width, maxElls int, f func(*tm)) {
	var gen func(depth, width int) []*tm
	gen = func(depth, width int) []*tm {
		pool := []tk{{t: tmOf(wire.U(1, 7))}, {v: "y"}, {t: &tm{f: wire.FU1, el: []tv{{v: "u"}, {b: []byte{3}}}}}, {t: &tm{f: wire.FA, av: "s", min: 0, max: 4}}}
		if depth > 1 {
			for _, k := range gen(depth-1, 2) {
				pool = append(pool, tk{t: k})
			}
			pool = append(pool[1:3], pool[4:]...)
		}
		var out []*tm
		for n := 1; n <= width; n++ {
			seqs(len(pool), n, func(s []int) {
				for pos := 0; pos <= n; pos++ { // ellipsis before element pos; 0 none
					l := &tm{f: wire.FL}
					for i, k := range s {
						if pos == i && pos > 0 {
							l.kids = append(l.kids, tk{v: "..."})
						}
						e := pool[k]
						sfx := string(rune('a' + i))
						if e.t != nil {
							e.t = e.t.suffix(sfx)
						} else {
							e.v += sfx
						}
						l.kids = append(l.kids, e)
					}
					if pos == n {
						l.kids = append(l.kids, tk{v: "..."})
					}
					out = append(out, l)
				}
			})
		}
		return out
	}
	for _, t := range gen(depth, width) {
		n := 0
		for _, v := range t.vars() {
			if v == "..." {
				n++
			}
		}
		if n == 0 || n > maxElls {
			continue
		}
		// number the ellipses in order of appearance if there are several
		if n > 1 {
			i := 0
			var walk func(u *tm) *tm
			walk = func(u *tm) *tm {
				o := *u
				o.kids = nil
				for _, k := range u.kids {
					if k.t != nil {
						k.t = walk(k.t)
					} else if k.ell() {
						k.v = fmt.Sprintf("...[%d]", i)
						i++
					}
					o.kids = append(o.kids, k)
				}
				return &o
			}
			t = walk(t)
		}
		f(t)
	}
}

func c07(c *C) {
	var ts []*tm
	ts = append(ts, scalarTemplates(c.Q(3, 4))...)
	ts = append(ts, asciiTemplates()...)
	batch(c, "scalars", len(ts), 20, func(x *X, i int) { c07template(x, ts[i], 4) })
	pool := []tk{{v: "y"}, {t: tmOf(wire.U(1, 7))}, {t: &tm{f: wire.FA, av: "s", min: 1, max: 5}},
		{t: &tm{f: wire.FU2, el: []tv{{b: []byte{1, 2}}, {v: "u"}}}}, {t: &tm{f: wire.FB, el: []tv{{v: "b"}, {b: []byte{255}}, {v: "c"}}}},
		{t: &tm{f: wire.FL, kids: []tk{{v: "z"}}}}, {t: tmOf(wire.L())}, {t: &tm{f: wire.FL, kids: []tk{{t: &tm{f: wire.FBOOL, el: []tv{{v: "q"}}}}, {v: "r"}}}},
		{t: &tm{f: wire.FF4, el: []tv{{v: "f"}}}}, {t: &tm{f: wire.FI8, el: []tv{{v: "i"}, {b: make([]byte, 8)}}}},
		{t: &tm{f: wire.FL, kids: []tk{{t: &tm{f: wire.FL, kids: []tk{{v: "d"}, {t: tmOf(wire.A("k"))}}}}}}}}
	var ls []*tm
	listTemplates(3, pool, func(t *tm) { ls = append(ls, t) })
	batch(c, "lists", len(ls), 20, func(x *X, i int) {
		n := c.Q(2, 6)
		if len(ls[i].kids) < 3 {
			n = 6
		}
		c07template(x, ls[i], n)
	})
	var es []*tm
	ellTemplates(1, 3, 3, func(t *tm) { es = append(es, t) })
	ellTemplates(2, 1, 3, func(t *tm) { es = append(es, t) })
	ellTemplates(2, 2, c.Q(2, 3), func(t *tm) { es = append(es, t) })
	if c.Thorough {
		ellTemplates(3, 1, 3, func(t *tm) { es = append(es, t) })
	}
	batch(c, "ellipses", len(es), 20, func(x *X, i int) {
		n := c.Q(2, 5)
		if strings.Contains(es[i].String(), "...[1]") && !c.Thorough {
			n = 1
		}
		c07template(x, es[i], n)
	})
	c.Count("templates", int64(len(ts)+len(ls)+len(es)))
	c07counts(c)
	c07values(c)
	c07histories(c)
	c07encodable(c)
}

// c07count fills the ellipses of t with the given counts, then the variables,
// all at once, and compares with the reference.
func c07count(x *X, t *tm, em map[string]fv) {
	id := fmt.Sprintf("%s filled with %v", trunc(t.String(), 200), em)
	x.Try(id, func() {
		x.Eval(id, true)
		vrt.MaxPts(1 << 31)
		h := &hist{x: x}
		sys := []byte{1, 2, 3, 4}
		orig := h.add(ast.NewDataMessage("N", 6, 11, 1, "H<-E", t.node()))
		orig = h.add(orig.SetSessionIDAndSystemBytes(9, sys))
		e := t.expand(em, "")
		msg := h.fill(orig, t.api(em), "filling the ellipses")
		c07agree(x, msg, e, 1, 9, sys, "ellipses filled")
		m := map[string]fv{}
		for i, v := range e.vars() {
			if !strings.HasPrefix(v, "...") {
				m[v] = e.val(v, i)
			}
		}
		c07agree(x, h.fill(msg, e.api(m), "filling the variables"), e.fill(m), 1, 9, sys, "variables filled")
		all := e.api(m)
		for k, v := range em {
			all[k] = v.n
		}
		c07agree(x, h.fill(orig, all, "filling at once"), e.fill(m), 1, 9, sys, "filled at once")
		h.verify("all steps")
	})
}

// c07counts: many repetitions, deep nests of ellipses and many ellipses.
func c07counts(c *C) {
	u := tk{t: &tm{f: wire.FU1, el: []tv{{v: "u"}, {b: []byte{3}}}}}
	s := tk{t: &tm{f: wire.FA, av: "s", min: 0, max: 8}}
	y, dots := tk{v: "y"}, func(n int) tk { return tk{v: fmt.Sprintf("...[%d]", n)} }
	list := func(k ...tk) *tm { return &tm{f: wire.FL, kids: k} }
	counts := []int{3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128}
	if c.Thorough {
		counts = append(counts, 129, 199, 200, 254, 255, 256, 257, 300)
	}
	for _, n := range counts {
		n := n
		c.Case(fmt.Sprintf("ellipsis filled with %d", n), bulk, func(x *X) {
			one := map[string]fv{"...": {n: n}}
			for _, t := range []*tm{list(y, tk{v: "..."}), list(u, s, tk{v: "..."}, y), list(tk{t: list(y, u)}, tk{v: "..."}), list(s, tk{t: list(u, tk{v: "..."}, tk{v: "z"})})} {
				c07count(x, t, one)
			}
			if n > 40 {
				return
			}
			// n inside two, two inside n
			t := list(tk{t: list(u, dots(0))}, y, dots(1))
			c07count(x, t, map[string]fv{"...[0]": {n: n}, "...[1]": {n: 1}})
			c07count(x, t, map[string]fv{"...[0]": {n: 1}, "...[1]": {n: n}})
			c07count(x, t, map[string]fv{"...[1]": {n: n}}) // n+1 ellipses are left
		})
	}
	for d := 3; d <= c.Q(5, 6); d++ {
		d := d
		c.Case(fmt.Sprintf("%d nested ellipses", d), bulk, func(x *X) {
			t := list(u, s, dots(0))
			for i := 1; i < d; i++ {
				t = list(tk{t: t}, tk{v: fmt.Sprintf("y%d", i)}, dots(i))
			}
			seqs(3, d, func(n []int) {
				em, sum := map[string]fv{}, 1
				for i, v := range n {
					em[fmt.Sprintf("...[%d]", i)] = fv{n: v}
					sum *= v + 1
				}
				if sum <= 48 {
					c07count(x, t, em)
				}
			})
		})
	}
	for k := 4; k <= c.Q(20, 40); k++ {
		k := k
		c.Case(fmt.Sprintf("%d ellipses", k), bulk, func(x *X) {
			t := &tm{f: wire.FL}
			em := map[string]fv{}
			for i := 0; i < k; i++ {
				t.kids = append(t.kids, tk{t: list(tk{v: fmt.Sprintf("y%d", i)}, dots(i))})
				em[fmt.Sprintf("...[%d]", i)] = fv{n: i % 3}
			}
			c07count(x, t, em)
			for i := 0; i < k; i++ {
				c07count(x, t, map[string]fv{fmt.Sprintf("...[%d]", i): {n: 1 + i%2}})
			}
		})
	}
}

// c07histories: every sequence of deriving operations on any message made so
// far; no older message changes.
func c07histories(c *C) {
	temps := []*tm{
		{f: wire.FL, kids: []tk{{v: "y"}, {t: &tm{f: wire.FU1, el: []tv{{v: "u"}, {b: []byte{3}}}}}, {t: &tm{f: wire.FL, kids: []tk{{t: &tm{f: wire.FA, av: "s", min: 0, max: -1}}}}}}},
		{f: wire.FL, kids: []tk{{t: &tm{f: wire.FBOOL, el: []tv{{v: "y"}, {v: "u"}}}}, {v: "..."}}},
		{f: wire.FU4, el: []tv{{v: "y"}, {v: "u"}, {b: []byte{0, 0, 0, 9}}}},
		{f: wire.FA, av: "s", min: 0, max: -1},
		tmOf(wire.L(wire.U(1, 1))),
		nil,
	}
	type st struct {
		t    *tm
		w    int
		sess int
		sys  []byte
	}
	ops := []string{"y", "u", "s", "all", "ell", "W+", "W-", "id1", "id2", "id-1"}
	for ti, t := range temps {
		ti, t := ti, t
		for w := 0; w < 3; w++ {
			w := w
			for first := range ops {
				first := first
				c.Case(fmt.Sprintf("histories %d w%d %s", ti, w, ops[first]), bulk, func(x *X) {
					depth := c.Q(2, 3)
					seqs(len(ops)*3, depth-1, func(s []int) {
						id := fmt.Sprintf("history %v", s)
						x.Try(id, func() {
							vrt.MaxPts(1 << 31)
							h := &hist{x: x}
							ref := []st{{t, w, -1, []byte{0, 0, 0, 0}}}
							h.add(ast.NewDataMessage("N", 6, 11, w, "H<-E", t.node()))
							do := func(op string, on int) {
								m, r := h.ms[on], ref[on]
								var nm *ast.DataMessage
								switch op {
								case "W+", "W-":
									nm = m.SetWaitBit(op == "W+")
									if r.w == 2 {
										r.w = map[string]int{"W+": 1, "W-": 0}[op]
									}
								case "id1", "id2", "id-1":
									b := []byte{1, 2, 3, byte(len(ref))}
									r.sess = map[string]int{"id1": 1, "id2": 65535, "id-1": -1}[op]
									r.sys = append([]byte{}, b...)
									nm = m.SetSessionIDAndSystemBytes(r.sess, b)
									b[0], b[3] = 99, 99 // the caller's slice is its own
								default:
									vals := map[string]fv{}
									for _, v := range r.t.vars() {
										if v == op || op == "all" || op == "ell" && strings.HasPrefix(v, "...") {
											vals[v] = r.t.val(v, 1+len(ref)%2)
										}
									}
									nm = m.FillVariables(r.t.api(vals))
									r.t = r.t.subst(vals)
								}
								h.verify(op)
								h.add(nm)
								ref = append(ref, r)
								c07agree(x, nm, r.t, r.w, r.sess, r.sys, op)
							}
							do(ops[first], 0)
							for _, k := range s {
								do(ops[k/3], min(k%3, len(h.ms)-1))
							}
							for _, op := range []string{"all", "W+", "id1"} {
								for i := range ref[:2] {
									do(op, i)
								}
							}
							x.Eval(id, true)
						})
					})
				})
			}
		}
	}
}

// c07encodable: a message is encodable exactly when nothing is undecided.
func c07encodable(c *C) {
	c.Case("encodable", bulk, func(x *X) {
		for _, t := range []*tm{nil, tmOf(wire.L()), tmOf(wire.A("")), {f: wire.FA, av: "s", max: -1}, {f: wire.FL, kids: []tk{{v: "y"}}}, {f: wire.FL, kids: []tk{{t: tmOf(wire.U(1, 1))}, {v: "..."}}}, {f: wire.FB, el: []tv{{b: []byte{1}}, {v: "b"}}},
			{f: wire.FL, kids: []tk{{t: &tm{f: wire.FL, kids: []tk{{t: &tm{f: wire.FL, kids: []tk{{v: "deep"}}}}}}}}}} {
			for w := 0; w < 3; w++ {
				for _, sess := range []int{-1, 0, 1, 32767, 65535} {
					id := fmt.Sprintf("%v w%d sess %d", t, w, sess)
					x.Try(id, func() {
						vrt.MaxPts(1 << 31)
						x.Eval(id, true)
						m := ast.NewDataMessage("N", 6, 11, w, "H<-E", t.node())
						c07agree(x, m, t, w, -1, []byte{0, 0, 0, 0}, "new")
						m = m.SetSessionIDAndSystemBytes(sess, []byte{0xff, 0, 1, 0x80})
						c07agree(x, m, t, w, sess, []byte{0xff, 0, 1, 0x80}, "addressed")
						n := m.SetWaitBit(true)
						w2 := w
						if w == 2 {
							w2 = 1
						}
						c07agree(x, n, t, w2, sess, []byte{0xff, 0, 1, 0x80}, "wait bit set")
						c07agree(x, m, t, w, sess, []byte{0xff, 0, 1, 0x80}, "original")
					})
				}
			}
		}
	})
}
