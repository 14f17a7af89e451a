package h

import (
	"fmt"
	"strings"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/wire"
)

// tm is a reference item that may contain variables, independent of the
// implementation's node types.
type tm struct {
	f        int
	el       []tv   // scalar elements
	s        string // text of an ASCII item
	av       string // variable of an ASCII item
	min, max int    // its length range
	kids     []tk
}

// tv is a scalar element: one wire value or a variable.
type tv struct {
	v string
	b []byte
}

// tk is a list element: an item, or a variable or ellipsis.
type tk struct {
	t *tm
	v string
}

func (k tk) ell() bool { return k.t == nil && strings.HasPrefix(k.v, "...") }

// tmOf lifts a complete item.
func tmOf(it *wire.Item) *tm {
	if it == nil {
		return nil
	}
	t := &tm{f: it.F}
	switch it.F {
	case wire.FL:
		for _, c := range it.L {
			t.kids = append(t.kids, tk{t: tmOf(c)})
		}
	case wire.FA:
		t.s = string(it.Data)
	default:
		w := elw(it.F)
		for i := 0; i+w <= len(it.Data); i += w {
			t.el = append(t.el, tv{b: it.Data[i : i+w]})
		}
	}
	return t
}

func elw(f int) int {
	if w := wire.Width(f); w > 0 {
		return w
	}
	return 1
}

// vars lists the variable names in order of appearance, ellipses included.
func (t *tm) vars() []string {
	if t == nil {
		return nil
	}
	var out []string
	switch t.f {
	case wire.FL:
		for _, k := range t.kids {
			if k.t == nil {
				out = append(out, k.v)
			} else {
				out = append(out, k.t.vars()...)
			}
		}
	case wire.FA:
		if t.av != "" {
			out = append(out, t.av)
		}
	default:
		for _, e := range t.el {
			if e.v != "" {
				out = append(out, e.v)
			}
		}
	}
	return out
}

// item gives the complete item; nil and false if a variable is left.
func (t *tm) item() (*wire.Item, bool) {
	if t == nil {
		return nil, true
	}
	if len(t.vars()) > 0 {
		return nil, false
	}
	it := &wire.Item{F: t.f}
	switch t.f {
	case wire.FL:
		for _, k := range t.kids {
			c, ok := k.t.item()
			if !ok {
				return nil, false
			}
			it.L = append(it.L, c)
		}
	case wire.FA:
		it.Data = []byte(t.s)
	default:
		for _, e := range t.el {
			it.Data = append(it.Data, e.b...)
		}
	}
	return it, true
}

// native is the Go value of one wire element of format f.
func native(f int, b []byte) interface{} {
	it := &wire.Item{F: f, Data: b}
	switch f {
	case wire.FB:
		return int(b[0])
	case wire.FBOOL:
		return b[0] != 0
	case wire.FI1, wire.FI2, wire.FI4, wire.FI8:
		return it.Ints()[0]
	case wire.FU1, wire.FU2, wire.FU4, wire.FU8:
		return it.Uints()[0]
	case wire.FF4, wire.FF8:
		return it.Floats()[0]
	}
	panic("native")
}

// node builds the implementation's node.
func (t *tm) node() ast.ItemNode {
	if t == nil {
		return ast.NewEmptyItemNode()
	}
	var v []interface{}
	switch t.f {
	case wire.FL:
		for _, k := range t.kids {
			if k.t == nil {
				v = append(v, k.v)
			} else {
				v = append(v, k.t.node())
			}
		}
		return ast.NewListNode(v...)
	case wire.FA:
		if t.av != "" {
			return ast.NewASCIINodeVariable(t.av, t.min, t.max)
		}
		return ast.NewASCIINode(t.s)
	}
	for _, e := range t.el {
		if e.v != "" {
			v = append(v, e.v)
		} else {
			v = append(v, native(t.f, e.b))
		}
	}
	switch t.f {
	case wire.FB:
		return ast.NewBinaryNode(v...)
	case wire.FBOOL:
		return ast.NewBooleanNode(v...)
	case wire.FI1, wire.FI2, wire.FI4, wire.FI8:
		return ast.NewIntNode(elw(t.f), v...)
	case wire.FU1, wire.FU2, wire.FU4, wire.FU8:
		return ast.NewUintNode(elw(t.f), v...)
	}
	return ast.NewFloatNode(elw(t.f), v...)
}

func (t *tm) String() string {
	if t == nil {
		return "<>"
	}
	var sb strings.Builder
	sb.WriteString("<" + wire.Name(t.f))
	switch t.f {
	case wire.FL:
		for _, k := range t.kids {
			if k.t == nil {
				sb.WriteString(" " + k.v)
			} else {
				sb.WriteString(" " + k.t.String())
			}
		}
	case wire.FA:
		if t.av != "" {
			fmt.Fprintf(&sb, "{%d,%d} %s", t.min, t.max, t.av)
		} else {
			fmt.Fprintf(&sb, " %q", t.s)
		}
	default:
		for _, e := range t.el {
			if e.v != "" {
				sb.WriteString(" " + e.v)
			} else {
				fmt.Fprintf(&sb, " %v", native(t.f, e.b))
			}
		}
	}
	return sb.String() + ">"
}

// fv is a value for a variable.
type fv struct {
	b []byte // scalar element
	s string // ASCII text
	t *tm    // list element
	n int    // repetitions of an ellipsis
}

// fill substitutes the given variables (no ellipses) in a copy.
func (t *tm) fill(m map[string]fv) *tm {
	if t == nil {
		return nil
	}
	o := &tm{f: t.f, s: t.s, av: t.av, min: t.min, max: t.max}
	switch t.f {
	case wire.FL:
		for _, k := range t.kids {
			if k.t == nil {
				if v, ok := m[k.v]; ok && !k.ell() {
					o.kids = append(o.kids, tk{t: v.t})
				} else {
					o.kids = append(o.kids, k)
				}
			} else {
				o.kids = append(o.kids, tk{t: k.t.fill(m)})
			}
		}
	case wire.FA:
		if v, ok := m[t.av]; ok && t.av != "" {
			o.s, o.av, o.min, o.max = v.s, "", 0, 0
		}
	default:
		for _, e := range t.el {
			if v, ok := m[e.v]; ok && e.v != "" {
				e = tv{b: v.b}
			}
			o.el = append(o.el, e)
		}
	}
	return o
}

// suffix renames every variable (not the ellipses) by appending sfx.
func (t *tm) suffix(sfx string) *tm {
	o := &tm{f: t.f, s: t.s, av: t.av, min: t.min, max: t.max}
	if t.av != "" {
		o.av += sfx
	}
	for _, e := range t.el {
		if e.v != "" {
			e.v += sfx
		}
		o.el = append(o.el, e)
	}
	for _, k := range t.kids {
		switch {
		case k.t != nil:
			k.t = k.t.suffix(sfx)
		case !k.ell():
			k.v += sfx
		}
		o.kids = append(o.kids, k)
	}
	return o
}

// expand fills the ellipses named in m: the elements before an ellipsis
// appear n+1 times, and when n > 0 their variables carry the repetition's
// index, outer repetitions first.
func (t *tm) expand(m map[string]fv, sfx string) *tm {
	if t == nil {
		return nil
	}
	if t.f != wire.FL {
		return t.suffix(sfx)
	}
	o := &tm{f: t.f}
	one := func(k tk, s string) {
		switch {
		case k.t != nil:
			k.t = k.t.expand(m, s)
		case !k.ell():
			k.v += s
		}
		o.kids = append(o.kids, k)
	}
	pos := -1
	for i, k := range t.kids {
		if k.ell() {
			if _, ok := m[k.v]; ok {
				pos = i
			}
		}
	}
	if pos >= 0 {
		n := m[t.kids[pos].v].n
		for r := 0; r <= n; r++ {
			s := sfx
			if n > 0 {
				s += fmt.Sprintf("[%d]", r)
			}
			for _, k := range t.kids[:pos] {
				one(k, s)
			}
		}
	}
	for _, k := range t.kids[pos+1:] {
		one(k, sfx)
	}
	return o
}

// subst fills ellipses and variables at once.
func (t *tm) subst(m map[string]fv) *tm {
	has := false
	for k := range m {
		has = has || strings.HasPrefix(k, "...")
	}
	if has {
		t = t.expand(m, "")
	}
	return t.fill(m)
}

// api turns the values into the arguments of FillVariables for template t.
func (t *tm) api(m map[string]fv) map[string]interface{} {
	out := map[string]interface{}{}
	kind := map[string]int{} // variable -> format it stands in
	var walk func(*tm)
	walk = func(u *tm) {
		if u == nil {
			return
		}
		if u.av != "" {
			kind[u.av] = wire.FA
		}
		for _, e := range u.el {
			if e.v != "" {
				kind[e.v] = u.f
			}
		}
		for _, k := range u.kids {
			if k.t != nil {
				walk(k.t)
			} else {
				kind[k.v] = wire.FL
			}
		}
	}
	walk(t)
	for n, v := range m {
		switch {
		case strings.HasPrefix(n, "..."):
			out[n] = v.n
		case v.t != nil:
			out[n] = v.t.node()
		case v.b == nil:
			out[n] = v.s
		default:
			f, ok := kind[n]
			if !ok {
				f = wire.FB
			}
			out[n] = native(f, v.b)
		}
	}
	return out
}

func normEll(v []string) []string {
	out := append([]string{}, v...)
	for i, s := range out {
		if strings.HasPrefix(s, "...") {
			out[i] = "..."
		}
	}
	return out
}

// same compares a node of the implementation with a template; "" if equal.
// The names of ellipses left over are not compared.
func (t *tm) same(n ast.ItemNode) string {
	if n == nil {
		return "nil node"
	}
	if t == nil {
		if n.Type() != "empty" || n.Size() != 0 || len(n.Variables()) != 0 || len(n.ToBytes()) != 0 {
			return fmt.Sprintf("body %v instead of none", n)
		}
		return ""
	}
	want, got := normEll(t.vars()), normEll(n.Variables())
	if strings.Join(want, " ") != strings.Join(got, " ") {
		return fmt.Sprintf("variables %v instead of %v", n.Variables(), t.vars())
	}
	seen := map[string]bool{}
	for _, v := range n.Variables() {
		if seen[v] {
			return fmt.Sprintf("variable %s twice", v)
		}
		seen[v] = true
	}
	if it, ok := t.item(); ok {
		got, err := fromNode(n)
		if err != nil || !wire.Equal(got, it) {
			return fmt.Sprintf("item %v (%v) instead of %v", got, err, it)
		}
		if string(n.ToBytes()) != string(it.Encode()) {
			return fmt.Sprintf("bytes %s instead of %s", hexs(n.ToBytes()), hexs(it.Encode()))
		}
		return ""
	}
	if b := n.ToBytes(); len(b) != 0 {
		return fmt.Sprintf("encodes to %s with variables left", hexs(b))
	}
	switch t.f {
	case wire.FL:
		if n.Type() != "list" || n.Size() != len(t.kids) {
			return fmt.Sprintf("%s of %d instead of list of %d", n.Type(), n.Size(), len(t.kids))
		}
		for i, k := range t.kids {
			c, err := n.Get(i)
			if err != nil {
				return fmt.Sprintf("Get(%d): %v", i, err)
			}
			if k.t == nil {
				if c.Type() != "empty" {
					return fmt.Sprintf("element %d is %v instead of variable %s", i, c, k.v)
				}
				continue
			}
			if d := k.t.same(c); d != "" {
				return fmt.Sprintf("element %d: %s", i, d)
			}
		}
	case wire.FA:
		a, ok := n.(*ast.ASCIINode)
		if !ok {
			return fmt.Sprintf("%T instead of ASCII variable", n)
		}
		if lo, hi := a.FillInStringLength(); lo != t.min || hi != t.max {
			return fmt.Sprintf("length range %d,%d instead of %d,%d", lo, hi, t.min, t.max)
		}
	default:
		if n.Size() != len(t.el) {
			return fmt.Sprintf("size %d instead of %d", n.Size(), len(t.el))
		}
		// Positions: fill with values that tell the variables apart.
		vs := t.vars()
		for round := 0; round < 2; round++ {
			m := map[string]fv{}
			for i, v := range vs {
				m[v] = fv{b: elemVal(t.f, i+1+3*round, len(vs) > 1 && round == i%2)}
			}
			f := n.FillVariables(t.api(m))
			if d := t.fill(m).same(f); d != "" {
				return "filled: " + d
			}
		}
	}
	return ""
}

// elemVal is the i-th test value of format f.
func elemVal(f, i int, flip bool) []byte {
	switch f {
	case wire.FBOOL:
		if flip {
			return []byte{0}
		}
		return []byte{1}
	case wire.FB:
		return []byte{byte(200 + i)}
	case wire.FI1, wire.FI2, wire.FI4, wire.FI8:
		return wire.I(elw(f), int64(-i*3)).Data
	case wire.FU1, wire.FU2, wire.FU4, wire.FU8:
		return wire.U(elw(f), uint64(i*5)).Data
	}
	return wire.Fl(elw(f), float64(i)*0.5).Data
}

// val is a value for the variable v of t; i varies it.
func (t *tm) val(v string, i int) fv {
	if strings.HasPrefix(v, "...") {
		return fv{n: i % 3}
	}
	var find func(u *tm) *tm
	find = func(u *tm) *tm {
		if u.av == v {
			return u
		}
		for _, e := range u.el {
			if e.v == v {
				return u
			}
		}
		for _, k := range u.kids {
			if k.t == nil {
				if k.v == v {
					return u
				}
			} else if r := find(k.t); r != nil {
				return r
			}
		}
		return nil
	}
	u := find(t)
	if u == nil {
		return fv{b: []byte{9}}
	}
	switch u.f {
	case wire.FL:
		return fv{t: tmOf([]*wire.Item{wire.U(2, uint64(300+i)), wire.L(wire.A("k"), wire.L()), wire.A("v"), wire.L()}[i%4])}
	case wire.FA:
		s := strings.Repeat(string(rune('a'+i%20)), u.min)
		if u.max < 0 || len(s) < u.max {
			s += "Z"
		}
		return fv{s: s}
	}
	return fv{b: elemVal(u.f, i+1, i%2 == 0)}
}
