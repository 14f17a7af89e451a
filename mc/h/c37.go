package h

import (
	"bytes"
	"fmt"
	"math"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	hsmsp "github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C37", Level: "exploration", Budget: [2]int{200, 850},
		Rule: "all item trees over the small leaves to the depth and width, as built and as decoded; every path of up to depth+2 indices from -1 to one past the width; every accessor; the result is compared with a walk of the reference tree",
		Run:  c37})
}

// walk follows a path through lists.
func walk(it *wire.Item, path []int) *wire.Item {
	for _, i := range path {
		if it == nil || it.F != wire.FL || i < 0 || i >= len(it.L) {
			return nil
		}
		it = it.L[i]
	}
	return it
}

func pathsTo(depth, lo, hi int, f func([]int)) {
	var rec func(p []int)
	rec = func(p []int) {
		f(p)
		if len(p) == depth {
			return
		}
		for i := lo; i <= hi; i++ {
			rec(append(p[:len(p):len(p)], i))
		}
	}
	rec(nil)
}

func nelems(it *wire.Item) int {
	if w := wire.Width(it.F); w > 0 {
		return len(it.Data) / w
	}
	return len(it.L)
}

// accessors has the typed accessors: whether an item is of the type, and
// whether the outcome for an element is as it should be.
var accessors = []struct {
	name string
	is   func(f int) bool
	any  func(f int) bool // formats about which nothing is said
	get  func(m *ast.DataMessage, p []int) (string, error)
	want func(it *wire.Item, i int) string
}{
	{"GetByte", func(f int) bool { return f == wire.FB }, nil,
		func(m *ast.DataMessage, p []int) (string, error) {
			v, err := m.GetByte(p...)
			return fmt.Sprint(v), err
		},
		func(it *wire.Item, i int) string { return fmt.Sprint(it.Data[i]) }},
	{"GetBoolean", func(f int) bool { return f == wire.FBOOL }, nil,
		func(m *ast.DataMessage, p []int) (string, error) {
			v, err := m.GetBoolean(p...)
			return fmt.Sprint(v), err
		},
		func(it *wire.Item, i int) string { return fmt.Sprint(it.Data[i] != 0) }},
	{"GetInt", func(f int) bool { return f == wire.FI1 || f == wire.FI2 || f == wire.FI4 || f == wire.FI8 },
		func(f int) bool { return f == wire.FU1 || f == wire.FU2 || f == wire.FU4 || f == wire.FU8 },
		func(m *ast.DataMessage, p []int) (string, error) { v, err := m.GetInt(p...); return fmt.Sprint(v), err },
		func(it *wire.Item, i int) string { return fmt.Sprint(it.Ints()[i]) }},
	{"GetFloat", func(f int) bool { return f == wire.FF4 || f == wire.FF8 }, nil,
		func(m *ast.DataMessage, p []int) (string, error) {
			v, err := m.GetFloat(p...)
			return fmt.Sprintf("%x", math.Float64bits(v)), err
		},
		func(it *wire.Item, i int) string { return fmt.Sprintf("%x", math.Float64bits(it.Floats()[i])) }},
}

func lookups(x *X, it *wire.Item, m *ast.DataMessage, depth, hi int, how string) {
	var ps [][]int
	pathsTo(depth, -1, hi, func(p []int) { ps = append(ps, p) })
	lookupPaths(x, it, m, ps, how)
}

func lookupPaths(x *X, it *wire.Item, m *ast.DataMessage, ps [][]int, how string) {
	enc := m.ToBytes()
	for _, p := range ps {
		want := walk(it, p)
		n, err := m.Get(p...)
		switch {
		case want == nil:
			if err == nil {
				x.Bad("found", "Get%v of %s %v found %v", p, how, it, n)
			}
		case err != nil:
			x.Bad("missing", "Get%v of %s %v: %v", p, how, it, err)
		case !bytes.Equal(n.ToBytes(), want.Encode()) || n.Size() != nelems(want):
			x.Bad("item", "Get%v of %s %v is %v, want %v", p, how, it, n, want)
		}
		s, err := m.GetAscii(p...)
		if ok := want != nil && want.F == wire.FA; ok != (err == nil) || ok && s != string(want.Data) {
			x.Bad("ascii", "GetAscii%v of %s %v: %q, %v", p, how, it, s, err)
		}
		if len(p) == 0 {
			continue
		}
		at := p[len(p)-1]
		node := walk(it, p[:len(p)-1])
		for _, a := range accessors {
			switch {
			case node != nil && a.is(node.F):
				if at < 0 || at >= nelems(node) {
					continue // the caller answers for the element's index
				}
				if v, err := a.get(m, p); err != nil || v != a.want(node, at) {
					x.Bad("value", "%s%v of %s %v: %s, %v, want %s", a.name, p, how, it, v, err, a.want(node, at))
				}
			case node != nil && a.any != nil && a.any(node.F):
			default:
				if v, err := a.get(m, p); err == nil {
					x.Bad("wrong-type", "%s%v of %s %v: %s", a.name, p, how, it, v)
				}
			}
		}
	}
	if !bytes.Equal(enc, m.ToBytes()) {
		x.Bad("changed", "looking into %s %v changed it", how, it)
	}
}

// ctorAlias has what was passed to a constructor change afterwards.
func ctorAlias(x *X) {
	for _, c := range []struct {
		name string
		a, b interface{}
		mk   func(v ...interface{}) ast.ItemNode
	}{
		{"list", ast.NewUintNode(1, 1), ast.NewUintNode(1, 2), ast.NewListNode},
		{"binary", 1, 2, ast.NewBinaryNode},
		{"boolean", true, false, ast.NewBooleanNode},
		{"int", 1, 2, func(v ...interface{}) ast.ItemNode { return ast.NewIntNode(4, v...) }},
		{"uint", 1, 2, func(v ...interface{}) ast.ItemNode { return ast.NewUintNode(4, v...) }},
		{"float", 1.0, 2.0, func(v ...interface{}) ast.ItemNode { return ast.NewFloatNode(4, v...) }},
	} {
		v := []interface{}{c.a, c.a}
		n := c.mk(v...)
		b := n.ToBytes()
		v[0] = c.b
		if !bytes.Equal(b, n.ToBytes()) {
			x.Bad("alias", "%s item changes with the slice it was made from", c.name)
		}
		b[len(b)-1] ^= 1
		if bytes.Equal(b, n.ToBytes()) {
			x.Bad("alias", "%s item changes with the bytes it returned", c.name)
		}
		x.Eval("alias "+c.name, true)
	}
	sys := []byte{1, 2, 3, 4}
	m := ast.NewHSMSDataMessage("", 1, 1, 1, "H->E", ast.NewListNode(), 5, sys)
	m2 := m.SetSessionIDAndSystemBytes(6, sys)
	sys[0] = 9
	for _, d := range []*ast.DataMessage{m, m2} {
		if d.SystemBytes()[0] != 1 {
			x.Bad("alias", "system bytes change with the slice they were made from")
		}
	}
}

// withVariables looks into items that still have variables.
func withVariables(x *X) {
	l := ast.NewListNode(ast.NewASCIINodeVariable("v", 0, 5), ast.NewBinaryNode("b", 1), ast.NewIntNode(1, "i", 2), ast.NewUintNode(1, "u"), ast.NewFloatNode(4, "f"), ast.NewBooleanNode("t"), "item")
	m := ast.NewDataMessage("n", 1, 1, 0, "H->E", l)
	for i := 0; i < 7; i++ {
		if n, err := m.Get(i); err != nil || n == nil {
			x.Bad("variable", "Get(%d): %v", i, err)
		}
		for k, a := range accessors {
			ok := i == []int{1, 5, 2, 4}[k]
			if !ok && !(a.name == "GetInt" && i == 3) {
				if v, err := a.get(m, []int{i, 0}); err == nil {
					x.Bad("variable", "%s(%d, 0): %s", a.name, i, v)
				}
			}
		}
		x.Eval(fmt.Sprint("variable ", i), true)
	}
	if v, err := m.GetByte(1, 1); err != nil || v != 1 {
		x.Bad("variable", "GetByte beside a variable: %v, %v", v, err)
	}
	if v, err := m.GetInt(2, 1); err != nil || v != 2 {
		x.Bad("variable", "GetInt beside a variable: %v, %v", v, err)
	}
}

func c37(c *C) {
	var batch []*wire.Item
	n := 0
	depth, hi := 3, 2
	flush := func() {
		if len(batch) == 0 {
			return
		}
		part := batch
		batch = nil
		n++
		d, h := depth, hi
		c.Case(fmt.Sprintf("trees %d", n), Opt{MaxSteps: 1 << 40}, func(x *X) {
			for _, it := range part {
				it := it
				x.Try(it.String(), func() {
					m := ast.NewHSMSDataMessage("", 1, 1, 0, "H->E", toNode(it, 0), 1, []byte{0, 0, 0, 1})
					lookups(x, it, m, d, h, "the message")
					p, ok := hsmsp.Parse(m.ToBytes())
					if !ok {
						x.Bad("harness", "%v does not decode", it)
						return
					}
					lookups(x, it, p.(*ast.DataMessage), d, h, "the decoded message")
				})
				x.Eval(it.String(), true)
			}
		})
	}
	add := func(it *wire.Item) {
		if batch = append(batch, it); len(batch) == 500 {
			flush()
		}
	}
	leaves := smallLeaves()
	for _, it := range leafItems() {
		add(it)
	}
	flush()
	few := []*wire.Item{wire.L(), wire.A("Hi"), wire.B(0x80, 1), wire.Bool(true, false), wire.I(2, -2, 300), wire.U(4, 1<<31), wire.Fl(4, 1.5, -2)}
	if c.Thorough {
		trees(2, 2, leaves, add)
		flush()
		hi = 3
		trees(2, 3, few, add)
		flush()
		hi, depth = 2, 4
		trees(3, 2, few[1:4], add)
		flush()
	} else {
		trees(2, 2, few, add)
		flush()
		trees(1, 2, leaves, add)
		flush()
		depth = 4
		trees(3, 2, few[1:2], add)
		flush()
		hi, depth = 3, 2
		trees(1, 3, leaves, add)
		flush()
	}
	// deep chains
	depth, hi = 8, 0
	for d := 1; d <= 6; d++ {
		for _, lf := range leaves {
			it := lf
			for i := 0; i < d; i++ {
				it = wire.L(it)
			}
			add(it)
		}
	}
	flush()
	for _, n := range append([]int{3, 4, 5}, manySizes...) {
		n := n
		c.Case(fmt.Sprintf("size %d", n), Opt{MaxSteps: 1 << 40}, func(x *X) { manyPaths(x, n) })
	}
	c.Case("constructors do not share what they are given", Opt{}, func(x *X) { ctorAlias(x) })
	c.Case("items with variables", Opt{}, func(x *X) { x.Try("variables", func() { withVariables(x) }) })
}

// manyPaths looks into lists and arrays of n elements and into chains of n
// lists.
func manyPaths(x *X, n int) {
	look := func(what string, it *wire.Item, ps [][]int) {
		x.Try(fmt.Sprintf("%s of %d", what, n), func() {
			m := ast.NewHSMSDataMessage("", 1, 1, 0, "H->E", toNode(it, 0), 1, []byte{0, 0, 0, 1})
			lookupPaths(x, it, m, ps, what)
			p, ok := hsmsp.Parse(m.ToBytes())
			if !ok {
				x.Bad("harness", "%s of %d does not decode", what, n)
				return
			}
			lookupPaths(x, it, p.(*ast.DataMessage), ps, "decoded "+what)
			x.Eval(fmt.Sprint(what, n), true)
		})
	}
	for _, f := range wire.AllFormats {
		it := wire.L(wire.A("first"), sized(f, n))
		if f == wire.FL {
			for i := range it.L[1].L {
				it.L[1].L[i] = wire.L(wire.A(fmt.Sprint(i)), wire.B(byte(i)), wire.I(4, int64(i)), wire.Bool(i%2 == 0), wire.Fl(8, float64(i)))
			}
		}
		var ps [][]int
		for i := -1; i <= n; i++ {
			ps = append(ps, []int{1, i})
			for j := -1; j <= 5 && f == wire.FL; j++ {
				ps = append(ps, []int{1, i, j}, []int{1, i, j, 0})
			}
		}
		look(wire.Name(f), it, ps)
	}
	it := wire.I(2, 5, -6)
	for i := 0; i < n; i++ {
		it = wire.L(wire.A(fmt.Sprint("at ", i)), it, wire.B(byte(i)))
	}
	var ps [][]int
	for d := 0; d <= n+1; d++ {
		p := make([]int, d)
		for i := range p {
			p[i] = 1
		}
		for _, l := range [][]int{nil, {0}, {2}, {2, 0}, {3}, {-1}, {0, 0}} {
			ps = append(ps, append(p[:d:d], l...))
		}
	}
	look("chain", it, ps)
}
