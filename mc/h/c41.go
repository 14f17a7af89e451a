package h

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C41", Level: "exploration", Budget: [2]int{150, 800},
		Rule: "every constructor of messages and items is called with every enumerated combination of arguments inside and outside its documented domain: accepted exactly inside, and what it makes reads back as what was given; non-trivial: distinct arguments",
		Run:  c41})
}

// c41word says whether s is a variable name: a letter or underscore, then
// word characters, then any number of [digits].
func c41word(s string) bool {
	alpha := func(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	digit := func(c byte) bool { return c >= '0' && c <= '9' }
	if s == "" || !alpha(s[0]) {
		return false
	}
	i := 1
	for i < len(s) && (alpha(s[i]) || digit(s[i])) {
		i++
	}
	for i < len(s) {
		if s[i] != '[' {
			return false
		}
		j := i + 1
		for j < len(s) && digit(s[j]) {
			j++
		}
		if j == i+1 || j == len(s) || s[j] != ']' {
			return false
		}
		i = j + 1
	}
	return true
}

// c41dots says whether s names an ellipsis.
func c41dots(s string) bool {
	if !strings.HasPrefix(s, "...") {
		return false
	}
	s = s[3:]
	return s == "" || c41word("x"+s) && strings.Count(s, "[") == 1 && s[0] == '['
}

// c41names are strings to try as names.
func c41names() []string {
	var out []string
	for _, al := range []string{"aZ_0[]. -", "a0[]"} {
		max := 4
		if len(al) == 4 {
			max = 6
		}
		level := []string{""}
		for n := 0; n <= max; n++ {
			out = append(out, level...)
			var next []string
			for _, s := range level {
				for _, ch := range al {
					next = append(next, s+string(ch))
				}
			}
			level = next
		}
	}
	return append(out, "...", "...[0]", "...[12]", "...[0][1]", "....", "..", "...[]", "...[a]", "...0", "...[0", "a...", "x\n", "\nx", "x\ty", "é", "aé", "日", "a\u00a0", "a/b", "a*", "<a", "a>", "a\"", "$a", "a$", "a[0]\n", "a[٣]", "a٣", "ａ", "...\n", "...[0]\n", "@", "`", "{", "a@", "a`", "a{", "a/", "a:", "/a", ":a", "a[/]", "a[:]")
}

func c41(c *C) {
	c.Case("header", bulk, func(x *X) {
		vrt.MaxPts(1 << 31)
		item := ast.NewUintNode(1, 7)
		for s := -2; s <= 260; s++ {
			if s > 3 && s < 60 || s > 70 && s < 120 || s > 132 && s < 254 {
				continue
			}
			for f := -2; f <= 514; f++ {
				if f > 260 && f < 509 {
					continue
				}
				for w := -2; w <= 4; w++ {
					for _, d := range []string{"H->E", "H<-E", "H<->E"} {
						id := fmt.Sprintf("S%dF%d wait %d %s", s, f, w, d)
						x.Try(id, func() {
							x.Eval(id, true)
							ok := s >= 0 && s < 128 && f >= 0 && f < 256 && w >= 0 && w <= 2 && !(w == 1 && f%2 == 0)
							var m *ast.DataMessage
							r := c07refuse(func() { m = ast.NewDataMessage("N", s, f, w, d, item) })
							if ok != (r == "") {
								x.Bad("header", "NewDataMessage: %q", r)
							}
							if r == "" {
								c41reads(x, m, s, f, w, d, -1, []byte{0, 0, 0, 0})
								for _, b := range []bool{false, true} {
									var q *ast.DataMessage
									r := c07refuse(func() { q = m.SetWaitBit(b) })
									if must := w == 2 && b && f%2 == 0; must != (r != "") {
										x.Bad("wait", "SetWaitBit(%v): %q", b, r)
									}
									if r == "" {
										nw := w
										if w == 2 {
											nw = 0
											if b {
												nw = 1
											}
										}
										c41reads(x, q, s, f, nw, d, -1, []byte{0, 0, 0, 0})
									}
									c41reads(x, m, s, f, w, d, -1, []byte{0, 0, 0, 0})
								}
							}
							r = c07refuse(func() { m = ast.NewHSMSDataMessage("N", s, f, w, d, item, 258, []byte{1, 2, 3, 4}) })
							if (ok && w != 2) != (r == "") {
								x.Bad("header", "NewHSMSDataMessage: %q", r)
							}
							if r == "" {
								c41reads(x, m, s, f, w, d, 258, []byte{1, 2, 3, 4})
								if b := m.ToBytes(); string(b) != string(wire.NewData(258, s, f, w == 1, 0x01020304, wire.U(1, 7)).Encode()) {
									x.Bad("bytes", "%x", b)
								}
							}
						})
					}
				}
			}
		}
		for _, d := range []string{"", "H", "H->", "->E", "H-E", "E->H", "h->e", "H->E ", " H->E", "H<-E\n", "H<->", "H<-->E", "H=>E", "H→E", "HE", "H<>E"} {
			x.Try("direction "+d, func() {
				x.Eval("direction "+d, true)
				if c07refuse(func() { ast.NewDataMessage("N", 1, 1, 0, d, item) }) == "" || c07refuse(func() { ast.NewHSMSDataMessage("N", 1, 1, 0, d, item, 1, []byte{0, 0, 0, 1}) }) == "" {
					x.Bad("direction", "made")
				}
			})
		}
	})
	c.Case("message names", bulk, func(x *X) {
		vrt.MaxPts(1 << 31)
		// U+0085, U+00A0 and the rest of Unicode's White_Space
		space := "\t\n\v\f\r \u0085\u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"
		for ch := rune(0); ch < 0x3100; ch++ {
			for _, n := range []string{string(ch), "N" + string(ch), string(ch) + "N", "a" + string(ch) + "b"} {
				id := fmt.Sprintf("name %q", n)
				x.Try(id, func() {
					x.Eval(id, true)
					ok := !strings.ContainsRune(space, ch)
					var m, q *ast.DataMessage
					r := c07refuse(func() { m = ast.NewDataMessage(n, 1, 1, 0, "H->E", ast.NewListNode()) })
					if ok != (r == "") {
						x.Bad("name", "NewDataMessage: %q", r)
					}
					r = c07refuse(func() {
						q = ast.NewHSMSDataMessage(n, 1, 1, 0, "H->E", ast.NewListNode(), 1, []byte{0, 0, 0, 1})
					})
					if ok != (r == "") {
						x.Bad("name", "NewHSMSDataMessage: %q", r)
					}
					if ok && (m.Name() != n || q.Name() != n) {
						x.Bad("name", "reads as %q, %q", m.Name(), q.Name())
					}
				})
			}
		}
	})
	c.Case("session and system bytes", bulk, func(x *X) {
		vrt.MaxPts(1 << 31)
		item := ast.NewASCIINode("x")
		withVar := ast.NewListNode(ast.NewASCIINode("x"), ast.NewUintNode(1, 1, "v"))
		sess := []int{-1 << 40, -65537, -65536, -32768, -3, -2, -1, 0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 1 << 31, 1<<32 + 1, 1 << 40}
		for _, s := range sess {
			for n := -1; n <= 7; n++ {
				for _, w := range []int{0, 1, 2} {
					id := fmt.Sprintf("session %d, %d system bytes, wait %d", s, n, w)
					x.Try(id, func() {
						x.Eval(id, true)
						var sys []byte
						if n >= 0 {
							sys = []byte{0xa1, 0xb2, 0xc3, 0xd4, 0xe5, 0xf6, 0x17}[:n]
						}
						want := make([]byte, 4)
						copy(want, sys)
						ok := s >= -1 && s <= 65535
						m := ast.NewDataMessage("N", 3, 5, w, "H->E", item)
						var q *ast.DataMessage
						r := c07refuse(func() { q = m.SetSessionIDAndSystemBytes(s, sys) })
						if ok != (r == "") {
							x.Bad("session", "SetSessionIDAndSystemBytes: %q", r)
						}
						c41reads(x, m, 3, 5, w, "H->E", -1, []byte{0, 0, 0, 0})
						if r == "" {
							c41reads(x, q, 3, 5, w, "H->E", s, want)
							if complete := s >= 0 && w != 2; complete != (len(q.ToBytes()) != 0) {
								x.Bad("bytes", "%x", q.ToBytes())
							}
							if n > 0 {
								sys[0] ^= 0xff
								c41reads(x, q, 3, 5, w, "H->E", s, want)
								sys[0] ^= 0xff
							}
						}
						r = c07refuse(func() { q = ast.NewHSMSDataMessage("N", 3, 5, w, "H->E", item, s, sys) })
						if (ok && s != -1 && w != 2) != (r == "") {
							x.Bad("session", "NewHSMSDataMessage: %q", r)
						}
						if r == "" {
							c41reads(x, q, 3, 5, w, "H->E", s, want)
							if n > 0 {
								sys[0] ^= 0xff
								c41reads(x, q, 3, 5, w, "H->E", s, want)
							}
						}
						if c07refuse(func() { ast.NewHSMSDataMessage("N", 3, 5, 0, "H->E", withVar, 1, sys) }) == "" {
							x.Bad("variables", "NewHSMSDataMessage takes an item with variables")
						}
					})
				}
			}
		}
	})
	c.Case("variable names", bulk, func(x *X) {
		vrt.MaxPts(1 << 31)
		seen := map[string]bool{}
		for _, n := range c41names() {
			if seen[n] {
				continue
			}
			seen[n] = true
			id := fmt.Sprintf("variable %q", n)
			x.Try(id, func() {
				x.Eval(id, true)
				word, dots := c41word(n), c41dots(n)
				for _, k := range []struct {
					what string
					ok   bool
					mk   func() ast.ItemNode
				}{
					{"A", word, func() ast.ItemNode { return ast.NewASCIINodeVariable(n, 0, -1) }},
					{"B", word, func() ast.ItemNode { return ast.NewBinaryNode(1, n) }},
					{"BOOLEAN", word, func() ast.ItemNode { return ast.NewBooleanNode(true, n) }},
					{"I2", word, func() ast.ItemNode { return ast.NewIntNode(2, 1, n) }},
					{"U4", word, func() ast.ItemNode { return ast.NewUintNode(4, 1, n) }},
					{"F8", word, func() ast.ItemNode { return ast.NewFloatNode(8, 1, n) }},
					{"L", word || dots, func() ast.ItemNode { return ast.NewListNode(ast.NewListNode(), n) }},
					{"L first", word, func() ast.ItemNode { return ast.NewListNode(n, ast.NewListNode()) }},
				} {
					var it ast.ItemNode
					r := c07refuse(func() { it = k.mk() })
					if k.ok != (r == "") {
						x.Bad("name", "%s: %q", k.what, r)
					}
					if r == "" {
						if v := it.Variables(); len(v) != 1 || v[0] != n || len(it.ToBytes()) != 0 {
							x.Bad("variables", "%s: %q, %x", k.what, v, it.ToBytes())
						}
						// renaming: an invalid new name is refused as well
						if it2, r := (ast.ItemNode)(nil), ""; word {
							r = c07refuse(func() {
								m := map[string]interface{}{n: "0new"}
								it2 = it.FillVariables(m)
							})
							if k.what != "A" && r == "" {
								x.Bad("rename", "%s: %v", k.what, it2)
							}
						}
					}
				}
			})
		}
	})
	c.Case("ascii variables", bulk, func(x *X) {
		vrt.MaxPts(1 << 31)
		lens := []int{-1 << 33, -3, -2, -1, 0, 1, 2, 3, 7, 8, 1 << 24, 1 << 33}
		for _, lo := range lens {
			for _, hi := range lens {
				id := fmt.Sprintf("length %d..%d", lo, hi)
				x.Try(id, func() {
					x.Eval(id, true)
					ok := lo >= 0 && hi >= -1 && (hi == -1 || lo <= hi)
					var it ast.ItemNode
					r := c07refuse(func() { it = ast.NewASCIINodeVariable("v", lo, hi) })
					if ok != (r == "") {
						x.Bad("length", "%q", r)
					}
					if r == "" {
						a, b := it.(*ast.ASCIINode).FillInStringLength()
						if a != lo || b != hi || it.Size() != -1 {
							x.Bad("length", "reads as %d..%d, size %d", a, b, it.Size())
						}
					}
				})
			}
		}
		for ch := 0; ch < 0x250; ch++ {
			for _, s := range []string{string(rune(ch)), "ab" + string(rune(ch)), string(rune(ch)) + "c", string([]byte{byte(ch)})} {
				id := fmt.Sprintf("string %q", s)
				x.Try(id, func() {
					x.Eval(id, true)
					ok := true
					for i := 0; i < len(s); i++ {
						ok = ok && s[i] < 0x80
					}
					var it ast.ItemNode
					r := c07refuse(func() { it = ast.NewASCIINode(s) })
					if ok != (r == "") {
						x.Bad("character", "%q", r)
					}
					if r == "" && (it.Size() != len(s) || it.Values() != s || !reflect.DeepEqual(it.Variables(), []string{})) {
						x.Bad("string", "reads as %v", it.Values())
					}
				})
			}
		}
	})
	c41numbers(c)
	c41lists(c)
}

func c41reads(x *X, m *ast.DataMessage, s, f, w int, d string, sess int, sys []byte) {
	if m.Name() != "N" || m.StreamCode() != s || m.FunctionCode() != f || m.WaitBit() != waits[w] || m.Direction() != d || m.SessionID() != sess || string(m.SystemBytes()) != string(sys) || m.Type() != "data message" {
		x.Bad("reads", "%q S%dF%d %s %s session %d system %x %s", m.Name(), m.StreamCode(), m.FunctionCode(), m.WaitBit(), m.Direction(), m.SessionID(), m.SystemBytes(), m.Type())
	}
}

// c41numbers: the element lists of the items with a fixed width.
func c41numbers(c *C) {
	type el struct {
		what string
		v    interface{}
		name string // a variable
	}
	els := []el{
		{"1", 1, ""}, {"0", 0, ""}, {"true", true, ""}, {"variable a", "a", "a"}, {"variable b", "b", "b"}, {"variable a[0]", "a[0]", "a[0]"},
		{"bad name", "0a", ""}, {"empty name", "", ""}, {"dots", "...", ""}, {"nil", nil, ""}, {"slice", []int{1}, ""}, {"bytes", []byte{1}, ""},
		{"item", ast.NewUintNode(1, 1), ""}, {"rune string", "é", ""}, {"complex", complex(1, 0), ""}, {"pointer", new(int), ""}, {"big", new(big.Int), ""},
		{"uintptr", uintptr(1), ""}, {"map", map[string]int{}, ""}, {"0b1", "0b1", ""}, {"300", 300, ""}, {"1.0", 1.0, ""},
	}
	type kind struct {
		name  string
		width int
		mk    func(int, ...interface{}) ast.ItemNode
		ok    func(e el) bool
		b     func(e el) []byte // of an accepted value
	}
	num := func(e el) bool { return e.what == "1" || e.what == "0" }
	n := func(e el) int { return e.v.(int) }
	var ks []kind
	for w := -1; w <= 17; w++ {
		w := w
		is := w == 1 || w == 2 || w == 4 || w == 8
		fits := func(lim int) func(e el) bool {
			return func(e el) bool { return num(e) || e.what == "300" && 8*w > lim }
		}
		ks = append(ks,
			kind{"I", w, ast.NewIntNode, fits(9), func(e el) []byte { return wire.I(w, int64(n(e))).Data }},
			kind{"U", w, ast.NewUintNode, fits(8), func(e el) []byte { return wire.U(w, uint64(n(e))).Data }})
		if !is {
			ks[len(ks)-1].b, ks[len(ks)-2].b = nil, nil
		}
		f := kind{"F", w, ast.NewFloatNode, func(e el) bool { return num(e) || e.what == "300" || e.what == "1.0" }, nil}
		if w == 4 || w == 8 {
			f.b = func(e el) []byte {
				if v, ok := e.v.(float64); ok {
					return wire.Fl(w, v).Data
				}
				return wire.Fl(w, float64(n(e))).Data
			}
		}
		ks = append(ks, f)
	}
	ks = append(ks, kind{"B", 1, func(_ int, v ...interface{}) ast.ItemNode { return ast.NewBinaryNode(v...) },
		func(e el) bool { return num(e) || e.what == "0b1" },
		func(e el) []byte {
			if e.what == "0b1" {
				return []byte{1}
			}
			return []byte{byte(n(e))}
		}},
		kind{"BOOLEAN", 1, func(_ int, v ...interface{}) ast.ItemNode { return ast.NewBooleanNode(v...) },
			func(e el) bool { return e.what == "true" },
			func(e el) []byte { return wire.Bool(true).Data }})
	names := map[string]int{"I1": wire.FI1, "I2": wire.FI2, "I4": wire.FI4, "I8": wire.FI8, "U1": wire.FU1, "U2": wire.FU2, "U4": wire.FU4, "U8": wire.FU8, "F4": wire.FF4, "F8": wire.FF8, "B1": wire.FB, "BOOLEAN1": wire.FBOOL}
	for _, k := range ks {
		k := k
		depth := c.Q(3, 4)
		if k.b == nil {
			depth = 1
		}
		c.Case(fmt.Sprintf("elements of %s%d", k.name, k.width), bulk, func(x *X) {
			vrt.MaxPts(1 << 31)
			for l := 0; l <= depth; l++ {
				idx := make([]int, l)
				for {
					id := ""
					args := make([]interface{}, l)
					ok := k.b != nil
					var vars []string
					dup := map[string]bool{}
					var data []byte
					for i, j := range idx {
						e := els[j]
						id += " " + e.what
						args[i] = e.v
						switch {
						case e.name != "":
							if dup[e.name] {
								ok = false
							}
							dup[e.name] = true
							vars = append(vars, e.name)
						case !k.ok(e):
							ok = false
						case ok:
							data = append(data, k.b(e)...)
						}
					}
					x.Try("elements"+id, func() {
						x.Eval(fmt.Sprintf("%s%d%s", k.name, k.width, id), true)
						var it ast.ItemNode
						r := c07refuse(func() { it = k.mk(k.width, args...) })
						if ok != (r == "") {
							x.Bad("elements", "%q", r)
						}
						if r != "" {
							return
						}
						if it.Size() != l || fmt.Sprint(it.Variables()) != fmt.Sprint(vars) {
							x.Bad("elements", "size %d, variables %v", it.Size(), it.Variables())
						}
						var want []byte
						if len(vars) == 0 {
							want = (&wire.Item{F: names[fmt.Sprint(k.name, k.width)], Data: data}).Encode()
						}
						if string(it.ToBytes()) != string(want) {
							x.Bad("bytes", "%x", it.ToBytes())
						}
					})
					p := l - 1
					for p >= 0 {
						idx[p]++
						if idx[p] < len(els) {
							break
						}
						idx[p] = 0
						p--
					}
					if p < 0 {
						break
					}
				}
			}
		})
	}
	for _, f := range []int{wire.FB, wire.FBOOL, wire.FI1, wire.FI2, wire.FI4, wire.FI8, wire.FU1, wire.FU2, wire.FU4, wire.FU8, wire.FF4, wire.FF8} {
		f := f
		c.Case("values of "+wire.Name(f), bulk, func(x *X) {
			vrt.MaxPts(1 << 31)
			for _, v := range scalars() {
				for pos := 0; pos < 3; pos++ {
					b, must := scalarWant(f, v)
					id := fmt.Sprintf("%T %v at %d", v, v, pos)
					x.Try(id, func() {
						x.Eval(wire.Name(f)+" "+id, true)
						args := []interface{}{0, 0, 0}
						data := make([]byte, 3*elw(f))
						if f == wire.FBOOL {
							args = []interface{}{false, false, false}
						}
						args[pos] = v
						copy(data[pos*elw(f):], b)
						var it ast.ItemNode
						r := c07refuse(func() {
							switch w := elw(f); f {
							case wire.FB:
								it = ast.NewBinaryNode(args...)
							case wire.FBOOL:
								it = ast.NewBooleanNode(args...)
							case wire.FF4, wire.FF8:
								it = ast.NewFloatNode(w, args...)
							case wire.FI1, wire.FI2, wire.FI4, wire.FI8:
								it = ast.NewIntNode(w, args...)
							default:
								it = ast.NewUintNode(w, args...)
							}
						})
						if must == 1 && r != "" || must == -1 && r == "" {
							x.Bad("value", "%q", r)
						}
						if r == "" && string(it.ToBytes()) != string((&wire.Item{F: f, Data: data}).Encode()) {
							x.Bad("bytes", "%x, want %x", it.ToBytes(), data)
						}
					})
				}
			}
		})
	}
	c.Case("binary literals", bulk, func(x *X) {
		vrt.MaxPts(1 << 31)
		level := []string{""}
		for n := 0; n <= 9; n++ {
			for _, s := range level {
				id := "0b" + s
				x.Try(id, func() {
					x.Eval(id, true)
					ok := s != "" && strings.Trim(s, "01") == ""
					v := 0
					for _, ch := range s {
						v = 2*v + int(ch-'0')
					}
					ok = ok && v < 256
					var it, fi ast.ItemNode
					r := c07refuse(func() { it = ast.NewBinaryNode(id) })
					q := c07refuse(func() {
						fi = ast.NewBinaryNode("v").FillVariables(map[string]interface{}{"v": id})
					})
					if ok != (r == "") || ok != (q == "") {
						x.Bad("literal", "%q, %q: %v, %v", r, q, it, fi)
					}
					if ok && (string(it.ToBytes()) != string([]byte{0x21, 1, byte(v)}) || string(fi.ToBytes()) != string([]byte{0x21, 1, byte(v)})) {
						x.Bad("literal", "%v, %v", it, fi)
					}
				})
			}
			var next []string
			for _, s := range level {
				al := "01"
				if n < 3 {
					al = "0128a- "
				}
				for _, ch := range al {
					next = append(next, s+string(ch))
				}
			}
			level = next
		}
	})
}

// c41lists: lists of items, variables and ellipses.
func c41lists(c *C) {
	type el struct {
		what string
		v    func() interface{}
		vars []string
		ell  bool // ellipsis of this list
		bad  bool
		w    *wire.Item
	}
	it := func(f func() ast.ItemNode) func() interface{} { return func() interface{} { return f() } }
	str := func(s string) func() interface{} { return func() interface{} { return s } }
	L := ast.NewListNode
	els := []el{
		{"U1", it(func() ast.ItemNode { return ast.NewUintNode(1, 1) }), nil, false, false, wire.U(1, 1)},
		{"empty item", it(ast.NewEmptyItemNode), nil, false, false, wire.L()},
		{"list", it(func() ast.ItemNode { return L(ast.NewASCIINode("x")) }), nil, false, false, wire.L(wire.A("x"))},
		{"variable a", str("a"), []string{"a"}, false, false, nil},
		{"variable b", str("b"), []string{"b"}, false, false, nil},
		{"A a", it(func() ast.ItemNode { return ast.NewASCIINodeVariable("a", 0, -1) }), []string{"a"}, false, false, nil},
		{"U1 a b", it(func() ast.ItemNode { return ast.NewUintNode(1, "a", 3, "b") }), []string{"a", "b"}, false, false, nil},
		{"list c a", it(func() ast.ItemNode { return L("c", L("a")) }), []string{"c", "a"}, false, false, nil},
		{"list with dots", it(func() ast.ItemNode { return L(L(), "...") }), []string{"..."}, false, false, nil},
		{"dots", str("..."), []string{"..."}, true, false, nil},
		{"dots 0", str("...[0]"), []string{"...[0]"}, true, false, nil},
		{"list with dots 0", it(func() ast.ItemNode { return L("d", "...[0]") }), []string{"d", "...[0]"}, false, false, nil},
		{"bad name", str("a b"), nil, false, true, nil},
		{"int", func() interface{} { return 1 }, nil, false, true, nil},
		{"nil", func() interface{} { return nil }, nil, false, true, nil},
		{"slice", func() interface{} { return []ast.ItemNode{L()} }, nil, false, true, nil},
		{"strings", func() interface{} { return []string{"a"} }, nil, false, true, nil},
	}
	depth := c.Q(4, 5)
	for first := -1; first < len(els); first++ {
		first := first
		name := "lists"
		if first >= 0 {
			name = "lists from " + els[first].what
		}
		c.Case(name, bulk, func(x *X) {
			vrt.MaxPts(1 << 31)
			var rec func(seq []int)
			rec = func(seq []int) {
				id := "list of"
				ok := true
				ells := 0
				dup := map[string]bool{}
				var vars []string
				w := wire.L()
				for i, j := range seq {
					e := els[j]
					id += " " + e.what
					ok = ok && !e.bad
					if e.ell {
						ells++
						ok = ok && i > 0 && ells < 2
					}
					for _, v := range e.vars {
						ok = ok && !dup[v]
						dup[v] = true
						vars = append(vars, v)
					}
					w.L = append(w.L, e.w)
				}
				x.Try(id, func() {
					x.Eval(id, true)
					args := make([]interface{}, len(seq))
					for i, j := range seq {
						args[i] = els[j].v()
					}
					var n ast.ItemNode
					r := c07refuse(func() { n = L(args...) })
					if ok != (r == "") {
						x.Bad("list", "%q", r)
					}
					if r != "" {
						return
					}
					if n.Size() != len(seq) || fmt.Sprint(n.Variables()) != fmt.Sprint(vars) {
						x.Bad("list", "size %d, variables %v", n.Size(), n.Variables())
					}
					var want []byte
					if len(vars) == 0 {
						want = w.Encode()
					}
					if string(n.ToBytes()) != string(want) {
						x.Bad("bytes", "%x", n.ToBytes())
					}
					// put into another list it is refused exactly if it repeats one of
					// its variables there
					if len(vars) > 0 {
						for _, v := range []string{"a", "zz"} {
							r := c07refuse(func() { L(L(), v, n) })
							if dup[v] != (r != "") {
								x.Bad("nested", "beside %s: %q", v, r)
							}
						}
					}
				})
				if len(seq) == depth || len(seq) == 0 {
					return
				}
				for j := range els {
					rec(append(append([]int{}, seq...), j))
				}
			}
			if first < 0 {
				rec(nil)
			} else {
				rec([]int{first})
			}
		})
	}
}
