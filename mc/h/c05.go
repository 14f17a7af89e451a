package h

import (
	"fmt"
	"os"
	"regexp"
	"strings"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/sml"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C05", Level: "exploration", Budget: [2]int{150, 800},
		Rule: "every enumerated message (item trees, strings, templates, headers, names) is printed and parsed; the result is compared with the reference item through the public methods and byte for byte; non-trivial: distinct message",
		Run:  c05})
}

var devNull, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)

// quietly runs f with standard output discarded (the parser prints what it
// reads).
func quietly(f func()) {
	o := os.Stdout
	os.Stdout = devNull
	defer func() { os.Stdout = o }()
	f()
}

func smlParse(in string) (ms []*ast.DataMessage, errs, warns []string) {
	vrt.MaxPts(4000000 + 20000*len(in) + 40*len(in)*len(in))
	quietly(func() { ms, errs, warns = sml.Parse(in) })
	return
}

var dirs = []string{"H->E", "H<-E", "H<->E"}
var waits = []string{"false", "true", "optional"}

func c05one(x *X, name string, s, f, w int, dir string, t *tm) {
	id := fmt.Sprintf("%q S%dF%d w%d %s %v", name, s, f, w, dir, t)
	x.Try(id, func() {
		vrt.MaxPts(1 << 31)
		m := ast.NewDataMessage(name, s, f, w, dir, t.node())
		text := m.String()
		if again := m.String(); again != text {
			x.Bad("print-unstable", "printed %q then %q", text, again)
		}
		ms, errs, warns := smlParse(text)
		x.Eval(id, true)
		if len(errs) != 0 || len(warns) != 0 {
			x.Bad("not-parsed", "text %q gives errors %q warnings %q", trunc(text, 300), errs, warns)
		}
		if len(ms) != 1 {
			x.Bad("message-count", "text %q gives %d messages", trunc(text, 300), len(ms))
		}
		p := ms[0]
		if p.Name() != name || p.StreamCode() != s || p.FunctionCode() != f || p.WaitBit() != waits[w] || p.Direction() != dir {
			x.Bad("header", "text %q gives %q S%dF%d %s %s", trunc(text, 300), p.Name(), p.StreamCode(), p.FunctionCode(), p.WaitBit(), p.Direction())
		}
		n, err := p.Get()
		if err != nil {
			x.Bad("item", "Get: %v", err)
		}
		if d := t.same(n); d != "" {
			x.Bad("item", "text %q gives %s", trunc(text, 300), d)
		}
		if again := p.String(); again != text {
			x.Bad("print-differs", "text %q, printed after parsing %q", trunc(text, 300), trunc(again, 300))
		}
	})
}

// scalarTemplates lists every scalar template of 1..n elements over values
// and variables.
func scalarTemplates(n int) []*tm {
	var out []*tm
	for _, f := range wire.AllFormats {
		if f == wire.FL || f == wire.FA {
			continue
		}
		for k := 1; k <= n; k++ {
			for mask := 0; mask < 1<<k; mask++ {
				t := &tm{f: f}
				for i := 0; i < k; i++ {
					e := tv{b: elemVal(f, 20+i, i == 1)}
					if mask>>i&1 == 1 {
						e = tv{v: fmt.Sprintf("v%d", i)}
					}
					t.el = append(t.el, e)
				}
				out = append(out, t)
			}
		}
	}
	return out
}

func asciiTemplates() []*tm {
	var out []*tm
	for _, r := range [][2]int{{0, -1}, {0, 0}, {0, 3}, {2, 2}, {2, -1}, {1, 4}, {10, 12}} {
		out = append(out, &tm{f: wire.FA, av: "av", min: r[0], max: r[1]})
	}
	return out
}

// varNames holds variable names of every shape of the naming rule.
var varNames = []string{"x", "X", "_", "_a", "__", "Name9", "a_b_C", "x[0]", "x[0][1]", "x[12][345]", "LL", "A1", "F44", "TRUE", "t1", "Tx", "BOOLEANS", "U16", "W", "S1F1", "H", "e", "E5", "x0x1", "_0"}

// renamed gives t a new name for each variable, taken from names in turn.
func renamed(t *tm, names []string, at int) *tm {
	i := at
	var walk func(*tm) *tm
	walk = func(u *tm) *tm {
		o := *u
		next := func() string { i++; return names[(i-1)%len(names)] }
		if u.av != "" {
			o.av = next()
		}
		o.el, o.kids = nil, nil
		for _, e := range u.el {
			if e.v != "" {
				e.v = next()
			}
			o.el = append(o.el, e)
		}
		for _, k := range u.kids {
			if k.t != nil {
				k.t = walk(k.t)
			} else if !k.ell() {
				k.v = next()
			}
			o.kids = append(o.kids, k)
		}
		return &o
	}
	return walk(t)
}

// listTemplates lists lists of up to width elements over complete items,
// variables and the given templates (renamed so that names are unique).
func listTemplates(width int, pool []tk, f func(*tm)) {
	idx := make([]int, width)
	for n := 0; n <= width; n++ {
		for i := range idx {
			idx[i] = 0
		}
		for {
			l := &tm{f: wire.FL}
			for i := 0; i < n; i++ {
				k := pool[idx[i]]
				sfx := string(rune('a' + i))
				if k.t != nil {
					k.t = k.t.suffix(sfx)
				} else {
					k.v += sfx
				}
				l.kids = append(l.kids, k)
			}
			f(l)
			i := n - 1
			for i >= 0 {
				idx[i]++
				if idx[i] < len(pool) {
					break
				}
				idx[i] = 0
				i--
			}
			if i < 0 {
				break
			}
		}
	}
}

// headerWord matches a word that is itself another element of the header.
var headerWord = regexp.MustCompile(`^(?i:W|\[W\]|S\d+F\d+|H(->|<-|<->)E)$`)

func c05(c *C) {
	leaves := leafItems()
	const per = 40
	for i := 0; i < len(leaves); i += per {
		i := i
		c.Case(fmt.Sprintf("leaves %d", i), bulk, func(x *X) {
			for j := i; j < i+per && j < len(leaves); j++ {
				c05one(x, "", 1, 3, 1, "H->E", tmOf(leaves[j]))
				c05one(x, "Leaf", 127, 254, 2, "H<-E", tmOf(wire.L(leaves[j])))
				c05one(x, "Leaf", 127, 254, 0, "H<->E", tmOf(wire.L(wire.A("x"), leaves[j], wire.L(leaves[(j*7+3)%len(leaves)]))))
			}
		})
	}
	// strings
	for a := 0; a < 128; a++ {
		a := a
		c.Case(fmt.Sprintf("strings %#x", a), bulk, func(x *X) {
			for b := 0; b < 128; b++ {
				c05one(x, "", 1, 1, 0, "H->E", tmOf(wire.A(string([]byte{byte(a), byte(b)}))))
			}
		})
	}
	chars := []byte{'"', '\\', ' ', '/', '<', '>', '.', '0', 'x', 'n', '\n', '\t', '\'', 0x7f, 'T', '[', '\r'}
	for a := range chars {
		a := a
		c.Case(fmt.Sprintf("structured strings %d", a), bulk, func(x *X) {
			n := c.Q(3, 4)
			seqs(len(chars), n-1, func(s []int) {
				b := []byte{chars[a]}
				for _, i := range s {
					b = append(b, chars[i])
				}
				c05one(x, "", 1, 1, 0, "H->E", tmOf(wire.A(string(b))))
			})
		})
	}
	for _, n := range []int{0, 1, 254, 255, 256, 257, 1000, 65535, 65536} {
		n := n
		c.Case(fmt.Sprintf("long string %d", n), bulk, func(x *X) {
			for _, unit := range []string{"a", "// ", "\x01", "ab\"", "\\"}[:map[bool]int{true: 5, false: 2}[n <= 1000]] {
				c05one(x, "", 1, 1, 0, "H->E", tmOf(wire.A(strings.Repeat(unit, n/len(unit)+1)[:n])))
			}
		})
	}
	// trees
	small := smallLeaves()
	var ts []*wire.Item
	trees(1, 2, small, func(t *wire.Item) { ts = append(ts, t) })
	trees(2, c.Q(1, 2), small[:c.Q(21, 12)], func(t *wire.Item) { ts = append(ts, t) })
	trees(3, c.Q(2, 2), []*wire.Item{wire.U(1, 5)}, func(t *wire.Item) { ts = append(ts, t) })
	trees(c.Q(5, 7), 1, small[:6], func(t *wire.Item) { ts = append(ts, t) })
	batch(c, "trees", len(ts), 200, func(x *X, i int) {
		c05one(x, "Tree", 6, 11, i%2, dirs[i%3], tmOf(ts[i]))
	})
	for _, n := range textSizes {
		if n > c.Q(1025, 5000) {
			continue
		}
		n := n
		c.Case(fmt.Sprintf("size %d", n), bulk, func(x *X) { c05size(x, n) })
	}
	for _, d := range []int{10, 32, 33, 50, 64, 65, 100, 128, 129, 256, 257, 400} {
		d := d
		c.Case(fmt.Sprintf("deep %d", d), bulk, func(x *X) {
			it := wire.L(wire.A("x"))
			for i := 0; i < d; i++ {
				it = wire.L(it)
			}
			c05one(x, "", 1, 1, 0, "H->E", tmOf(it))
		})
	}
	// headers
	for s := 0; s < 128; s++ {
		s := s
		c.Case(fmt.Sprintf("headers S%d", s), bulk, func(x *X) {
			for f := 0; f < 256; f++ {
				for w := 0; w < 3; w++ {
					if w == 1 && f%2 == 0 {
						continue
					}
					if f%32 != s%32 && w != f%3 {
						continue
					}
					for d, dir := range dirs {
						if f%32 != s%32 && d != (f+s)%3 {
							continue
						}
						c05one(x, "", s, f, w, dir, nil)
						if f%8 == s%8 {
							c05one(x, "Name", s, f, w, dir, nil)
							c05one(x, "Name", s, f, w, dir, tmOf(wire.U(1, 1)))
						}
					}
				}
			}
		})
	}
	// names: everything that can be written as one word of a header
	nameOK := func(n string) bool {
		return n != "" && n[0] != '<' && n[0] != '.' && !strings.Contains(n, "//") && !headerWord.MatchString(n)
	}
	var names []string
	for b := 33; b < 127; b++ {
		names = append(names, string(rune(b)))
	}
	al := []string{"W", "w", "S", "s", "F", "f", "1", "H", "E", "-", "<", ">", ".", "/", "[", "]", "_", "é", "語", "\""}
	seqs(len(al), 2, func(s []int) { names = append(names, al[s[0]]+al[s[1]]) })
	seqs(len(al), 3, func(s []int) { names = append(names, al[s[0]]+al[s[1]]+al[s[2]]) })
	names = append(names, "WaferMap", "W", "[W]", "S1F1", "S1F1x", "H->E", "H<->Ex", "w", "s99f99", "AreYouThere", "name.", "a/b", "x<y>")
	batch(c, "names", len(names), 300, func(x *X, i int) {
		if !nameOK(names[i]) {
			return
		}
		c05one(x, names[i], 1, 1, i%3, dirs[i%3], nil)
		if i%4 == 0 {
			c05one(x, names[i], 2, 2, 0, dirs[i%3], tmOf(wire.L(wire.A("b"))))
		}
	})
	// variables named like a keyword of SML
	c.Case("keyword variable", bulk, func(x *X) {
		for _, k := range []string{"T", "F", "t", "L", "A", "b", "BOOLEAN", "F4", "f8", "I1", "u2", "U8"} {
			c05one(x, "", 1, 1, 0, "H->E", &tm{f: wire.FBOOL, el: []tv{{v: k}}})
			c05one(x, "", 1, 1, 0, "H->E", &tm{f: wire.FA, av: k, max: -1})
			c05one(x, "", 1, 1, 0, "H->E", &tm{f: wire.FL, kids: []tk{{v: k}}})
		}
	})
	// templates
	var tps []*tm
	st := scalarTemplates(3)
	tps = append(tps, st...)
	tps = append(tps, asciiTemplates()...)
	for i, t := range scalarTemplates(2) {
		for j := range varNames {
			if i%len(varNames) == j || t.f == wire.FB || t.f == wire.FBOOL {
				tps = append(tps, renamed(t, varNames, j))
			}
		}
	}
	for j := range varNames {
		for _, t := range asciiTemplates() {
			tps = append(tps, renamed(t, varNames, j))
		}
		tps = append(tps, &tm{f: wire.FL, kids: []tk{{v: varNames[j]}}})
	}
	pool := []tk{{v: "y"}, {t: tmOf(wire.U(1, 7))}, {t: tmOf(wire.A("t"))}, {t: &tm{f: wire.FA, av: "s", min: 1, max: 5}},
		{t: &tm{f: wire.FU2, el: []tv{{b: []byte{1, 2}}, {v: "u"}}}}, {t: &tm{f: wire.FB, el: []tv{{v: "b"}, {b: []byte{255}}, {v: "c"}}}},
		{t: &tm{f: wire.FL, kids: []tk{{v: "z"}}}}, {t: tmOf(wire.L())}, {t: &tm{f: wire.FL, kids: []tk{{t: &tm{f: wire.FBOOL, el: []tv{{v: "q"}}}}, {v: "r"}}}},
		{t: &tm{f: wire.FF4, el: []tv{{v: "f"}}}}, {t: &tm{f: wire.FI8, el: []tv{{v: "i"}, {b: make([]byte, 8)}}}}}
	listTemplates(c.Q(3, 4), pool, func(t *tm) { tps = append(tps, t) })
	batch(c, "templates", len(tps), 100, func(x *X, i int) {
		c05one(x, "T", 1, 1, i%3, dirs[i%3], tps[i])
	})
}

// c05size: items of n elements, texts, names and indices of that size, and
// lists with n ellipses.
func c05size(x *X, n int) {
	one := func(t *tm) { c05one(x, "", 1, 3, n%3, dirs[n%3], t) }
	for _, f := range wire.AllFormats {
		one(tmOf(sized(f, n)))
		one(tmOf(wire.L(sized(f, n), wire.A("end"))))
	}
	c05one(x, longText(n, "N"), 1, 1, 0, "H->E", tmOf(wire.A(longText(n, "a\n\"b"))))
	one(&tm{f: wire.FA, av: longText(n, "v"), min: n, max: n})
	one(&tm{f: wire.FA, av: "v", min: n, max: -1})
	one(&tm{f: wire.FA, av: "v", min: 0, max: n})
	one(&tm{f: wire.FU2, el: []tv{{v: fmt.Sprintf("v[%d][%d]", n, n-1)}, {b: []byte{1, 2}}, {v: longText(n, "w")}}})
	one(&tm{f: wire.FL, kids: []tk{{v: longText(n, "w") + "[0]"}, {t: tmOf(wire.U(1, 7))}}})
	if n > 300 {
		return
	}
	vs, es := &tm{f: wire.FU4}, &tm{f: wire.FL}
	for i := 0; i < n; i++ {
		vs.el = append(vs.el, tv{v: fmt.Sprintf("v[%d]", i)})
		es.kids = append(es.kids, tk{t: &tm{f: wire.FL, kids: []tk{{v: fmt.Sprintf("y%d", i)}, {v: fmt.Sprintf("...[%d]", i)}}}})
	}
	one(vs)
	one(es)
}

// bulk is for cases that evaluate many inputs.
var bulk = Opt{MaxSteps: 1 << 26}

// batch spreads n inputs over cases of size per.
func batch(c *C, name string, n, per int, f func(x *X, i int)) {
	for i := 0; i < n; i += per {
		i := i
		c.Case(fmt.Sprintf("%s %d", name, i), bulk, func(x *X) {
			for j := i; j < i+per && j < n; j++ {
				f(x, j)
			}
		})
	}
}

// seqs calls f with every sequence of length n over 0..k-1.
func seqs(k, n int, f func([]int)) {
	s := make([]int, n)
	for {
		f(s)
		i := n - 1
		for i >= 0 {
			s[i]++
			if s[i] < k {
				break
			}
			s[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}
