package h

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C06", Level: "exploration", Budget: [2]int{150, 800},
		Rule: "every enumerated text is parsed under a statement bound; texts whose meaning an independent reference grammar fixes must be accepted with exactly that content or refused with an error and no message; every accepted text must print and parse to itself; non-trivial: distinct text the reference grammar decides",
		Run:  c06})
}

// verdict of the reference for a text or a part of it.
const (
	vOK     = iota
	vBad    // must give an error
	vUnspec // may be refused; if accepted, the content must be one of those given
)

func worse(a, b int) int {
	if a == vBad || b == vBad {
		return vBad
	}
	if a == vUnspec || b == vUnspec {
		return vUnspec
	}
	return vOK
}

// refMsg is a message of the reference.
type refMsg struct {
	name    string
	s, f, w int
	dir     string
	alts    []*tm // admissible bodies
	noDir   bool
}

// c06text parses one text and compares with the verdict.
func c06text(x *X, text string, verdict int, want []refMsg) {
	x.Try(fmt.Sprintf("%q", trunc(text, 400)), func() {
		before := allocated()
		ms, errs, _ := smlParse(text)
		x.Eval(text, verdict != vUnspec)
		if d := allocated() - before; d > uint64(4<<20+20000*len(text)+80*len(text)*len(text)) {
			x.Bad("allocation", "parsing %d bytes allocated %d bytes", len(text), d)
		}
		if len(errs) > 0 && len(ms) > 0 {
			x.Bad("error-and-message", "%d messages with errors %q", len(ms), errs)
		}
		for _, e := range errs {
			if !errShape.MatchString(e) {
				x.Bad("error-shape", "error text %q", e)
			}
		}
		if verdict == vBad {
			if len(errs) == 0 {
				x.Bad("silent", "accepted without an error as %v", ms)
			}
			return
		}
		if len(errs) > 0 {
			if verdict == vOK {
				x.Bad("refused", "valid text gives errors %q", errs)
			}
			return
		}
		if want != nil {
			if len(ms) != len(want) {
				x.Bad("message-count", "%d messages instead of %d", len(ms), len(want))
			}
			for i, r := range want {
				m := ms[i]
				if m.Name() != r.name || m.StreamCode() != r.s || m.FunctionCode() != r.f || m.WaitBit() != waits[r.w] || m.Direction() != r.dir {
					x.Bad("header", "message %d is %q S%dF%d %s %s", i, m.Name(), m.StreamCode(), m.FunctionCode(), m.WaitBit(), m.Direction())
				}
				n, err := m.Get()
				if err != nil {
					x.Bad("item", "Get: %v", err)
				}
				var ds []string
				for _, a := range r.alts {
					d := a.same(n)
					if d == "" {
						ds = nil
						break
					}
					ds = append(ds, d)
				}
				if ds != nil {
					x.Bad("item", "message %d: %s", i, strings.Join(ds, "; or "))
				}
			}
		}
		// What was accepted means the same when printed and read again.
		for i, m := range ms {
			printed := m.String()
			again, errs2, _ := smlParse(printed)
			if len(errs2) != 0 || len(again) != 1 || again[0].String() != printed {
				x.Bad("reprint", "message %d prints as %q, which gives %v %q", i, trunc(printed, 200), again, errs2)
			}
		}
	})
}

var errShape = regexp.MustCompile(`^Ln \d+, Col \d+: `)

// ---- reference values ----

var (
	reInt   = regexp.MustCompile(`^[+-]?(0[xX][0-9a-fA-F]+|0[bB][01]+|0[oO][0-7]+|0[0-7]*|[1-9][0-9]*)$`)
	reFloat = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
)

// refInt is the value of an integer literal.
func refInt(lit string) (*big.Int, bool) {
	if !reInt.MatchString(lit) {
		return nil, false
	}
	neg := false
	if lit[0] == '+' || lit[0] == '-' {
		neg = lit[0] == '-'
		lit = lit[1:]
	}
	base := 10
	l := strings.ToLower(lit)
	switch {
	case strings.HasPrefix(l, "0x"):
		base, l = 16, l[2:]
	case strings.HasPrefix(l, "0b"):
		base, l = 2, l[2:]
	case strings.HasPrefix(l, "0o"):
		base, l = 8, l[2:]
	case len(l) > 1 && l[0] == '0':
		base, l = 8, l[1:]
	}
	v := new(big.Int)
	for _, d := range l {
		n := int64(d - '0')
		if d >= 'a' {
			n = int64(d-'a') + 10
		}
		v.Mul(v, big.NewInt(int64(base)))
		v.Add(v, big.NewInt(n))
	}
	if neg {
		v.Neg(v)
	}
	return v, true
}

// refElem is the value of a numeric literal in an item of format f: the
// admissible encodings, and whether it must be accepted.
func refElem(f int, lit string) ([]byte, int) {
	switch f {
	case wire.FF4, wire.FF8:
		if reFloat.MatchString(lit) {
			r, ok := new(big.Float).SetPrec(4000).SetString(lit)
			if !ok {
				return nil, vUnspec
			}
			if f == wire.FF4 {
				v, _ := r.Float32()
				if math.IsInf(float64(v), 0) {
					return nil, vBad
				}
				if v == 0 && lit[0] == '-' {
					v = float32(math.Copysign(0, -1))
				}
				return wire.Fl(4, float64(v)).Data, vOK
			}
			v, _ := r.Float64()
			if math.IsInf(v, 0) {
				return nil, vBad
			}
			if v == 0 && lit[0] == '-' {
				v = math.Copysign(0, -1)
			}
			return wire.Fl(8, v).Data, vOK
		}
		if i, ok := refInt(lit); ok {
			v, _ := new(big.Float).SetInt(i).Float64()
			return wire.Fl(elw(f), v).Data, vUnspec
		}
		return nil, vBad
	}
	i, ok := refInt(lit)
	if !ok {
		return nil, vBad
	}
	w := elw(f)
	bits := uint(8 * w)
	v := vOK
	var lo, hi *big.Int
	switch f {
	case wire.FI1, wire.FI2, wire.FI4, wire.FI8:
		hi = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits-1), big.NewInt(1))
		lo = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), bits-1))
	default:
		lo = new(big.Int)
		hi = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1))
		if f == wire.FA {
			hi = big.NewInt(127)
		}
		if lit[0] == '+' || lit[0] == '-' {
			v = vUnspec
		}
	}
	if i.Cmp(lo) < 0 || i.Cmp(hi) > 0 {
		return nil, vBad
	}
	m := new(big.Int).And(i, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1)))
	b := m.Bytes()
	return append(make([]byte, w-len(b)), b...), v
}

// refString is the meaning of a quoted token: the admissible texts.
func refString(tok string) ([]string, int) {
	in := tok[1 : len(tok)-1]
	if strings.ContainsAny(in, "\r\n") {
		return nil, vBad
	}
	for i := 0; i < len(in); i++ {
		if in[i] >= 0x80 {
			return nil, vBad
		}
	}
	if !strings.Contains(in, `\`) {
		return []string{in}, vOK
	}
	alts := []string{in}
	if u, err := strconv.Unquote(tok); err == nil {
		for i := 0; i < len(u); i++ {
			if u[i] >= 0x80 {
				return alts, vUnspec
			}
		}
		alts = append(alts, u)
	}
	return alts, vUnspec
}

// ---- elements of an item text ----

type etok struct {
	txt  string
	kind byte // n number, t truth value, q quoted, v variable, e ellipsis, i item, x malformed
	item *tm  // for kind i
}

var sizeRe = regexp.MustCompile(`^\[(\d*)(\.\.)?(\d*)\]$`)

// refItem gives the meaning of "<TYPE size elements>".
func refItem(f int, size string, el []etok, used map[string]bool) ([]*tm, int) {
	v := vOK
	lo, hi := 0, -1
	if size != "" {
		m := sizeRe.FindStringSubmatch(size)
		if m == nil || m[1] == "" && m[3] == "" {
			return nil, vBad
		}
		big := func(s string) int {
			n, err := strconv.Atoi(s)
			if err != nil {
				return math.MaxInt
			}
			return n
		}
		if m[2] == "" {
			lo = big(m[1])
			hi = lo
		} else {
			if m[1] != "" {
				lo = big(m[1])
			}
			if m[3] != "" {
				hi = big(m[3])
			}
		}
	}
	dup := func(n string) bool {
		if used[n] {
			return true
		}
		used[n] = true
		return false
	}
	fits := func(n int) bool { return n >= lo && (hi < 0 || n <= hi) }
	switch f {
	case wire.FL:
		t := &tm{f: f}
		ell := 0
		for i, e := range el {
			switch e.kind {
			case 'i':
				if e.item == nil {
					return nil, vBad
				}
				for _, n := range e.item.vars() {
					if !strings.HasPrefix(n, "...") && dup(n) {
						return nil, vBad
					}
				}
				t.kids = append(t.kids, tk{t: e.item})
			case 'v':
				if dup(e.txt) {
					return nil, vBad
				}
				t.kids = append(t.kids, tk{v: e.txt})
			case 'e':
				if i == 0 || ell > 0 {
					return nil, vBad
				}
				ell++
				t.kids = append(t.kids, tk{v: "..."})
			default:
				return nil, vBad
			}
		}
		if ell > 0 && size != "" {
			if !fits(len(t.kids)) || !fits(len(t.kids)-1) {
				return []*tm{t}, vUnspec
			}
		} else if !fits(len(t.kids)) {
			return nil, vBad
		}
		return []*tm{t}, v
	case wire.FA:
		for _, e := range el {
			if e.kind == 'v' {
				if len(el) > 1 || dup(e.txt) {
					return nil, vBad
				}
				if hi >= 0 && lo > hi {
					return nil, vBad
				}
				if lo == math.MaxInt || hi == math.MaxInt {
					return []*tm{{f: f, av: e.txt, min: lo, max: hi}}, vUnspec
				}
				return []*tm{{f: f, av: e.txt, min: lo, max: hi}}, v
			}
		}
		alts := []string{""}
		for _, e := range el {
			var more []string
			switch e.kind {
			case 'q':
				ss, w := refString(e.txt)
				if w == vBad {
					return nil, vBad
				}
				v = worse(v, w)
				more = ss
			case 'n':
				b, w := refElem(f, e.txt)
				if w == vBad {
					return nil, vBad
				}
				v = worse(v, w)
				more = []string{string(b)}
			default:
				return nil, vBad
			}
			var next []string
			for _, a := range alts {
				for _, m := range more {
					next = append(next, a+m)
				}
			}
			alts = next
		}
		var out []*tm
		for _, a := range alts {
			if fits(len(a)) {
				out = append(out, &tm{f: f, s: a})
			} else {
				v = worse(v, vUnspec)
			}
		}
		if len(out) == 0 {
			return nil, vBad
		}
		return out, v
	}
	t := &tm{f: f}
	for _, e := range el {
		switch {
		case e.kind == 'v':
			if dup(e.txt) {
				return nil, vBad
			}
			t.el = append(t.el, tv{v: e.txt})
		case e.kind == 't' && f == wire.FBOOL:
			b := byte(0)
			if strings.EqualFold(e.txt, "t") {
				b = 1
			}
			t.el = append(t.el, tv{b: []byte{b}})
		case e.kind == 'n' && f != wire.FBOOL:
			b, w := refElem(f, e.txt)
			if w == vBad {
				return nil, vBad
			}
			v = worse(v, w)
			t.el = append(t.el, tv{b: b})
		default:
			return nil, vBad
		}
	}
	if !fits(len(t.el)) {
		return nil, vBad
	}
	return []*tm{t}, v
}

// elems is the pool of element tokens.
func elems() []etok {
	var out []etok
	for _, n := range []string{"0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "+7", "-0",
		"32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649",
		"4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
		"18446744073709551615", "18446744073709551616", "99999999999999999999999",
		"0x7F", "0X80", "0xff", "0x100", "-0x80", "0b1", "0B11111111", "0b100000000", "0o17", "0O777", "017", "0377", "0400", "08", "00",
		"1.5", "1.0", "1.", ".5", "-2.25", "1e3", "1E+3", "1e-3", "3.4028234663852886e38", "3.5e38", "-3.5e38", "1.7976931348623157e308", "1.8e308", "1e-50", "1e-400", "0.1", "16777217",
		"340282356779733661637539395458142568447", "340282356779733661637539395458142568448"} {
		out = append(out, etok{txt: n, kind: 'n'})
	}
	for _, n := range []string{"+", "-", "0x", "0b", "1e", "1e+", "12ab", "0b2", "0xG", "1_0", "--1", "0o8", "1x", "0b1.", "0x1.8", "@", "'a'", "[", "]", "[2]", "é", "-.", "\\"} {
		out = append(out, etok{txt: n, kind: 'x'})
	}
	for _, n := range []string{"T", "F", "t", "f"} {
		out = append(out, etok{txt: n, kind: 't'})
	}
	for _, n := range []string{`""`, `"a"`, `"ab c"`, `"//x"`, `"<.>"`, `"é"`, `"\n"`, `"\q"`, `"\"`, `"\\"`, `"\x41"`, `"\xff"`, `"\u0041"`, "\"a\nb\"", "\"\nb\"", "\"\r\"", `"x[0]"`, `"\'"`} {
		out = append(out, etok{txt: n, kind: 'q'})
	}
	out = append(out, etok{txt: `"open`, kind: 'x'})
	for _, n := range []string{"v", "v2", "_x[3]", "inf", "NaN", "Ux", "true"} {
		out = append(out, etok{txt: n, kind: 'v'})
	}
	for _, n := range []string{"..."} {
		out = append(out, etok{txt: n, kind: 'e'})
	}
	out = append(out,
		etok{txt: "<U1 1>", kind: 'i', item: tmOf(wire.U(1, 1))},
		etok{txt: "<L>", kind: 'i', item: tmOf(wire.L())},
		etok{txt: `<A "z">`, kind: 'i', item: tmOf(wire.A("z"))},
		etok{txt: "<B v>", kind: 'i', item: &tm{f: wire.FB, el: []tv{{v: "v"}}}},
		etok{txt: "<A[1..2] w>", kind: 'i', item: &tm{f: wire.FA, av: "w", min: 1, max: 2}},
		etok{txt: "<L w2 ...>", kind: 'i', item: &tm{f: wire.FL, kids: []tk{{v: "w2"}, {v: "..."}}}},
		etok{txt: "<U1 256>", kind: 'i'},
		etok{txt: "<U3 1>", kind: 'i'},
		etok{txt: "<>", kind: 'i'},
		etok{txt: "<U1 1", kind: 'x'},
		etok{txt: "<X 1>", kind: 'i'},
		etok{txt: "<\"a\">", kind: 'i'},
		etok{txt: "<L[2] <B>>", kind: 'i'},
		etok{txt: "S1F1", kind: 'v'},
		etok{txt: "L", kind: 'x'}, etok{txt: "U4", kind: 'x'}, etok{txt: "a", kind: 'x'}, etok{txt: ".", kind: 'x'}, etok{txt: "W", kind: 'v'})
	return out
}

var sizes = []string{"", "[0]", "[1]", "[2]", "[3]", "[0..1]", "[1..]", "[..1]", "[2..3]", "[1..0]", "[ 1 .. 2 ]", "[99999999999999999999]", "[0..99999999999999999999]", "[200000000]", "[]", "[..]", "[-1]", "[1", "[x]", "[1...2]", "[1,2]"}

func typeName(f int) string { return wire.Name(f) }

func c06item(x *X, f int, size string, el []etok, used map[string]bool) {
	sz := strings.NewReplacer(" ", "").Replace(size)
	parts := []string{}
	for _, e := range el {
		parts = append(parts, e.txt)
	}
	text := "S1F1 W H->E\n<" + typeName(f) + size + " " + strings.Join(parts, " ") + ">."
	if size == "" && len(el) > 0 && el[0].txt == "[2]" {
		return // that is a size
	}
	for _, e := range el {
		// an item after "L" or a number glued to an unclosed token changes
		// where the item ends; the reference only decides whole tokens
		if e.kind == 'x' && (e.txt == "." || e.txt == "<U1 1" || e.txt == `"open`) {
			c06text(x, text, vBad, nil)
			return
		}
	}
	alts, v := refItem(f, sz, el, used)
	var want []refMsg
	if v != vBad {
		want = []refMsg{{"", 1, 1, 1, "H->E", alts, false}}
	}
	c06text(x, text, v, want)
}

func c06(c *C) {
	es := elems()
	for _, f := range wire.AllFormats {
		f := f
		// one element, every size bracket
		c.Case("one "+typeName(f), bulk, func(x *X) {
			for _, sz := range sizes {
				c06item(x, f, sz, nil, map[string]bool{})
				for _, e := range es {
					c06item(x, f, sz, []etok{e}, map[string]bool{})
				}
			}
		})
		// two elements
		for i, a := range es {
			i, a := i, a
			if i%8 == 0 {
				c.Case(fmt.Sprintf("two %s %d", typeName(f), i), bulk, func(x *X) {
					for _, a := range es[i:min(i+8, len(es))] {
						for _, b := range es {
							c06item(x, f, "", []etok{a, b}, map[string]bool{})
							if c.Thorough {
								c06item(x, f, "[2]", []etok{a, b}, map[string]bool{})
								c06item(x, f, "[1]", []etok{a, b}, map[string]bool{})
							}
						}
					}
				})
			}
			_ = a
		}
	}
	// three elements from a smaller pool
	var sp []etok
	for _, e := range es {
		switch e.txt {
		case "1", "256", "1.5", "T", `"a"`, "v", "v2", "...", "<U1 1>", "<B v>", "<L w2 ...>", "+", "é", "0x41", "[2]":
			sp = append(sp, e)
		}
	}
	for _, f := range wire.AllFormats {
		f := f
		c.Case("three "+typeName(f), bulk, func(x *X) {
			seqs(len(sp), 3, func(s []int) {
				for _, sz := range []string{"", "[3]", "[0..2]"} {
					c06item(x, f, sz, []etok{sp[s[0]], sp[s[1]], sp[s[2]]}, map[string]bool{})
				}
			})
			if c.Thorough || f == wire.FL {
				seqs(len(sp), 4, func(s []int) {
					c06item(x, f, "", []etok{sp[s[0]], sp[s[1]], sp[s[2]], sp[s[3]]}, map[string]bool{})
				})
			}
		})
	}
	c06headers(c)
	c06layout(c)
	c06raw(c)
	c06mutants(c)
}

// ---- headers ----

type htok struct {
	txt  string
	kind byte // s stream/function, w wait, d direction, n name, b body, . end
	v    int
	s, f int
	w    int
}

func htoks() []htok {
	return []htok{
		{txt: "S1F1", kind: 's', s: 1, f: 1}, {txt: "s127f255", kind: 's', s: 127, f: 255}, {txt: "S0F0", kind: 's'},
		{txt: "S128F1", kind: 's', v: vBad}, {txt: "S1F256", kind: 's', v: vBad}, {txt: "S99999999999999999999F1", kind: 's', v: vBad}, {txt: "S1F99999999999999999999", kind: 's', v: vBad},
		{txt: "S6F12", kind: 's', s: 6, f: 12}, {txt: "S007F013", kind: 's', s: 7, f: 13},
		{txt: "W", kind: 'w', w: 1}, {txt: "w", kind: 'w', w: 1}, {txt: "[W]", kind: 'w', w: 2}, {txt: "[w]", kind: 'w', w: 2},
		{txt: "H->E", kind: 'd'}, {txt: "h<-e", kind: 'd'}, {txt: "H<->E", kind: 'd'},
		{txt: "Foo", kind: 'n'}, {txt: "é語", kind: 'n'}, {txt: "WaferMap", kind: 'N'}, {txt: "S1F1x", kind: 'N'},
		{txt: "<L>", kind: 'b'}, {txt: "<U1 300>", kind: 'b', v: vBad}, {txt: ".", kind: '.'}, {txt: ">", kind: 'x'}, {txt: "[", kind: 'x'},
	}
}

// refHeader decides a sequence of header tokens forming one or more messages.
func refHeader(ts []htok) ([]refMsg, int) {
	var out []refMsg
	v := vOK
	for i, t := range ts {
		if t.kind == 'N' && (i == 0 || ts[i-1].kind != 'd') {
			return nil, vUnspec // reads as other elements without spaces
		}
	}
	i := 0
	for i < len(ts) {
		m := refMsg{dir: "H<->E", noDir: true}
		if ts[i].kind != 's' || ts[i].v == vBad {
			return nil, vBad
		}
		m.s, m.f = ts[i].s, ts[i].f
		i++
		if i < len(ts) && ts[i].kind == 'w' {
			m.w = ts[i].w
			if m.w == 1 && m.f%2 == 0 {
				return nil, vBad
			}
			i++
		}
		if i < len(ts) && ts[i].kind == 'd' {
			m.dir = strings.ToUpper(ts[i].txt)
			m.noDir = false
			i++
		}
		if i < len(ts) && (ts[i].kind == 'n' || ts[i].kind == 'N') {
			m.name = ts[i].txt
			i++
		} else if i < len(ts) && ts[i].kind == 'x' {
			// a lone symbol would be a name
			return nil, vUnspec
		}
		m.alts = []*tm{nil}
		if i < len(ts) && ts[i].kind == 'b' {
			if ts[i].v == vBad {
				return nil, vBad
			}
			m.alts = []*tm{tmOf(wire.L())}
			i++
		}
		if i >= len(ts) || ts[i].kind != '.' {
			return nil, vBad
		}
		i++
		out = append(out, m)
	}
	return out, v
}

func c06headers(c *C) {
	hs := htoks()
	for i := range hs {
		i := i
		c.Case(fmt.Sprintf("headers %d", i), bulk, func(x *X) {
			one := func(ts []htok) {
				var p []string
				for _, t := range ts {
					p = append(p, t.txt)
				}
				want, v := refHeader(ts)
				c06text(x, strings.Join(p, " "), v, want)
			}
			one([]htok{hs[i]})
			depth := c.Q(2, 4)
			if hs[i].kind == 's' && hs[i].v == vOK && !c.Thorough {
				depth = 3
			}
			for n := 1; n <= depth; n++ {
				seqs(len(hs), n, func(s []int) {
					ts := []htok{hs[i]}
					for _, k := range s {
						ts = append(ts, hs[k])
					}
					one(ts)
				})
			}
			if hs[i].kind == 's' && hs[i].v == vOK {
				// valid headers with everything after them
				for _, w := range hs {
					for _, d := range hs {
						for _, n := range hs {
							for _, b := range hs {
								if (w.kind == 'w' || w.kind == 'd') && d.kind != 'b' {
									one([]htok{hs[i], w, d, n, b, {txt: ".", kind: '.'}})
								}
							}
						}
					}
				}
			}
		})
	}
	// several messages in one text: all or none
	msgs := []struct {
		txt string
		v   int
		m   refMsg
	}{
		{"S1F1 W H->E.", vOK, refMsg{"", 1, 1, 1, "H->E", []*tm{nil}, false}},
		{"S1F2 H<-E Online\n<L[1]\n  <A \"x\">\n>\n.", vOK, refMsg{"Online", 1, 2, 0, "H<-E", []*tm{tmOf(wire.L(wire.A("x")))}, false}},
		{"S6F11 W H<->E // c\n<U4 1 2> // d\n.", vOK, refMsg{"", 6, 11, 1, "H<->E", []*tm{tmOf(wire.U(4, 1, 2))}, false}},
		{"S6F11 <L v>.", vOK, refMsg{"", 6, 11, 0, "H<->E", []*tm{{f: wire.FL, kids: []tk{{v: "v"}}}}, true}},
		{"S6F11 W H->E <U1 v>.", vOK, refMsg{"", 6, 11, 1, "H->E", []*tm{{f: wire.FU1, el: []tv{{v: "v"}}}}, false}},
		{"S1F1 W H->E <U1 256>.", vBad, refMsg{}},
		{"S1F1 W H->E <U1 1>", vBad, refMsg{}},
		{"S1F2 W H->E.", vBad, refMsg{}},
		{"S200F1 H->E.", vBad, refMsg{}},
		{"S1F1 H->E <B[2] 1>.", vBad, refMsg{}},
		{"S1F1 H->E <L v v>.", vBad, refMsg{}},
		{"garbage", vBad, refMsg{}},
	}
	c.Case("several messages", bulk, func(x *X) {
		for n := 1; n <= c.Q(3, 4); n++ {
			seqs(len(msgs), n, func(s []int) {
				v := vOK
				var want []refMsg
				var p []string
				for _, k := range s {
					v = worse(v, msgs[k].v)
					want = append(want, msgs[k].m)
					p = append(p, msgs[k].txt)
				}
				if v != vOK {
					want = nil
				}
				for _, sep := range []string{"\n", ""} {
					if sep == "" && n > 2 {
						continue
					}
					c06text(x, strings.Join(p, sep), v, want)
				}
			})
		}
	})
}

// c06layout: white space and comments between tokens change nothing.
func c06layout(c *C) {
	type lay struct {
		toks []string
		m    refMsg
	}
	lays := []lay{
		{[]string{"S6F11", "W", "H->E", "Name", "<", "L", "[2]", "<", "U1", "1", "2", ">", "<", "A", `"//x"`, "0x41", ">", ">", "."},
			refMsg{"Name", 6, 11, 1, "H->E", []*tm{tmOf(wire.L(wire.U(1, 1, 2), wire.A("//xA")))}, false}},
		{[]string{"S1F3", "[W]", "H<-E", "<", "L", "v", "<", "F4", "1.5", ">", "...", ">", "."},
			refMsg{"", 1, 3, 2, "H<-E", []*tm{{f: wire.FL, kids: []tk{{v: "v"}, {t: tmOf(wire.Fl(4, 1.5))}, {v: "..."}}}}, false}},
		{[]string{"S1F1", "<", "BOOLEAN", "T", "F", "bb[0]", ">", "."},
			refMsg{"", 1, 1, 0, "H<->E", []*tm{{f: wire.FBOOL, el: []tv{{b: []byte{1}}, {b: []byte{0}}, {v: "bb[0]"}}}}, true}},
	}
	seps := []string{" ", "\n", "\t", "\r\n", " // c\n", "//\n", " // à\n", " // \u2003\r\n", " // \"<L>.\n", "  \t ", "\n// a\n// b\n", "\r"}
	for li, l := range lays {
		li, l := li, l
		c.Case(fmt.Sprintf("layout %d", li), bulk, func(x *X) {
			build := func(sep func(i int) string) string {
				var sb strings.Builder
				for i, t := range l.toks {
					sb.WriteString(sep(i))
					sb.WriteString(t)
				}
				sb.WriteString(sep(len(l.toks)))
				return sb.String()
			}
			for _, a := range seps {
				a := a
				c06text(x, build(func(int) string { return a }), vOK, []refMsg{l.m})
				for p := 0; p <= len(l.toks); p++ {
					p := p
					c06text(x, build(func(i int) string {
						if i == p {
							return a
						}
						return " "
					}), vOK, []refMsg{l.m})
					for _, b := range seps {
						b := b
						c06text(x, build(func(i int) string {
							if i == p {
								return a + b
							}
							if i == p+1 {
								return b
							}
							return " "
						}), vOK, []refMsg{l.m})
					}
				}
			}
		})
	}
}

// ---- raw texts ----

func c06raw(c *C) {
	al := []string{"S1F1", "W", "H->E", "<", ">", ".", "L", "A", "U1", "\"", "v", "...", "1", "[1]", "//", "\n", "-", " ", "\x00", "\xff", "é"}
	for i := range al {
		for j := range al {
			i, j := i, j
			if j%3 != 0 {
				continue
			}
			c.Case(fmt.Sprintf("raw %d %d", i, j), bulk, func(x *X) {
				for _, pre := range []string{"", "S1F1 W H->E <"} {
					for jj := j; jj < j+3 && jj < len(al); jj++ {
						p := pre + al[i] + al[jj]
						c06text(x, p, vUnspec, nil)
						for n := 1; n <= c.Q(2, 3); n++ {
							seqs(len(al), n, func(s []int) {
								t := p
								for _, k := range s {
									t += al[k]
								}
								c06text(x, t, vUnspec, nil)
							})
						}
					}
				}
			})
		}
	}
	for a := 0; a < 256; a++ {
		a := a
		c.Case(fmt.Sprintf("raw bytes %d", a), bulk, func(x *X) {
			c06text(x, string([]byte{byte(a)}), vUnspec, nil)
			c06text(x, "S1F1 <A "+string([]byte{byte(a)})+">.", vUnspec, nil)
			c06text(x, "S1F1 <A \""+string([]byte{byte(a)})+"\">.", vUnspec, nil)
			for b := 0; b < 256; b++ {
				c06text(x, "S1F1 H->E "+string([]byte{byte(a), byte(b)})+" .", vUnspec, nil)
				c06text(x, "S1F1 <B "+string([]byte{byte(a), byte(b)})+">.", vUnspec, nil)
			}
		})
	}
	for r := rune(0x80); r < 0x3100; r += 64 {
		r := r
		c.Case(fmt.Sprintf("letters %#x", r), bulk, func(x *X) {
			for q := r; q < r+64; q++ {
				for _, f := range []string{"S1F1 H->E %c.", "S1F1 H->E a%cb .", "%c S1F1 H->E .", "S1F1%cH->E .", "S1F1 // %c\n.", "S1F1 //%c", "S1F1 <A %c>.", "S1F1 <L // %c\n>."} {
					t := fmt.Sprintf(f, q)
					if strings.Contains(f, "\n") {
						m := refMsg{"", 1, 1, 0, "H<->E", []*tm{nil}, true}
						if strings.Contains(f, "L") {
							m.alts = []*tm{tmOf(wire.L())}
						}
						c06text(x, t, vOK, []refMsg{m})
					} else {
						c06text(x, t, vUnspec, nil)
					}
				}
			}
		})
	}
	for _, n := range []int{9, 10, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 1000} {
		n := n
		c.Case(fmt.Sprintf("long %d", n), bulk, func(x *X) {
			// the odd one is the first or the last of many, or in the middle
			for f, e := range map[string][2]string{"U1": {" 7", " 256"}, "U2": {" 7", " 65536"}, "U4": {" 7", " -1"}, "U8": {" 7", " 18446744073709551616"}, "I1": {" -7", " 128"}, "I2": {" 7", " -32769"},
				"I4": {" 7", " 2147483648"}, "I8": {" 7", " 1.5"}, "F4": {" 1.5", " 1e39"}, "F8": {" 1.5", " T"}, "B": {" 0b1", " 0x100"}, "BOOLEAN": {" T", " 1"}, "A": {" \"a\"", " 0x80"}, "L": {" <B 1>", " 1"}} {
				pre := "S1F1 H->E <" + f
				c06text(x, pre+strings.Repeat(e[0], n)+e[1]+">.", vBad, nil)
				c06text(x, pre+e[1]+strings.Repeat(e[0], n)+">.", vBad, nil)
				c06text(x, pre+strings.Repeat(e[0], n/2)+e[1]+strings.Repeat(e[0], n/2)+">.", vBad, nil)
				for _, d := range []int{-1, 1} {
					c06text(x, pre+fmt.Sprintf("[%d]", n+d)+strings.Repeat(e[0], n)+">.", vBad, nil)
				}
				c06text(x, pre+fmt.Sprintf("[%d..]", n+1)+strings.Repeat(e[0], n)+">.", vBad, nil)
				c06text(x, pre+fmt.Sprintf("[..%d]", n-1)+strings.Repeat(e[0], n)+">.", vBad, nil)
			}
			vs := ""
			for i := 0; i < n; i++ {
				vs += fmt.Sprintf(" v%d", i)
			}
			for _, k := range []int{0, n / 2, n - 1} {
				c06text(x, fmt.Sprintf("S1F1 H->E <U1%s v%d>.", vs, k), vBad, nil)
				c06text(x, fmt.Sprintf("S1F1 H->E <L%s <A v%d>>.", vs, k), vBad, nil)
			}
		})
	}
	c.Case("big", bulk, func(x *X) {
		nest := func(n int, in string) string {
			return "S1F1 H->E " + strings.Repeat("<L ", n) + in + strings.Repeat(">", n) + "."
		}
		for _, n := range []int{1, 10, 100, 300} {
			t := tmOf(wire.L())
			for i := 1; i < n; i++ {
				t = &tm{f: wire.FL, kids: []tk{{t: t}}}
			}
			c06text(x, nest(n, ""), vOK, []refMsg{{"", 1, 1, 0, "H->E", []*tm{t}, false}})
			c06text(x, nest(n, "1"), vBad, nil)
			c06text(x, nest(n, "")[:len(nest(n, ""))-2], vBad, nil)
		}
		c06text(x, "S1F1 H->E <L <A v> <A[200000000] v>>.", vBad, nil)
		c06text(x, "S1F1 H->E <L <A v> <A[900000000000000000] v>>.", vBad, nil)
		c06text(x, "S1F1 H->E <U1"+strings.Repeat(" 7", 3000)+">.", vOK, []refMsg{{"", 1, 1, 0, "H->E", []*tm{tmOf(wire.U(1, func() []uint64 {
			v := make([]uint64, 3000)
			for i := range v {
				v[i] = 7
			}
			return v
		}()...))}, false}})
	})
}

// c06mutants: every single-character deletion, duplication, substitution and
// every truncation of a corpus of valid texts.
func c06mutants(c *C) {
	corpus := []string{
		"S1F1 W H->E AreYouThere\n.",
		"S6F11 W H<-E\n<L[3]\n  <U4[1] 1>\n  <A \"CEID\">\n  <L[2]\n    <B[2] 0b1 0xFF>\n    <BOOLEAN[2] T F>\n  >\n>\n.",
		"S2F41 [W] H->E Cmd <L <A[1..5] rcmd> <L <A name> ...> v[0]>.",
		"S1F4 H<-E // c\n<L <F4 1.5 -2e3> <F8 0.1> <I1 -128> <I8 7>>\n.",
		"S10F3 <A \"a b\" 0x0A \"c\">.",
	}
	subs := []string{"<", ">", ".", "\"", "[", "]", "0", "9", "x", "-", " ", "/", "\\", "W", "\n", "é", "\xff", "e", ","}
	for k, t := range corpus {
		k, t := k, t
		for part := 0; part < len(t); part += 25 {
			part := part
			c.Case(fmt.Sprintf("mutants %d %d", k, part), bulk, func(x *X) {
				for i := part; i < part+25 && i < len(t); i++ {
					// a text that stops before the final '.' holds no message
					if strings.TrimSpace(t[:i]) != "" && strings.LastIndex(t, ".") >= i {
						v := vBad
						c06text(x, t[:i], v, nil)
					}
					c06text(x, t[:i]+t[i+1:], vUnspec, nil)
					c06text(x, t[:i]+t[i:i+1]+t[i:], vUnspec, nil)
					for _, s := range subs {
						c06text(x, t[:i]+s+t[i+1:], vUnspec, nil)
						c06text(x, t[:i]+s+t[i:], vUnspec, nil)
						if c.Thorough {
							for j := i + 1; j < len(t); j++ {
								for _, s2 := range subs[:8] {
									c06text(x, t[:i]+s+t[i+1:j]+s2+t[j+1:], vUnspec, nil)
								}
							}
						}
					}
				}
			})
		}
	}
}
