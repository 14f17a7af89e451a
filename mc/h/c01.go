package h

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"strings"

	"runtime/metrics"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	hp "github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C01", Level: "exploration", Budget: [2]int{150, 800},
		Rule: "every enumerated item tree and header is built with the constructors, encoded, compared byte for byte with an independent encoder, decoded and compared field by field; non-trivial: distinct message with a body or a distinct header",
		Run:  c01})
	register(&Check{ID: "C02", Level: "exploration", Budget: [2]int{150, 800},
		Rule: "every enumerated byte string is decoded under a statement bound and an allocation bound; an accepted string must be accepted, with the same content, by an independent decoder; non-trivial: distinct string with a consistent length field",
		Run:  c02})
	register(&Check{ID: "C04", Level: "exploration",
		Rule: "every control message kind, status/reason, session id and system bytes of the enumerated sets, and every builder applied to every incoming kind, against the E37 byte layout; non-trivial: distinct message",
		Run:  c04})
}

func sys4(v uint32) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, v)
	return b
}

func c01one(x *X, s, f, w, sess int, sys uint32, it *wire.Item, style int) {
	ref := wire.NewData(uint16(sess), s, f, w == 1, sys, it)
	id := fmt.Sprintf("S%dF%d W%d sess=%d sys=%08x style=%d %v", s, f, w, sess, sys, style, it)
	x.Try(id, func() {
		m := ast.NewHSMSDataMessage("", s, f, w, "H<->E", toNode(it, style), sess, sys4(sys))
		got := m.ToBytes()
		want := ref.Encode()
		if string(got) != string(want) {
			x.Bad("encode", "encoded %s, want %s", hexs(got), hexs(want))
		}
		p, ok := hp.Parse(got)
		if !ok {
			x.Bad("decode-fails", "Parse(%s) not ok", hexs(got))
		}
		d, isData := p.(*ast.DataMessage)
		if !isData {
			x.Bad("decode-kind", "Parse gives %T", p)
		}
		wb := map[int]string{0: "false", 1: "true"}[w]
		if d.StreamCode() != s || d.FunctionCode() != f || d.WaitBit() != wb || d.SessionID() != sess || string(d.SystemBytes()) != string(sys4(sys)) || d.Type() != "data message" {
			x.Bad("decode-header", "decoded S%dF%d %s sess=%d sys=%x", d.StreamCode(), d.FunctionCode(), d.WaitBit(), d.SessionID(), d.SystemBytes())
		}
		back, err := msgItem(d)
		if err != nil || !wire.Equal(back, it) {
			x.Bad("decode-item", "decoded %v (%v)", back, err)
		}
		if again := d.ToBytes(); string(again) != string(want) {
			x.Bad("reencode", "re-encoded %s", hexs(again))
		}
		x.Eval(id, true)
	})
}

func hexs(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%x...(%d bytes)", b[:80], len(b))
	}
	return hex.EncodeToString(b)
}

func c01(c *C) {
	// lengths around the boundaries of one, two and three length bytes
	lens := []int{0, 1, 2, 3, 126, 127, 128, 253, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 4095, 4096}
	big := []int{65534, 65535, 65536, 65537, 65792, 131072, 70000}
	if c.Thorough {
		big = append(big, 1<<20, 1<<24-1)
	}
	for _, f := range wire.AllFormats {
		w := wire.Width(f)
		if w == 0 {
			w = 1
		}
		seen := map[int]bool{}
		var ns []int
		ls := append(append([]int{}, lens...), big...)
		if f == wire.FA || f == wire.FB || f == wire.FU8 {
			ls = append(ls, 1<<24-1-(1<<24-1)%w)
		}
		for _, l := range ls {
			for _, n := range []int{l / w, l/w + 1} {
				if !seen[n] && n*w < 1<<24 {
					seen[n] = true
					ns = append(ns, n)
				}
			}
		}
		for _, n := range ns {
			f, n := f, n
			if f == wire.FL && n > 70000 {
				continue
			}
			c.Case(fmt.Sprintf("length %s[%d]", wire.Name(f), n), Opt{}, func(x *X) {
				vrt.MaxPts(1 << 31)
				it := sized(f, n)
				c01one(x, 6, 11, 1, 1, 77, it, 0)
				if n < 70000 {
					c01one(x, 6, 11, 0, 1, 77, wire.L(it, wire.A("after")), 1)
					c01one(x, 6, 12, 0, 1, 77, wire.L(wire.L(wire.B(1)), it, wire.L(it)), 0)
				}
			})
		}
	}
	// one element more than three length bytes can tell is refused
	for _, f := range wire.AllFormats {
		f := f
		c.Case("oversize "+wire.Name(f), Opt{}, func(x *X) {
			vrt.MaxPts(1 << 31)
			w := wire.Width(f)
			if w == 0 {
				w = 1
			}
			n := (1<<24-1)/w + 1
			made := func() (ok bool) {
				defer func() { recover() }()
				vals := make([]interface{}, n)
				var one interface{} = 1
				switch f {
				case wire.FL:
					one = ast.NewBinaryNode(1)
				case wire.FBOOL:
					one = true
				case wire.FF4, wire.FF8:
					one = 1.5
				}
				if f == wire.FA {
					ast.NewASCIINode(strings.Repeat("a", n))
					return true
				}
				for i := range vals {
					vals[i] = one
				}
				switch f {
				case wire.FL:
					ast.NewListNode(vals...)
				case wire.FB:
					ast.NewBinaryNode(vals...)
				case wire.FBOOL:
					ast.NewBooleanNode(vals...)
				case wire.FF4, wire.FF8:
					ast.NewFloatNode(w, vals...)
				case wire.FI1, wire.FI2, wire.FI4, wire.FI8:
					ast.NewIntNode(w, vals...)
				default:
					ast.NewUintNode(w, vals...)
				}
				return true
			}()
			if made {
				x.Failf("oversize", "%s of %d elements was made; no message can hold it", wire.Name(f), n)
			}
		})
	}
	leaves := leafItems()
	for i := range leaves {
		i := i
		c.Case(fmt.Sprintf("leaf %d", i), Opt{}, func(x *X) {
			for style := 0; style < 3; style++ {
				c01one(x, 1, 3, 0, 0, 1, leaves[i], style)
				c01one(x, 1, 3, 1, 65535, 0xffffffff, wire.L(leaves[i]), style)
				for j := range leaves {
					if j%7 == i%7 || i < 20 {
						c01one(x, 127, 255, 1, 32768, 0x80000001, wire.L(leaves[i], leaves[j]), style)
					}
				}
			}
		})
	}
	// headers
	for s := 0; s < 128; s++ {
		s := s
		c.Case(fmt.Sprintf("headers S%d", s), Opt{}, func(x *X) {
			for f := 0; f < 256; f++ {
				for w := 0; w <= f%2; w++ {
					c01one(x, s, f, w, (s*257+f*31)&0xffff, uint32(s)<<24|uint32(f)<<8|uint32(w), nil, 0)
					if f%17 == s%17 {
						for _, sess := range []int{0, 1, 255, 256, 32767, 32768, 65535} {
							for _, sys := range []uint32{0, 1, 255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
								c01one(x, s, f, w, sess, sys, wire.A("x"), 0)
							}
						}
					}
				}
			}
		})
	}
	// trees
	var batch []*wire.Item
	nb := 0
	flush := func() {
		if len(batch) == 0 {
			return
		}
		b := batch
		batch = nil
		nb++
		c.Case(fmt.Sprintf("trees %d", nb), Opt{}, func(x *X) {
			for _, it := range b {
				c01one(x, 5, 1, 1, 10, 5, it, 0)
			}
		})
	}
	put := func(it *wire.Item) {
		batch = append(batch, it)
		if len(batch) == 2000 {
			flush()
		}
	}
	sl := smallLeaves()
	trees(1, c.Q(3, 3), sl, put)
	trees(2, 2, sl, func(it *wire.Item) {
		if c.Thorough || len(it.L) < 2 || it.L[1].F != wire.FL || len(it.L[0].L)+len(it.L[1].L) <= 2 {
			put(it)
		}
	})
	trees(3, 2, []*wire.Item{wire.A("q"), wire.U(2, 7)}, put)
	trees(4, 1, sl, put)
	trees(3, c.Q(2, 3), []*wire.Item{wire.U(1, 9)}, put)
	deep := wire.U(1, 1)
	for i := 0; i < c.Q(1100, 2100); i++ {
		deep = wire.L(deep)
		if i%10 == 0 && i < 200 || i > 32 && (i&(i-1) == 0 || (i+1)&i == 0) || i%100 == 0 {
			put(deep)
		}
	}
	flush()
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// c02one decodes one byte string and compares with the reference decoder.
func c02one(x *X, in []byte, alloc bool) {
	var id string
	if len(in) <= 120 {
		id = hex.EncodeToString(in)
	} else {
		id = fmt.Sprintf("%x...%d bytes,hash %x", in[:60], len(in), hash(string(in)))
	}
	x.Try(id, func() {
		var before uint64
		if alloc {
			before = allocated()
		}
		vrt.MaxPts(2000000 + 2000*len(in))
		orig := append([]byte(nil), in...)
		m, ok := hp.Parse(in)
		if alloc {
			if d := allocated() - before; d > uint64(1<<20+600*len(in)) {
				x.Bad("allocation", "decoding %d bytes allocated %d bytes", len(in), d)
			}
		}
		if string(in) != string(orig) {
			x.Bad("input-modified", "the input was changed to %x", in)
		}
		consistent := len(in) >= 4 && int(binary.BigEndian.Uint32(in)) == len(in)-4
		x.Eval(id, consistent)
		if !ok {
			x.C.Count("refused", 1)
			return
		}
		x.C.Count("accepted", 1)
		if m == nil {
			x.Bad("nil-ok", "ok with a nil message")
		}
		if !consistent || len(in) < 14 {
			x.Bad("accept-length", "accepted although the length field is wrong")
		}
		fr, _ := wire.Parse(in)
		if fr.PType != 0 {
			x.Bad("accept-ptype", "accepted PType %d", fr.PType)
		}
		if fr.SType == 0 {
			if fr.BadBody {
				x.Bad("accept-body", "accepted a malformed body, as %v", strings.ReplaceAll(m.(*ast.DataMessage).String(), "\n", " "))
			}
			d, isData := m.(*ast.DataMessage)
			if !isData {
				x.Bad("kind", "decoded as %T", m)
			}
			it, err := msgItem(d)
			if err != nil || !wire.Equal(it, canonBool(fr.Item)) {
				x.Bad("value", "decoded %v (%v), the bytes say %v", it, err, fr.Item)
			}
			if d.StreamCode() != fr.S() || d.FunctionCode() != fr.F() || (d.WaitBit() == "true") != fr.W() || d.SessionID() != int(fr.Session) || string(d.SystemBytes()) != string(sys4(fr.Sys)) {
				x.Bad("header", "decoded header differs: %s", d.Header())
			}
			return
		}
		if _, known := ctrlName[fr.SType]; !known {
			x.Bad("accept-stype", "accepted session type %d", fr.SType)
		}
		if m.Type() != ctrlName[fr.SType] {
			x.Bad("kind", "decoded as %q", m.Type())
		}
		if len(in) != 14 {
			x.Bad("accept-control-text", "accepted a control message of %d bytes", len(in))
		}
	})
}

var ctrlName = map[byte]string{1: "select.req", 2: "select.rsp", 3: "deselect.req", 4: "deselect.rsp", 5: "linktest.req", 6: "linktest.rsp", 7: "reject.req", 9: "separate.req"}

func fixLen(b []byte) []byte {
	o := append([]byte(nil), b...)
	if len(o) >= 4 {
		binary.BigEndian.PutUint32(o, uint32(len(o)-4))
	}
	return o
}

func corpus() [][]byte {
	var out [][]byte
	add := func(it *wire.Item) { out = append(out, wire.NewData(1, 6, 11, true, 0x01020304, it).Encode()) }
	add(nil)
	for _, it := range smallLeaves() {
		add(it)
		add(wire.L(it))
	}
	add(wire.L(wire.A("ab"), wire.L(wire.U(2, 1, 2), wire.B(9)), wire.Bool(true)))
	add(wire.L(wire.L(wire.L(wire.L()))))
	add(wire.L(wire.L(), wire.A(""), wire.I(4), wire.Fl(8, 1)))
	for st := byte(0); st < 12; st++ {
		for _, sess := range []uint16{0, 0xffff} {
			out = append(out, wire.NewCtrl(st, sess, 0, 1, 7).Encode())
		}
	}
	// non-minimal length bytes
	h := wire.NewData(1, 1, 3, true, 9, nil).Encode()
	for _, body := range []string{"\x42\x00\x02hi", "\x43\x00\x00\x02hi", "\x02\x00\x01\x41\x01a", "\x03\x00\x00\x01\xa5\x01\x07", "\xaa\x00\x02\x01\x02", "\x22\x00\x00", "\x02\x00\x00"} {
		out = append(out, fixLen(append(append([]byte(nil), h...), body...)))
	}
	return out
}

func c02(c *C) {
	cp := corpus()
	for i, m := range cp {
		m := m
		c.Case(fmt.Sprintf("corpus %d", i), Opt{}, func(x *X) {
			c02one(x, m, true)
			for n := 0; n <= len(m); n++ {
				c02one(x, m[:n:n], false)
				c02one(x, fixLen(m[:n]), true)
			}
			for p := 0; p < len(m); p++ {
				for v := 0; v < 256; v++ {
					b := append([]byte(nil), m...)
					b[p] = byte(v)
					c02one(x, b, p > 13 || v%16 == 0)
				}
				d := append(append([]byte(nil), m[:p]...), m[p+1:]...)
				c02one(x, fixLen(d), false)
			}
			for p := 14; p <= len(m); p++ {
				for _, v := range structural {
					d := append(append(append([]byte(nil), m[:p]...), v), m[p:]...)
					c02one(x, fixLen(d), true)
				}
			}
			for _, t := range []string{"\x00", "\x01\x00", "\x41\x00", "\xff\xff\xff", m2s(m)} {
				c02one(x, fixLen(append(append([]byte(nil), m...), t...)), false)
				c02one(x, append(append([]byte(nil), m...), t...), false)
			}
		})
	}
	// all short bodies over the structural alphabet
	depth := c.Q(4, 5)
	h := wire.NewData(1, 1, 3, true, 9, nil).Encode()
	for _, a := range structural {
		for _, b := range structural {
			a, b := a, b
			c.Case(fmt.Sprintf("bodies %02x%02x", a, b), Opt{}, func(x *X) {
				var rec func(body []byte, left int)
				rec = func(body []byte, left int) {
					c02one(x, fixLen(append(append([]byte(nil), h...), body...)), true)
					if left == 0 {
						return
					}
					for _, v := range structural {
						rec(append(body[:len(body):len(body)], v), left-1)
					}
				}
				c02one(x, fixLen(append(append([]byte(nil), h...), a)), true)
				rec([]byte{a, b}, depth-2)
			})
		}
	}
	// declared lengths that do not fit, for every format and length size
	for f := 0; f < 64; f++ {
		f := f
		c.Case(fmt.Sprintf("declared length, format %o", f), Opt{}, func(x *X) {
			for nl := 0; nl < 4; nl++ {
				for _, decl := range []int{0, 1, 2, 3, 4, 7, 8, 9, 12, 16, 255, 256, 257, 260, 264, 512, 65535, 65536, 65544, 1 << 20, 1<<24 - 8, 1<<24 - 1} {
					for _, have := range []int{0, 1, 2, 3, 4, 7, 8, 9, 12, 16, 255, 256, 257, 260, 264, 512} {
						b := append([]byte(nil), h...)
						b = append(b, byte(f<<2|nl))
						for i := nl - 1; i >= 0; i-- {
							b = append(b, byte(decl>>uint(8*i)))
						}
						for i := 0; i < have; i++ {
							b = append(b, byte(i&0x3f))
						}
						c02one(x, fixLen(b), true)
						// the same inside a list
						l := append(append([]byte(nil), b[:14]...), 1, 1)
						c02one(x, fixLen(append(l, b[14:]...)), true)
					}
				}
			}
		})
	}
	// large and deep
	c.Case("large", Opt{}, func(x *X) {
		for _, f := range wire.AllFormats {
			n := c.Q(40000, 200000)
			it := sized(f, n/max(1, wire.Width(f)))
			m := wire.NewData(1, 6, 11, true, 1, it).Encode()
			c02one(x, m, true)
			c02one(x, fixLen(m[:len(m)-1]), true)
			c02one(x, fixLen(append(m, 0)), true)
		}
	})
	c.Case("deep", Opt{}, func(x *X) {
		for _, d := range []int{10, 100, 300, c.Q(500, 1000)} {
			b := append([]byte(nil), h...)
			for i := 0; i < d; i++ {
				b = append(b, 1, 1)
			}
			vrt.MaxPts(1 << 30)
			c02one(x, fixLen(append(b[:len(b):len(b)], 1, 0)), false)
			c02one(x, fixLen(b), false)
			c02one(x, fixLen(append(b[:len(b):len(b)], 1)), false)
		}
	})
}

var structural = []byte{0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x08, 0x21, 0x22, 0x25, 0x41, 0x42, 0x43, 0x61, 0x65, 0x69, 0x71, 0x7f, 0x80, 0x81, 0x91, 0xa1, 0xa5, 0xa9, 0xb1, 0xff}

func m2s(b []byte) string { return string(b) }

func c04(c *C) {
	sessions := []uint16{0, 1, 2, 127, 128, 255, 256, 257, 0x1234, 32767, 32768, 65534, 65535}
	syss := []uint32{0, 1, 0x80, 0xff, 0x100, 0x01020304, 0xfffefdfc, 0x7fffffff, 0x80000000, 0xffffffff}
	cmp := func(x *X, what string, got ast.HSMSMessage, want *wire.Frame) {
		w := want.Encode()
		if string(got.ToBytes()) != string(w) {
			x.Bad(what, "encoded %x, want %x", got.ToBytes(), w)
		}
		if got.Type() != ctrlName[want.SType] {
			x.Bad(what+"-type", "Type() = %q", got.Type())
		}
		if string(got.SystemBytes()) != string(sys4(want.Sys)) {
			x.Bad(what+"-sys", "SystemBytes() = %x", got.SystemBytes())
		}
		p, ok := hp.Parse(w)
		if !ok {
			x.Bad(what+"-decode", "Parse fails")
		}
		if string(p.ToBytes()) != string(w) || p.Type() != got.Type() || string(p.SystemBytes()) != string(got.SystemBytes()) {
			x.Bad(what+"-decode", "decoded to %x %s", p.ToBytes(), p.Type())
		}
		cm, isC := p.(*ast.ControlMessage)
		if !isC || cm.SessionID() != want.Session || cm.Status() != want.B3 {
			x.Bad(what+"-decode", "decoded to %T", p)
		}
	}
	reply := func(x *X, st byte, sess uint16, code int, sys uint32) {
		kind := map[byte]byte{1: 2, 3: 4, 5: 6}[st]
		in := wire.NewCtrl(st, sess, 0, 0, sys)
		msg, ok := hp.Parse(in.Encode())
		if !ok {
			x.Bad("decode", "Parse fails")
		}
		switch st {
		case 1:
			cmp(x, "select.rsp", ast.NewHSMSMessageSelectRsp(msg, byte(code)), wire.NewCtrl(kind, sess, 0, byte(code), sys))
		case 3:
			cmp(x, "deselect.rsp", ast.NewHSMSMessageDeselectRsp(msg, byte(code)), wire.NewCtrl(kind, sess, 0, byte(code), sys))
		case 5:
			cmp(x, "linktest.rsp", ast.NewHSMSMessageLinktestRsp(msg), wire.NewCtrl(kind, 0xffff, 0, 0, sys))
		}
	}
	for _, sess := range sessions {
		sess := sess
		c.Case(fmt.Sprintf("session %04x", sess), Opt{}, func(x *X) {
			for _, sys := range syss {
				sb := sys4(sys)
				try := func(id string, f func()) {
					id = fmt.Sprintf("%s sess=%04x sys=%08x", id, sess, sys)
					x.Try(id, func() { f(); x.Eval(id, true) })
				}
				try("select.req", func() { cmp(x, "select.req", ast.NewHSMSMessageSelectReq(sess, sb), wire.NewCtrl(1, sess, 0, 0, sys)) })
				try("deselect.req", func() {
					cmp(x, "deselect.req", ast.NewHSMSMessageDeselectReq(sess, sb), wire.NewCtrl(3, sess, 0, 0, sys))
				})
				try("linktest.req", func() { cmp(x, "linktest.req", ast.NewHSMSMessageLinktestReq(sb), wire.NewCtrl(5, 0xffff, 0, 0, sys)) })
				try("separate.req", func() {
					cmp(x, "separate.req", ast.NewHSMSMessageSeparateReq(sess, sb), wire.NewCtrl(9, sess, 0, 0, sys))
				})
				for code := 0; code < 256; code++ {
					for _, st := range []byte{1, 3} {
						st := st
						try(fmt.Sprintf("reply to %s status %d", ctrlName[st], code), func() { reply(x, st, sess, code, sys) })
					}
					for _, pt := range []byte{0, 1, 255} {
						for _, st := range []byte{0, 1, 2, 5, 8, 255} {
							try(fmt.Sprintf("reject ptype %d stype %d reason %d", pt, st, code), func() {
								b2 := st
								if code == 2 {
									b2 = pt
								}
								cmp(x, "reject", ast.NewHSMSMessageRejectReq(sess, pt, st, sb, byte(code)), wire.NewCtrl(7, sess, b2, byte(code), sys))
							})
						}
					}
					// a reject built from any decodable message
					for st := byte(0); st < 10; st++ {
						if _, k := ctrlName[st]; !k && st != 0 {
							continue
						}
						st := st
						try(fmt.Sprintf("reject of %d reason %d", st, code), func() {
							var in []byte
							if st == 0 {
								in = wire.NewData(sess, 99, 1, true, sys, wire.A("x")).Encode()
							} else {
								in = wire.NewCtrl(st, sess, 3, 4, sys).Encode()
							}
							msg, ok := hp.Parse(in)
							if !ok {
								x.Bad("decode", "Parse fails")
							}
							b2 := st
							if code == 2 {
								b2 = 0
							}
							cmp(x, "reject-from", ast.NewHSMSMessageRejectReqFromMsg(msg, byte(code)), wire.NewCtrl(7, sess, b2, byte(code), sys))
						})
					}
				}
				try("linktest.rsp", func() { reply(x, 5, sess, 0, sys) })
				// the message is not affected by later changes of the caller's slice
				try("independence", func() {
					b := sys4(sys)
					m := ast.NewHSMSMessageSelectReq(sess, b)
					b[0] ^= 0xff
					if string(m.SystemBytes()) != string(sys4(sys)) {
						x.Bad("aliasing", "the message changed with the caller's slice")
					}
					raw := wire.NewCtrl(1, sess, 0, 0, sys).Encode()
					p, _ := hp.Parse(raw)
					want := p.ToBytes()
					for i := range raw {
						raw[i] ^= 0x55
					}
					if string(p.ToBytes()) != string(want) {
						x.Bad("aliasing", "the decoded message changed with the input buffer")
					}
				})
			}
		})
	}
}
