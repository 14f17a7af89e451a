package h

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"time"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/vnet"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C03", Level: "model_checking", Budget: [2]int{180, 800},
		Rule: "every enumerated sequence of frames under every segmentation with the given number of cuts, every uniform chunk size and truncation at every offset, through the bare, buffered and session receivers; non-trivial: distinct (sequence, segmentation)",
		Run:  c03})
	register(&Check{ID: "C28", Level: "exploration", Budget: [2]int{180, 800},
		Rule: "every head size, byte order, limit pair, payload size around the limits and enumerated raw header, under every enumerated segmentation; every enumerated JSON value and document; non-trivial: distinct input",
		Run:  c28})
}

// segStream is a connection whose reads deliver the given cuts.
type segStream struct {
	data   []byte
	pos    int
	cuts   []int // absolute offsets at which a read ends
	out    bytes.Buffer
	writes int
	closed int
	// nothing beyond this offset may be asked for (FixLen limit check), when > 0
	asked      int
	werr, cerr error // what Write and Close fail with
	// a deadline is set; where frames begin, and the reads made there with one
	// or elsewhere without
	limited bool
	starts  map[int]bool
	stray   string
}

func (s *segStream) SetDeadline(t time.Time) error      { return s.SetReadDeadline(t) }
func (s *segStream) SetWriteDeadline(t time.Time) error { return nil }
func (s *segStream) SetReadDeadline(t time.Time) error {
	s.limited = !t.IsZero()
	return nil
}

func (s *segStream) Read(p []byte) (int, error) {
	s.asked = len(p)
	if s.closed > 0 {
		return 0, io.ErrClosedPipe
	}
	if s.starts != nil && s.limited == s.starts[s.pos] {
		s.stray = fmt.Sprintf("read at %d, limited: %v", s.pos, s.limited)
	}
	if s.pos == len(s.data) {
		return 0, io.EOF
	}
	end := len(s.data)
	for _, c := range s.cuts {
		if c > s.pos && c < end {
			end = c
		}
	}
	n := copy(p, s.data[s.pos:end])
	s.pos += n
	return n, nil
}
func (s *segStream) Write(p []byte) (int, error) {
	s.writes++
	if s.werr != nil {
		return 0, s.werr
	}
	return s.out.Write(p)
}
func (s *segStream) Close() error { s.closed++; return s.cerr }

// a way to receive: bare codec, buffered codec, session over either
type receiver struct {
	name  string
	proto func() link.Protocol
	sess  bool
	gap   bool // the time between two reads of one message is limited
}

func receivers() []receiver {
	sec := func() link.Protocol { return codec.SECSII() }
	r := []receiver{{"bare", sec, false, false}, {"session", sec, true, false}, {"gap", sec, false, true},
		{"bufio16-gap", func() link.Protocol { return codec.Bufio(codec.SECSII(), 16, 16) }, false, true},
		{"bufio0-gap", func() link.Protocol { return codec.Bufio(codec.SECSII(), 0, 0) }, false, true}}
	for _, n := range []int{1, 16, 17, 64, 4096} {
		n := n
		r = append(r, receiver{fmt.Sprintf("bufio%d", n), func() link.Protocol { return codec.Bufio(codec.SECSII(), n, n) }, n == 64, false})
	}
	// no buffer in one or both directions
	for _, n := range [][2]int{{0, 0}, {16, 0}, {0, 16}} {
		n := n
		r = append(r, receiver{fmt.Sprintf("bufio%d-%d", n[0], n[1]), func() link.Protocol { return codec.Bufio(codec.SECSII(), n[0], n[1]) }, n[0] == 0, false})
	}
	return r
}

type seqCase struct {
	name   string
	frames [][]byte
	bad    int // index of the frame that is refused (-1: none)
}

func (s seqCase) stream() []byte { return bytes.Join(s.frames, nil) }

// c03one delivers the stream in the given segmentation, ending at end, and
// checks what the receiver reports.
func c03one(x *X, rc receiver, sc seqCase, cuts []int, end int) {
	id := fmt.Sprintf("%s %s cuts=%v end=%d", rc.name, sc.name, cuts, end)
	x.Try(id, func() {
		all := sc.stream()
		st := &segStream{data: all[:end], cuts: cuts}
		cd, err := rc.proto().NewCodec(st)
		if err != nil {
			x.Bad("codec", "NewCodec: %v", err)
		}
		if rc.gap {
			g, ok := cd.(interface{ SetReadGap(time.Duration) bool })
			if !ok || !g.SetReadGap(5*time.Second) {
				x.Bad("gap", "the time between reads cannot be limited")
			}
			st.starts = map[int]bool{0: true}
			n := 0
			for _, f := range sc.frames {
				n += len(f)
				st.starts[n] = true
			}
		}
		recv := cd.Receive
		var ss *link.Session
		if rc.sess {
			ss = link.NewSession(cd, 0)
			recv = ss.Receive
		}
		var got []ast.HSMSMessage
		off := 0
		for i := 0; ; i++ {
			m, err := recv()
			whole := i < len(sc.frames) && off+len(sc.frames[i]) <= end && i != sc.bad
			if !whole {
				if err == nil {
					x.Bad("ghost", "message %d (%v) delivered although the stream holds no further message", i, m)
				}
				if m != nil {
					x.Bad("error-and-message", "message %v with error %v", m, err)
				}
				if i == sc.bad && off+4 <= end && errors.Is(err, io.EOF) && off+len(sc.frames[i]) <= end {
					x.Bad("bad-as-eof", "a refused frame reported as end of stream")
				}
				if i != sc.bad {
					if off < end && errors.Is(err, io.EOF) {
						// io.ReadFull reports a cut frame as an unexpected
						// end; a cut between head and body may come as EOF
						if end-off != 4 {
							x.Bad("cut-as-eof", "a stream that ends inside a frame reported as a clean end")
						}
					}
				}
				break
			}
			if err != nil {
				x.Bad("error", "message %d of %d refused: %v", i, len(sc.frames), err)
			}
			hm, isM := m.(ast.HSMSMessage)
			if !isM {
				x.Bad("kind", "Receive gave %T", m)
			}
			got = append(got, hm)
			off += len(sc.frames[i])
		}
		for i, m := range got {
			if string(m.ToBytes()) != string(sc.frames[i]) {
				x.Bad("content", "message %d is %s, written %s", i, hexs(m.ToBytes()), hexs(sc.frames[i]))
			}
		}
		if st.stray != "" {
			x.Bad("gap", "%s; messages begin at %v", st.stray, sortedInts(st.starts))
		}
		if ss != nil && !ss.IsClosed() {
			x.Bad("not-closed", "the session is open after a receive error")
		}
		x.Eval(id, len(sc.frames) > 0)
	})
}

func c03(c *C) {
	d := func(s, f int, w bool, sys uint32, it *wire.Item) []byte {
		return wire.NewData(7, s, f, w, sys, it).Encode()
	}
	small := [][]byte{
		wire.NewCtrl(5, 0xffff, 0, 0, 1).Encode(),
		wire.NewCtrl(1, 1, 0, 0, 0x0e).Encode(),
		d(1, 1, true, 0x0000000a, nil),
		d(1, 2, false, 2, wire.A("ab")),
		d(6, 11, true, 0x0a0a0a0a, wire.L(wire.U(1, 10), wire.B(0, 0, 0, 10), wire.Bool(true))),
	}
	h := d(1, 3, true, 5, nil)
	lenOf := func(n uint32, body ...byte) []byte {
		b := make([]byte, 4)
		binary.BigEndian.PutUint32(b, n)
		return append(b, body...)
	}
	badf := [][]byte{}
	for n := uint32(0); n < 10; n++ {
		badf = append(badf, lenOf(n, make([]byte, n)...))
	}
	badf = append(badf, lenOf(10, 0, 1, 0, 0, 0, 8, 0, 0, 0, 1), lenOf(10, 0, 1, 0, 0, 1, 1, 0, 0, 0, 1),
		fixLen(append(append([]byte(nil), h...), 0x41)), fixLen(append(append([]byte(nil), h...), 0x41, 5, 'a')),
		fixLen(append(append([]byte(nil), h...), 0x41, 1, 'a', 0)), fixLen(append(append([]byte(nil), h...), 0xa9, 1, 0)),
		fixLen(append(append([]byte(nil), h...), 0x01, 2, 0xa5, 1, 1)), fixLen(append(append([]byte(nil), h...), 0xfd, 0)))

	var seqs []seqCase
	for i := range small {
		seqs = append(seqs, seqCase{fmt.Sprintf("[%d]", i), [][]byte{small[i]}, -1})
		for j := range small {
			seqs = append(seqs, seqCase{fmt.Sprintf("[%d %d]", i, j), [][]byte{small[i], small[j]}, -1})
			for k := range small {
				if c.Thorough || (i+j+k)%3 == 0 {
					seqs = append(seqs, seqCase{fmt.Sprintf("[%d %d %d]", i, j, k), [][]byte{small[i], small[j], small[k]}, -1})
				}
			}
		}
	}
	for b := range badf {
		seqs = append(seqs, seqCase{fmt.Sprintf("[bad%d 2]", b), [][]byte{badf[b], small[2]}, 0},
			seqCase{fmt.Sprintf("[3 bad%d 2]", b), [][]byte{small[3], badf[b], small[2]}, 1})
	}
	rcs := receivers()
	for _, sc := range seqs {
		for _, rc := range rcs {
			if rc.name != "bare" && len(sc.frames) > 2 && sc.bad < 0 && !c.Thorough {
				continue
			}
			sc, rc := sc, rc
			c.Case(fmt.Sprintf("segment %s %s", rc.name, sc.name), Opt{}, func(x *X) {
				vrt.MaxPts(1 << 31)
				n := len(sc.stream())
				c03one(x, rc, sc, nil, n)
				for a := 1; a < n; a++ {
					c03one(x, rc, sc, []int{a}, n)
					for b := a + 1; b < n; b++ {
						c03one(x, rc, sc, []int{a, b}, n)
						if c.Thorough && len(sc.frames) <= 2 {
							for e := b + 1; e < n; e++ {
								c03one(x, rc, sc, []int{a, b, e}, n)
							}
						}
					}
				}
				for k := 1; k < n; k++ {
					var cuts []int
					for p := k; p < n; p += k {
						cuts = append(cuts, p)
					}
					c03one(x, rc, sc, cuts, n)
				}
			})
			c.Case(fmt.Sprintf("truncate %s %s", rc.name, sc.name), Opt{}, func(x *X) {
				vrt.MaxPts(1 << 31)
				for e := 0; e < len(sc.stream()); e++ {
					c03one(x, rc, sc, nil, e)
					for a := 1; a < e; a++ {
						c03one(x, rc, sc, []int{a}, e)
					}
				}
			})
		}
	}
	hugeFrames(c, rcs, small[2])
	// larger frames: the receive buffer grows, shrinks and is reused
	mk := func(n int, sys uint32) []byte { return d(7, 3, true, sys, sized(wire.FA, n)) }
	bigs := [][]byte{mk(10, 1), mk(300, 2), mk(4090, 3), mk(5000, 4), mk(70000, 5), d(1, 4, false, 6, sized(wire.FL, 300)), d(1, 4, false, 7, sized(wire.FB, 66000)), d(1, 4, false, 8, sized(wire.FU8, 600))}
	for i := range bigs {
		for j := range bigs {
			for _, rc := range rcs {
				i, j, rc := i, j, rc
				c.Case(fmt.Sprintf("large %s [%d %d]", rc.name, i, j), Opt{}, func(x *X) {
					vrt.MaxPts(1 << 31)
					sc := seqCase{fmt.Sprintf("large[%d %d 2 %d]", i, j, i), [][]byte{bigs[i], bigs[j], small[2], bigs[i]}, -1}
					n := len(sc.stream())
					f1 := len(bigs[i])
					for _, cut := range []int{1, 3, 4, 5, 13, 14, 15, f1 - 1, f1, f1 + 1, f1 + 4, f1 + 14, n - 1} {
						c03one(x, rc, sc, []int{cut}, n)
						c03one(x, rc, sc, []int{cut}, f1+cut%len(bigs[j]))
					}
					for _, k := range []int{1, 7, 1000, 1460, 4095, 4096, 4097} {
						if k == 1 && n > 20000 {
							continue
						}
						var cuts []int
						for p := k; p < n; p += k {
							cuts = append(cuts, p)
						}
						if len(cuts) < 400 || n < 20000 {
							c03one(x, rc, sc, cuts, n)
						}
					}
				})
			}
		}
	}
	// a session fed by a concurrent writer: every schedule of the writer's
	// chunks against the reader
	for _, buf := range []bool{false, true} {
		for i := range small {
			for j := range small {
				i, j, buf := i, j, buf
				c.Case(fmt.Sprintf("concurrent buf=%v [%d %d]", buf, i, j), Opt{Sched: true, Dev: c.Q(3, 5)}, func(x *X) {
					a, b := vnet.NewPipe()
					var p link.Protocol = codec.SECSII()
					if buf {
						p = codec.Bufio(p, 16, 16)
					}
					cd, _ := p.NewCodec(a)
					s := link.NewSession(cd, 0)
					all := append(append([]byte(nil), small[i]...), small[j]...)
					vrt.GoApp("writer", func() {
						cut := len(small[i]) - 3
						b.Write(all[:2])
						b.Write(all[2:cut])
						b.Write(all[cut : cut+5])
						b.Write(all[cut+5:])
						b.Close()
					})
					var got [][]byte
					for {
						m, err := s.Receive()
						if err != nil {
							break
						}
						got = append(got, m.(ast.HSMSMessage).ToBytes())
						x.State("receive", fmt.Sprintf("%d delivered, %d pending", len(got), len(a.Available())))
					}
					if string(bytes.Join(got, nil)) != string(all) {
						x.Failf("content", "delivered %x, written %x", got, all)
					}
				})
			}
		}
	}
	// sending side: a whole frame per Send, unchanged, and only byte slices
	c.Case("send", Opt{}, func(x *X) {
		vrt.MaxPts(1 << 31)
		for _, rc := range rcs {
			for _, f := range append(append([][]byte{}, small...), bigs...) {
				x.Try(fmt.Sprintf("send %s %s", rc.name, hexs(f)), func() {
					st := &segStream{}
					cd, _ := rc.proto().NewCodec(st)
					if err := cd.Send(f); err != nil || string(st.out.Bytes()) != string(f) {
						x.Bad("send", "wrote %s, %v", hexs(st.out.Bytes()), err)
					}
					for _, m := range []interface{}{nil, 1, "x", struct{}{}} {
						if err := cd.Send(m); err == nil {
							x.Bad("send-type", "Send(%v) accepted", m)
						}
					}
					if len(st.out.Bytes()) != len(f) {
						x.Bad("send-type", "a refused send wrote bytes")
					}
					x.Eval("send "+rc.name+hexs(f), true)
				})
			}
		}
	})
}

// rawProto is a base codec for FixLen: messages are byte slices.
type rawProto struct{}

type rawCodec struct{ rw io.ReadWriter }

func (rawProto) NewCodec(rw io.ReadWriter) (link.Codec, error) { return &rawCodec{rw}, nil }
func (r *rawCodec) Receive() (interface{}, error) {
	b, err := io.ReadAll(r.rw)
	return b, err
}
func (r *rawCodec) Send(m interface{}) error {
	b := m.([]byte)
	// in two writes, as an encoder may
	if _, err := r.rw.Write(b[:len(b)/2]); err != nil {
		return err
	}
	_, err := r.rw.Write(b[len(b)/2:])
	return err
}
func (r *rawCodec) Close() error { return nil }

type jA struct {
	N int
	S string
	L []int
	M map[string]int
	P *jA
}
type jB struct{ X, Y float64 }
type jD struct{ X int }
type jC struct{ B bool }

func headOf(n int, o binary.ByteOrder, size uint64) []byte {
	b := make([]byte, 8)
	if o == binary.ByteOrder(binary.BigEndian) {
		binary.BigEndian.PutUint64(b, size)
		return b[8-n:]
	}
	binary.LittleEndian.PutUint64(b, size)
	return b[:n]
}

// dlConn records the deadlines it is given.
type dlConn struct {
	segStream
	log []string
	err error
}

func (d *dlConn) set(k string, t time.Time) error {
	d.log = append(d.log, fmt.Sprint(k, t.UnixNano()))
	return d.err
}
func (d *dlConn) SetDeadline(t time.Time) error      { return d.set("rw", t) }
func (d *dlConn) SetReadDeadline(t time.Time) error  { return d.set("r", t) }
func (d *dlConn) SetWriteDeadline(t time.Time) error { return d.set("w", t) }

// runDeadlines: a deadline set on a buffered codec is set on its connection,
// and nowhere if that has none.
func runDeadlines(x *X) {
	times := []time.Time{{}, time.Unix(1, 0), time.Unix(1<<33, 5)}
	for _, buf := range [][2]int{{0, 0}, {16, 0}, {0, 16}, {5120, 5120}} {
		for n := 1; n <= 3; n++ {
			seqsOf([]string{"r0", "r1", "r2", "w0", "w1", "w2"}, n, func(ops []string) {
				for _, fail := range []error{nil, io.ErrClosedPipe} {
					id := fmt.Sprintf("deadlines buf=%v %v fail=%v", buf, ops, fail)
					x.Try(id, func() {
						d := &dlConn{err: fail}
						cd, err := codec.Bufio(rawProto{}, buf[0], buf[1]).NewCodec(d)
						dc, ok := cd.(link.DeadlineCodec)
						if err != nil || !ok {
							x.Bad("deadline", "no deadlines: %v %T", err, cd)
						}
						plain, _ := codec.Bufio(rawProto{}, buf[0], buf[1]).NewCodec(struct{ io.ReadWriter }{d})
						var want []string
						for _, o := range ops {
							t := times[o[1]-'0']
							want = append(want, fmt.Sprint(o[:1], t.UnixNano()))
							var e1, e2 error
							if o[0] == 'r' {
								e1, e2 = dc.SetReadDeadline(t), plain.(link.DeadlineCodec).SetReadDeadline(t)
							} else {
								e1, e2 = dc.SetWriteDeadline(t), plain.(link.DeadlineCodec).SetWriteDeadline(t)
							}
							if e1 != fail || e2 != nil {
								x.Bad("deadline", "%s returned %v, and %v without a connection", o, e1, e2)
							}
						}
						if fmt.Sprint(d.log) != fmt.Sprint(want) {
							x.Bad("deadline", "%v set on the connection, want %v", d.log, want)
						}
						x.Eval(id, true)
					})
				}
			})
		}
	}
}

type noProto struct{ err error }

func (p noProto) NewCodec(io.ReadWriter) (link.Codec, error) { return nil, p.err }

// runNoCodec: what wraps a protocol that refuses a connection refuses it too.
func runNoCodec(x *X) {
	no := io.ErrNoProgress
	for name, p := range map[string]link.Protocol{
		"bufio": codec.Bufio(noProto{no}, 16, 16), "bufio-0": codec.Bufio(noProto{no}, 0, 0),
		"fixlen": codec.FixLen(noProto{no}, 2, binary.BigEndian, 100, 100), "bufio-fixlen": codec.Bufio(codec.FixLen(noProto{no}, 4, binary.LittleEndian, 100, 100), 16, 16),
		"fixlen-bufio": codec.FixLen(codec.Bufio(noProto{no}, 16, 16), 1, binary.BigEndian, 100, 100),
	} {
		st := &segStream{}
		cd, err := p.NewCodec(st)
		if err != no || cd != nil {
			x.Failf("refused", "%s: %v %v", name, cd, err)
		}
		if st.writes > 0 {
			x.Failf("refused", "%s: bytes were written", name)
		}
		x.Eval("refused "+name, true)
	}
}

func c28(c *C) {
	orders := []binary.ByteOrder{binary.BigEndian, binary.LittleEndian}
	limits := []int{0, 1, 2, 10, 100, 254, 255, 256, 300, 65534, 65535, 65536, 70000, 1 << 20}
	capOf := map[int]int{1: 255, 2: 65535, 4: 1<<32 - 1, 8: 1<<62 - 1}
	pay := func(n int, k byte) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7) + k
		}
		return b
	}
	wrap := func(p link.Protocol, buf int) link.Protocol {
		switch {
		case buf > 0:
			return codec.Bufio(p, buf, buf)
		case buf == -1: // no buffer in one or both directions
			return codec.Bufio(p, 0, 0)
		case buf == -2:
			return codec.Bufio(p, 16, 0)
		case buf == -3:
			return codec.Bufio(p, 0, 16)
		}
		return p
	}
	// sending: the limit, the header and the bytes
	for _, n := range []int{1, 2, 4, 8} {
		for oi, o := range orders {
			for _, lim := range limits {
				n, oi, o, lim := n, oi, o, lim
				c.Case(fmt.Sprintf("fixlen send n=%d order=%d limit=%d", n, oi, lim), Opt{}, func(x *X) {
					vrt.MaxPts(1 << 31)
					eff := lim
					if eff > capOf[n] {
						eff = capOf[n]
					}
					sizes := map[int]bool{}
					for _, s := range append([]int{eff - 1, eff, eff + 1, eff + 2, 2 * eff}, limits...) {
						if s >= 0 && s <= 1<<20+5 {
							sizes[s] = true
						}
					}
					for _, s := range sortedInts(sizes) {
						for _, buf := range []int{0, 16, 4096, -1, -2, -3} {
							id := fmt.Sprintf("send n=%d order=%d limit=%d size=%d buf=%d", n, oi, lim, s, buf)
							x.Try(id, func() {
								st := &segStream{}
								cd, err := wrap(codec.FixLen(rawProto{}, n, o, 1<<20, lim), buf).NewCodec(st)
								if err != nil {
									x.Bad("codec", "%v", err)
								}
								first := pay(min(eff, 3), 1)
								if err := cd.Send(first); err != nil {
									x.Bad("send", "a payload within the limit refused: %v", err)
								}
								want := append(headOf(n, o, uint64(len(first))), first...)
								err = cd.Send(pay(s, 2))
								if s <= eff {
									if err != nil {
										x.Bad("send", "a payload within the limit refused: %v", err)
									}
									want = append(append(want, headOf(n, o, uint64(s))...), pay(s, 2)...)
								} else if err != codec.ErrTooLargePacket {
									x.Bad("send-limit", "a payload of %d bytes with limit %d gave %v", s, eff, err)
								}
								if err := cd.Send(first); err != nil {
									x.Bad("send", "a payload within the limit refused afterwards: %v", err)
								}
								want = append(append(want, headOf(n, o, uint64(len(first)))...), first...)
								if !bytes.Equal(st.out.Bytes(), want) {
									x.Bad("send-bytes", "wrote %s, want %s", hexs(st.out.Bytes()), hexs(want))
								}
								if buf == 0 && st.writes != map[bool]int{true: 3, false: 2}[s <= eff] {
									x.Bad("send-writes", "%d writes", st.writes)
								}
								x.Eval(id, true)
							})
						}
					}
				})
				c.Case(fmt.Sprintf("fixlen receive n=%d order=%d limit=%d", n, oi, lim), Opt{}, func(x *X) {
					vrt.MaxPts(1 << 31)
					eff := lim
					if eff > capOf[n] {
						eff = capOf[n]
					}
					var sizes []uint64
					for _, s := range append([]int{eff - 1, eff, eff + 1, 2*eff + 1}, limits...) {
						if s >= 0 {
							sizes = append(sizes, uint64(s))
						}
					}
					for b := uint(0); b < 64; b++ {
						sizes = append(sizes, 1<<b, 1<<b-1, 1<<b+1, ^uint64(0)-1<<b)
					}
					sizes = append(sizes, ^uint64(0))
					done := map[uint64]bool{}
					for _, s := range sizes {
						if n < 8 {
							s &= 1<<(8*uint(n)) - 1
						}
						if done[s] {
							continue
						}
						done[s] = true
						for _, buf := range []int{0, 16, -1, -2} {
							id := fmt.Sprintf("receive n=%d order=%d limit=%d size=%d buf=%d", n, oi, lim, s, buf)
							x.Try(id, func() {
								first := pay(min(eff, 3), 3)
								st := &segStream{data: append(append(headOf(n, o, uint64(len(first))), first...), headOf(n, o, s)...)}
								ok := s <= uint64(eff)
								var body []byte
								if ok {
									body = pay(int(s), 9)
									st.data = append(st.data, body...)
								}
								headEnd := 2*n + len(first)
								st.data = append(st.data, headOf(n, o, uint64(len(first)))...)
								st.data = append(st.data, first...)
								cd, _ := wrap(codec.FixLen(rawProto{}, n, o, lim, 1<<20), buf).NewCodec(st)
								m0, err := cd.Receive()
								if err != nil || !bytes.Equal(m0.([]byte), first) {
									x.Bad("receive", "first message %v, %v", m0, err)
								}
								before := allocated()
								m, err := cd.Receive()
								if !ok {
									if err != codec.ErrTooLargePacket || m != nil {
										x.Bad("receive-limit", "a frame of %d bytes with limit %d gave %v, %v", s, eff, m, err)
									}
									if buf == 0 && st.pos > headEnd {
										x.Bad("receive-limit", "bytes of a refused frame were read")
									}
									if allocated()-before > 1<<19 {
										x.Bad("receive-limit", "memory allocated for a refused frame")
									}
								} else {
									if err != nil || !bytes.Equal(m.([]byte), body) {
										x.Bad("receive", "a frame of %d bytes with limit %d gave %v", s, eff, err)
									}
									m2, err := cd.Receive()
									if err != nil || !bytes.Equal(m2.([]byte), first) {
										x.Bad("receive", "message after a frame of %d bytes: %v, %v", s, m2, err)
									}
									if _, err := cd.Receive(); err == nil {
										x.Bad("receive-end", "a message after the end of the stream")
									}
								}
								x.Eval(id, true)
							})
						}
					}
				})
			}
			// segmentation and truncation
			n, oi, o := n, oi, o
			c.Case(fmt.Sprintf("fixlen segments n=%d order=%d", n, oi), Opt{}, func(x *X) {
				vrt.MaxPts(1 << 31)
				pays := [][]byte{pay(0, 1), pay(1, 2), pay(2, 3), pay(9, 4)}
				for a := range pays {
					for b := range pays {
						var all []byte
						msgs := [][]byte{pays[a], pays[b], pays[(a+b)%4]}
						for _, p := range msgs {
							all = append(append(all, headOf(n, o, uint64(len(p)))...), p...)
						}
						run := func(cuts []int, end, buf int) {
							id := fmt.Sprintf("segments n=%d order=%d [%d %d] cuts=%v end=%d buf=%d", n, oi, a, b, cuts, end, buf)
							x.Try(id, func() {
								st := &segStream{data: all[:end], cuts: cuts}
								cd, _ := wrap(codec.FixLen(rawProto{}, n, o, 100, 100), buf).NewCodec(st)
								off := 0
								for i := 0; ; i++ {
									m, err := cd.Receive()
									if i < 3 && off+n+len(msgs[i]) <= end {
										if err != nil || !bytes.Equal(m.([]byte), msgs[i]) {
											x.Bad("receive", "message %d: %v %v, want %v", i, m, err, msgs[i])
										}
										off += n + len(msgs[i])
										continue
									}
									if err == nil {
										x.Bad("ghost", "message %d: %v although the stream ended", i, m)
									}
									break
								}
								x.Eval(id, true)
							})
						}
						for _, buf := range []int{0, 16, -1} {
							for e := 0; e <= len(all); e++ {
								run(nil, e, buf)
							}
							for p := 1; p < len(all); p++ {
								run([]int{p}, len(all), buf)
								for q := p + 1; q < len(all); q++ {
									run([]int{p, q}, len(all), buf)
								}
							}
							var each []int
							for p := 1; p < len(all); p++ {
								each = append(each, p)
							}
							run(each, len(all), buf)
						}
					}
				}
			})
		}
	}
	c.Case("deadlines", Opt{}, runDeadlines)
	c.Case("refused connections", Opt{}, runNoCodec)
	c.Case("fixlen head sizes", Opt{}, func(x *X) {
		for n := -1; n < 20; n++ {
			ok := func() (ok bool) {
				defer func() { ok = recover() == nil }()
				codec.FixLen(rawProto{}, n, binary.BigEndian, 10, 10)
				return true
			}()
			if want := n == 1 || n == 2 || n == 4 || n == 8; ok != want {
				x.Failf("head-size", "head size %d accepted: %v", n, ok)
			}
		}
	})
	// JSON
	mkJSON := func() *codec.JsonProtocol {
		j := codec.Json()
		j.Register(jA{})
		j.Register(&jB{})
		j.RegisterName("c", jC{})
		return j
	}
	vals := []interface{}{jA{}, &jA{N: 1, S: "x"}, jA{N: -1, S: "{\"\\\n\x01é", L: []int{1, 2}, M: map[string]int{"a": 1}}, jA{P: &jA{N: 3}}, jB{1.5, -2}, &jB{}, jC{true}, &jC{}, jD{7}, &jD{8}, "text", 1.5, []string{"a"}}
	want := func(v interface{}) interface{} {
		// what was not registered arrives as plain JSON
		switch y := v.(type) {
		case jD:
			return map[string]interface{}{"X": float64(y.X)}
		case *jD:
			return map[string]interface{}{"X": float64(y.X)}
		case []string:
			return []interface{}{y[0]}
		case string, float64:
			return v
		}
		rv := reflect.ValueOf(v)
		if rv.Kind() == reflect.Ptr {
			return v
		}
		p := reflect.New(rv.Type())
		p.Elem().Set(rv)
		return p.Interface()
	}
	protos := []struct {
		name string
		p    func() link.Protocol
	}{
		{"json", func() link.Protocol { return mkJSON() }},
		{"bufio", func() link.Protocol { return codec.Bufio(mkJSON(), 16, 16) }},
		{"json-ptr", func() link.Protocol {
			j := codec.Json()
			j.Register(&jA{})
			j.Register(jB{})
			j.RegisterName("c", &jC{})
			return j
		}},
		{"bufio-0", func() link.Protocol { return codec.Bufio(mkJSON(), 0, 0) }},
		{"fixlen2", func() link.Protocol { return codec.FixLen(mkJSON(), 2, binary.LittleEndian, 1000, 1000) }},
		{"bufio-fixlen4", func() link.Protocol {
			return codec.Bufio(codec.FixLen(mkJSON(), 4, binary.BigEndian, 1000, 1000), 64, 64)
		}},
	}
	for _, pr := range protos {
		for i := range vals {
			pr, i := pr, i
			c.Case(fmt.Sprintf("json %s %d", pr.name, i), Opt{}, func(x *X) {
				vrt.MaxPts(1 << 31)
				for j := range vals {
					for k := range vals {
						seq := []interface{}{vals[i], vals[j], vals[k]}
						st := &segStream{}
						cd, _ := pr.p().NewCodec(st)
						for _, v := range seq {
							if err := cd.Send(v); err != nil {
								x.Failf("json-send", "%v", err)
							}
						}
						data := append([]byte(nil), st.out.Bytes()...)
						check := func(cuts []int) {
							id := fmt.Sprintf("json %s [%d %d %d] cuts=%v", pr.name, i, j, k, cuts)
							x.Try(id, func() {
								rd, _ := pr.p().NewCodec(&segStream{data: data, cuts: cuts})
								for q, v := range seq {
									m, err := rd.Receive()
									if err != nil {
										x.Bad("json", "message %d: %v", q, err)
									}
									if !reflect.DeepEqual(m, want(v)) {
										x.Bad("json", "message %d is %#v, want %#v", q, m, want(v))
									}
								}
								if m, err := rd.Receive(); err == nil {
									x.Bad("json-end", "%v after the end", m)
								}
								x.Eval(id, true)
							})
						}
						check(nil)
						for p := 1; p < len(data); p++ {
							check([]int{p})
						}
						var each []int
						for p := 1; p < len(data); p++ {
							each = append(each, p)
						}
						check(each)
					}
				}
			})
		}
	}
	// documents a peer may send: an error or a value, never a panic
	heads := []string{`"c"`, `""`, `"unknown"`, `null`, `1`, `[]`, `{}`, `"verif.local/mc/h/jA"`, `"verif.local/mc/h/jB"`}
	bodies := []string{`{}`, `null`, `1`, `"s"`, `[]`, `[1,2]`, `{"B":true}`, `{"B":1}`, `{"N":1,"P":{"P":null}}`, `{"N":"x"}`, `{"P":1}`, `true`, `1e400`, `"\ud800"`, ` `, ``}
	docs := []string{``, ` `, `{}`, `[]`, `null`, `1`, `"x"`, `{"Head":"c"}`, `{"Body":null}`, `{"Body":{}}`, `{"Head":"c","Body":`, `{"Head":"c","Body":{`, `}`, `{"head":"c","body":{"b":true}}`, "\x00", "\xff\xfe", `{"Head":"c","Body":{}}{"Head":"c"}`, `{"Head":"c","Head":"","Body":{}}`}
	for _, hd := range heads {
		docs = append(docs, `{"Head":`+hd+`}`)
		for _, bd := range bodies {
			docs = append(docs, `{"Head":`+hd+`,"Body":`+bd+`}`, `{"Body":`+bd+`,"Head":`+hd+`}`)
		}
	}
	c.Case("json documents", Opt{}, func(x *X) {
		vrt.MaxPts(1 << 31)
		for _, doc := range docs {
			for _, pr := range protos {
				for e := 0; e <= len(doc); e++ {
					in := []byte(doc[:e])
					var fx []byte
					switch pr.name {
					case "fixlen2":
						fx = headOf(2, binary.LittleEndian, uint64(e))
					case "bufio-fixlen4":
						fx = headOf(4, binary.BigEndian, uint64(e))
					}
					id := fmt.Sprintf("document %s %q", pr.name, in)
					x.Try(id, func() {
						cd, _ := pr.p().NewCodec(&segStream{data: append(fx, in...)})
						for q := 0; q < 4; q++ {
							m, err := cd.Receive()
							if err != nil && m != nil {
								x.Bad("json-both", "value %v with error %v", m, err)
							}
							if err != nil {
								break
							}
							var probe struct{ Head string }
							dec := json.NewDecoder(bytes.NewReader(in))
							if q == 0 && dec.Decode(&probe) == nil && m != nil {
								switch probe.Head {
								case "c":
									if _, ok := m.(*jC); !ok {
										x.Bad("json-type", "head c decoded as %T", m)
									}
								case "verif.local/mc/h/jA":
									if _, ok := m.(*jA); !ok {
										x.Bad("json-type", "head jA decoded as %T", m)
									}
								}
							}
						}
						x.Eval(id, true)
					})
				}
			}
		}
	})
	// closing a codec closes its connection once and tells how that went, and
	// a write that fails makes the send fail
	c.Case("close and failed writes", Opt{}, func(x *X) {
		type pm struct {
			n string
			p link.Protocol
			m interface{}
		}
		for _, p := range []pm{{"secs", codec.SECSII(), wire.NewCtrl(5, 0xffff, 0, 0, 1).Encode()}, {"json", mkJSON(), jC{true}}, {"byte", codec.Byte(), []byte{1}}, {"fixlen", codec.FixLen(rawProto{}, 2, binary.BigEndian, 9, 9), []byte{1}}} {
			for _, buf := range []int{0, 16, -1, -2, -3} {
				for i := 0; i < 4; i++ {
					id := fmt.Sprintf("close %s buf=%d %d", p.n, buf, i)
					x.Try(id, func() {
						st := &segStream{}
						if i&1 > 0 {
							st.cerr = errors.New("close failed")
						}
						if i&2 > 0 {
							st.werr = errors.New("write failed")
						}
						cd, err := wrap(p.p, buf).NewCodec(st)
						if err != nil {
							x.Bad("codec", "%v", err)
						}
						if err := cd.Send(p.m); !errors.Is(err, st.werr) {
							x.Bad("send", "Send returned %v, the write %v", err, st.werr)
						}
						if st.out.Len() == 0 && st.werr == nil {
							x.Bad("send", "nothing was written")
						}
						if err := cd.Close(); st.closed != 1 || !errors.Is(err, st.cerr) {
							x.Bad("close", "Close returned %v; the connection was closed %d times with %v", err, st.closed, st.cerr)
						}
						x.Eval(id, true)
					})
				}
			}
		}
	})
	// the byte codec is a plain stream
	c.Case("byte", Opt{}, func(x *X) {
		vrt.MaxPts(1 << 31)
		for _, n := range []int{1, 2, 100, 4091, 4092, 4093, 9000} {
			data := pay(n, 5)
			for _, k := range []int{1, 3, 1000, 4092, 5000} {
				x.Try(fmt.Sprintf("byte %d chunk %d", n, k), func() {
					var cuts []int
					for p := k; p < n; p += k {
						cuts = append(cuts, p)
					}
					st := &segStream{data: data, cuts: cuts}
					cd, _ := codec.Byte().NewCodec(st)
					var got []byte
					var kept [][]byte
					for {
						m, err := cd.Receive()
						if b, ok := m.([]byte); ok {
							got = append(got, b...)
							kept = append(kept, b)
						}
						if err != nil {
							break
						}
					}
					if !bytes.Equal(got, data) || !bytes.Equal(bytes.Join(kept, nil), data) {
						x.Bad("byte", "received %s", hexs(got))
					}
					if err := cd.Send(data); err != nil || !bytes.Equal(st.out.Bytes(), data) {
						x.Bad("byte-send", "%v", err)
					}
					if cd.Send("x") == nil {
						x.Bad("byte-send", "a string was accepted")
					}
					cd.Close()
					if st.closed != 1 {
						x.Bad("byte-close", "closed %d times", st.closed)
					}
					x.Eval(fmt.Sprint("byte", n, k), true)
				})
			}
		}
	})
}

func sortedInts(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}
