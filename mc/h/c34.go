package h

import (
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	link "github.com/younglifestyle/secs4go"
	"verif.local/mc/vnet"
	"verif.local/mc/vrt"
)

func init() {
	register(&Check{ID: "C34", Level: "model_checking", Budget: [2]int{200, 850},
		Rule: "all sequences, to the depth, of connections of every kind (working, refused by the protocol, dropped by the handler, closed by it, slow to negotiate), messages, closes from both ends, temporary and fatal accept failures and Stop against a model of the server; the same operations racing under every schedule to the deviation bound",
		Run:  c34})
}

type tempErr struct{ temp bool }

func (e tempErr) Error() string   { return fmt.Sprintf("accept failed (temporary=%v)", e.temp) }
func (e tempErr) Timeout() bool   { return false }
func (e tempErr) Temporary() bool { return e.temp }

// faultyListener fails as told before it accepts.
type faultyListener struct {
	net.Listener
	errs []error
	log  []string
}

func (l *faultyListener) Accept() (net.Conn, error) {
	vrt.Point()
	if len(l.errs) > 0 {
		e := l.errs[0]
		l.errs = l.errs[1:]
		l.log = append(l.log, fmt.Sprintf("E%v", vrt.Now()))
		return nil, e
	}
	l.log = append(l.log, fmt.Sprintf("A%v", vrt.Now()))
	return l.Listener.Accept()
}

// byteCodec has messages of one byte.
type byteCodec struct {
	c      net.Conn
	closed int
}

func (b *byteCodec) Receive() (interface{}, error) {
	var p [1]byte
	n, err := b.c.Read(p[:])
	if n == 0 && err == nil {
		err = io.EOF
	}
	if err != nil {
		return nil, err
	}
	return p[0], nil
}
func (b *byteCodec) Send(m interface{}) error { _, err := b.c.Write([]byte{m.(byte)}); return err }
func (b *byteCodec) Close() error             { b.closed++; return b.c.Close() }

var errCodec = errors.New("no codec")

// The first byte a client sends says what becomes of its connection:
//
//	o  it is served: what it sends comes back
//	b  the protocol refuses it
//	q  the handler returns at once and leaves the session open
//	h  the handler closes the session
//	s  none yet: the connection is still being negotiated
type srvConn struct {
	kind   byte
	c      *vnet.Conn // the client's end
	s      *link.Session
	cd     *byteCodec
	handed int
	ended  int
	end    bool // closed by either side
}

type srvWorld struct {
	x        *X
	l        *faultyListener
	srv      *link.Server
	conns    []*srvConn
	done     *bool
	err      error
	codecs   int
	stopped  bool
	fatal    bool
	pending  int // temporary failures not yet met
	single   bool
	returned int
}

const srvAddr = "127.0.0.1:5000"

func (w *srvWorld) conn(c net.Conn) *srvConn {
	for _, k := range w.conns {
		if k.c.LocalAddr().String() == c.RemoteAddr().String() {
			return k
		}
	}
	w.x.Failf("unknown", "a connection nobody made: %v", c.RemoteAddr())
	return nil
}

func newSrvWorld(x *X, queue int, single bool, errs int) *srvWorld {
	l, err := vnet.Listen("tcp", srvAddr)
	if err != nil {
		x.Failf("harness", "%v", err)
	}
	w := &srvWorld{x: x, l: &faultyListener{Listener: l}, single: single}
	for i := 0; i < errs; i++ {
		w.l.errs = append(w.l.errs, tempErr{true})
	}
	w.srv = link.NewServer(w.l, link.ProtocolFunc(func(rw io.ReadWriter) (link.Codec, error) {
		k := w.conn(rw.(net.Conn))
		w.codecs++
		var p [1]byte
		if _, err := rw.Read(p[:]); err != nil {
			return nil, err
		}
		if p[0] != k.kind {
			x.Failf("mixed", "connection of kind %c starts with %q", k.kind, p[0])
		}
		if k.kind == 'b' {
			return nil, errCodec
		}
		if k.cd != nil {
			x.Failf("codecs", "a connection was given two codecs")
		}
		k.cd = &byteCodec{c: rw.(net.Conn)}
		return k.cd, nil
	}), queue, link.HandlerFunc(func(s *link.Session) {
		var k *srvConn
		for _, q := range w.conns {
			if q.cd == s.Codec() && q.cd != nil {
				k = q
			}
		}
		if k == nil {
			x.Failf("handed", "the handler was given a session of no connection")
			return
		}
		k.handed++
		k.s = s
		if k.handed > 1 {
			x.Failf("handed", "the handler was called twice for one connection")
		}
		if g := w.srv.GetSession(s.ID()); g != s && !s.IsClosed() {
			x.Failf("registered", "the session given to the handler is not registered")
		}
		switch k.kind {
		case 'h':
			s.Close()
		case 'o':
			for {
				m, err := s.Receive()
				if err != nil || s.Send(m) != nil {
					break
				}
			}
		}
		k.ended++
	}))
	if w.srv.Listener() != net.Listener(w.l) {
		x.Failf("listener", "Listener is not the one given")
	}
	w.done = new(bool)
	vrt.GoApp("Serve", func() {
		if single {
			w.err = w.srv.SingleServe()
		} else {
			w.err = w.srv.Serve()
		}
		*w.done = true
	})
	return w
}

func (w *srvWorld) dial(kind byte) *srvConn {
	c := vnet.DialNow(srvAddr)
	if c == nil {
		return nil
	}
	k := &srvConn{kind: kind, c: c}
	w.conns = append(w.conns, k)
	if kind != 's' {
		c.Inject([]byte{kind})
	}
	return k
}

// check compares the world with what every operation so far means.
func (w *srvWorld) check(after string) {
	x := w.x
	serving := 0
	for i, k := range w.conns {
		accepted := !w.single || i == 0
		want := 0
		if accepted && k.kind != 'b' && k.kind != 's' {
			want = 1
		}
		if k.handed != want {
			x.Failf("handed", "after %s: connection %d (%c) was handed to the handler %d times, want %d", after, i, k.kind, k.handed, want)
		}
		if k.kind == 'h' || k.kind == 'b' && accepted || w.stopped && k.kind != 's' {
			k.end = true
		}
		if (accepted || w.stopped) && k.c.PeerClosed() != k.end && !k.c.IsClosed() {
			x.Failf("open", "after %s: connection %d (%c) closed=%v, want %v", after, i, k.kind, k.c.PeerClosed(), k.end)
		}
		if k.s != nil {
			gone := k.end
			if k.kind == 'q' && !w.stopped && !(k.s.IsClosed()) {
				gone = false // nobody reads: the end is not noticed
			}
			if k.s.IsClosed() != gone {
				x.Failf("session", "after %s: session of connection %d (%c) closed=%v, want %v", after, i, k.kind, k.s.IsClosed(), gone)
			}
			if g := w.srv.GetSession(k.s.ID()); (g == nil) != gone || g != nil && g != k.s {
				x.Failf("registered", "after %s: GetSession of connection %d (%c) found=%v, closed=%v", after, i, k.kind, g != nil, gone)
			}
			if gone && k.cd.closed != 1 {
				x.Failf("codec", "after %s: codec of connection %d closed %d times", after, i, k.cd.closed)
			}
			if k.kind != 'q' && (k.ended == 1) != gone || k.kind == 'q' && k.ended != 1 {
				x.Failf("handler", "after %s: the handler of connection %d (%c) ended %d times, closed=%v", after, i, k.kind, k.ended, gone)
			}
			for _, q := range w.conns[:i] {
				if q.s != nil && q.s.ID() == k.s.ID() {
					x.Failf("ids", "two sessions have the id %d", k.s.ID())
				}
			}
			if !gone {
				serving++
			}
		}
	}
	if n := w.srv.GetSession(1 << 62); n != nil {
		x.Failf("registered", "GetSession of an unknown id")
	}
	want := w.stopped || w.fatal
	if w.single && len(w.conns) > 0 {
		k := w.conns[0]
		want = want || k.kind != 'o' || k.end
	}
	if *w.done != want {
		x.Failf("serve", "after %s: Serve returned=%v (%v), want %v", after, *w.done, w.err, want)
	}
	if *w.done {
		switch {
		case w.single && len(w.conns) > 0 && w.conns[0].kind == 'b':
			if w.err != errCodec {
				x.Failf("serve", "SingleServe returned %v, not the protocol's error", w.err)
			}
		case w.single && len(w.conns) > 0:
			if w.err != nil {
				x.Failf("serve", "SingleServe returned %v", w.err)
			}
		case w.fatal:
			if w.err != error(tempErr{false}) {
				x.Failf("serve", "Serve returned %v, not the listener's error", w.err)
			}
		default:
			if w.err != io.EOF {
				x.Failf("serve", "Serve of a stopped server returned %v", w.err)
			}
		}
	}
	x.State(after, fmt.Sprintf("%d/%d %v %v", serving, len(w.conns), w.stopped, *w.done))
}

// delays is the sum of the waits of n temporary failures in a row.
func delays(n int) (d time.Duration) {
	t := 5 * time.Millisecond
	for ; n > 0; n-- {
		d += t
		if t *= 2; t > time.Second {
			t = time.Second
		}
	}
	return
}

func (w *srvWorld) accepting() bool {
	return !w.stopped && !w.fatal && !(w.single && len(w.conns) > 0)
}

func runServer(x *X, queue int, single bool, seq []string) {
	w := newSrvWorld(x, queue, single, 0)
	vrt.Idle()
	for i, op := range seq {
		at := -1
		if len(op) > 1 {
			at = int(op[1] - '0')
		}
		switch op[0] {
		case 'o', 'b', 'q', 'h', 's':
			live := w.accepting()
			fails := w.pending
			if !live {
				if w.stopped && vnet.DialNow(srvAddr) != nil {
					x.Failf("stopped", "a stopped server is still dialled")
				}
				return // as in a shorter sequence
			}
			k := w.dial(op[0])
			if k == nil {
				x.Failf("listening", "after %v the server is not dialled", seq[:i])
				return
			}
			vrt.Idle()
			w.pending = 0
			if fails > 0 && !single {
				if fails == 99 {
					w.fatal = true
					break
				}
				// the next one waits for the failures to pass
				k2 := w.dial(op[0])
				d := delays(fails)
				vrt.Sleep(d - time.Millisecond)
				vrt.Idle()
				if k2.handed > 0 || k2.c.PeerClosed() {
					x.Failf("early", "accepted %v after %d temporary failures", d-time.Millisecond, fails)
				}
				vrt.Sleep(time.Millisecond)
				vrt.Idle()
			}
		case 't', 'f':
			if w.pending > 0 || !w.accepting() {
				return
			}
			w.pending = 99
			if op[0] == 't' {
				w.pending = int(op[1] - '0')
				for n := 0; n < w.pending; n++ {
					w.l.errs = append(w.l.errs, tempErr{true})
				}
			} else {
				w.l.errs = append(w.l.errs, tempErr{false})
			}
		case 'm', 'c', 'x', 'u':
			if at >= len(w.conns) {
				return
			}
			k := w.conns[at]
			if len(w.conns) > 10 && k.end {
				continue
			}
			if k.c.IsClosed() || (op[0] == 'u') != (k.kind == 's') && op[0] != 'c' {
				return
			}
			switch op[0] {
			case 'm':
				b := byte('A' + i)
				k.c.Inject([]byte{b})
				vrt.Idle()
				got := string(k.c.Available())
				k.c.Take(len(got))
				if want := map[bool]string{true: string(rune(b))}[k.kind == 'o' && !k.end]; got != want {
					x.Failf("echo", "after %v: %q on connection %d came back as %q", seq[:i+1], b, at, got)
				}
			case 'u':
				w.settleConn(k)
			case 'c':
				k.c.Shut(false)
				if k.kind == 's' {
					k.kind = 'b'
				}
				k.end = k.kind != 'q' || k.end
			case 'x':
				if k.s == nil {
					return
				}
				err := k.s.Close()
				if (err == nil) == k.end {
					x.Failf("close", "after %v: Close returned %v", seq[:i+1], err)
				}
				k.end = true
			}
			vrt.Idle()
		case 'S':
			w.stop()
			vrt.Idle()
		}
		vrt.Idle()
		w.check(fmt.Sprint(seq[:i+1]))
		w.pendingCheck()
	}
	w.stop()
	vrt.Idle()
	for _, k := range w.conns {
		if k.kind == 's' && !k.c.IsClosed() {
			w.settleConn(k)
			vrt.Idle()
		}
	}
	if len(w.l.errs) == 0 && w.pending != 99 {
		w.check(fmt.Sprint(seq, " Stop"))
	}
	if l := vrt.Live(); len(l) > 0 {
		x.Failf("leak", "threads left after Stop in %v: %v", seq, l)
	}
	x.Eval(fmt.Sprint(queue, single, seq), true)
}

// settleConn ends the negotiation of a connection.
func (w *srvWorld) settleConn(k *srvConn) {
	k.kind = 'o'
	k.c.Inject([]byte{'o'})
}

func (w *srvWorld) pendingCheck() {
	if len(w.l.errs) == 0 && w.pending > 0 {
		w.pending = 0
	}
}

func (w *srvWorld) stop() {
	d := call("Stop", w.srv.Stop)
	vrt.Idle()
	if !*d {
		w.x.Failf("stop", "Stop does not return: %v", vrt.Live())
	}
	w.stopped = true
}

// runDelays has failures before the first connection and between two.
func runDelays(x *X, n int, single bool) {
	w := newSrvWorld(x, 0, single, n)
	k := w.dial('o')
	vrt.Idle()
	d := delays(n)
	for _, rest := range []time.Duration{d - time.Millisecond, time.Millisecond} {
		if n > 0 {
			if k.handed > 0 {
				x.Failf("early", "%d temporary failures: accepted early", n)
			}
			vrt.Sleep(rest)
			vrt.Idle()
		}
	}
	if k.handed != 1 {
		x.Failf("late", "%d temporary failures: not accepted after %v (%v)", n, d, w.l.log)
	}
	// the waits start afresh after a success
	if !single {
		w.l.errs = []error{tempErr{true}, tempErr{true}}
		w.dial('o')
		vrt.Idle()
		k := w.dial('o')
		vrt.Sleep(15*time.Millisecond - 1)
		vrt.Idle()
		if k.handed > 0 {
			x.Failf("early", "accepted early after two failures")
		}
		vrt.Sleep(1)
		vrt.Idle()
		if k.handed != 1 {
			x.Failf("late", "waits do not start afresh after a connection (%v)", w.l.log)
		}
	}
	// Stop during a wait ends it
	w.l.errs = append(w.l.errs, tempErr{true})
	if !single {
		w.dial('o')
		vrt.Idle()
	}
	w.stop()
	vrt.Sleep(time.Second)
	vrt.Idle()
	w.check("Stop")
	x.Outcome("%d failures", n)
}

// runServerRace has the operations of several threads race.
func runServerRace(x *X, queue int, pre string, threads []string) {
	w := newSrvWorld(x, queue, false, 0)
	vrt.Idle()
	for _, k := range []byte(pre) {
		w.dial(k)
		vrt.Idle()
	}
	vrt.Explore(true)
	done, dialled := 0, 0
	stopped := false
	for _, t := range threads {
		ops := strings.Fields(t)
		vrt.GoApp(t, func() {
			for _, op := range ops {
				switch op[0] {
				case 'u':
					vrt.Point()
					w.settleConn(w.conns[op[1]-'0'])
				case 'o', 'b', 'q', 'h', 's':
					vrt.Point()
					if w.dial(op[0]) != nil {
						dialled++
					}
				case 'm':
					vrt.Point()
					w.conns[op[1]-'0'].c.Inject([]byte{'M'})
				case 'c':
					vrt.Point()
					w.conns[op[1]-'0'].c.Shut(false)
					w.conns[op[1]-'0'].end = true
				case 'x':
					if s := w.conns[op[1]-'0'].s; s != nil {
						s.Close()
						w.conns[op[1]-'0'].end = true
					}
				case 'G':
					for _, k := range w.conns {
						if s := k.s; s != nil {
							closed := s.IsClosed()
							if g := w.srv.GetSession(s.ID()); g != nil && g != s || g == nil && !closed && !s.IsClosed() {
								x.Failf("registered", "GetSession of an open session found %v", g != nil)
							}
						}
					}
				case 'S':
					w.srv.Stop()
					stopped = true
					for i, k := range w.conns {
						if k.s != nil && w.srv.GetSession(k.s.ID()) != nil {
							x.Failf("stop", "the session of connection %d is registered after Stop", i)
						}
					}
				}
			}
			done++
		})
	}
	vrt.Idle()
	vrt.Explore(false)
	if done != len(threads) {
		x.Failf("hang", "%v: %v", threads, vrt.Live())
	}
	if stopped {
		w.stopped = true
		for i, k := range w.conns {
			if !k.c.PeerClosed() && !k.c.IsClosed() {
				x.Failf("open", "connection %d (%c) is open after Stop", i, k.kind)
			}
			if k.s != nil && (!k.s.IsClosed() || w.srv.GetSession(k.s.ID()) != nil) {
				x.Failf("open", "the session of connection %d (%c) is open or registered after Stop", i, k.kind)
			}
		}
		if !*w.done || w.err != io.EOF {
			x.Failf("serve", "Serve after Stop: returned %v, %v", *w.done, w.err)
		}
		if l := vrt.Live(); len(l) > 0 {
			x.Failf("leak", "threads left after Stop: %v", l)
		}
		x.Outcome("stopped %d", len(w.conns))
		return
	}
	w.check(fmt.Sprint(threads))
	for i, k := range w.conns {
		if k.kind == 'o' && !k.end && !k.c.IsClosed() {
			k.c.Take(len(k.c.Available()))
			k.c.Inject([]byte{'E'})
			vrt.Idle()
			if got := string(k.c.Available()); got != "E" {
				x.Failf("echo", "connection %d echoes %q", i, got)
			}
		}
	}
	w.stop()
	vrt.Idle()
	w.check("Stop")
	if l := vrt.Live(); len(l) > 0 {
		x.Failf("leak", "threads left after Stop: %v", l)
	}
	x.Outcome("%d", dialled)
}

// runDial has the client side.
func runDial(x *X, queue int, timeout bool, kind string) {
	var l net.Listener
	if kind != "refused" {
		var err error
		if l, err = vnet.Listen("tcp", srvAddr); err != nil {
			x.Failf("harness", "%v", err)
		}
	}
	var cd *byteCodec
	proto := link.ProtocolFunc(func(rw io.ReadWriter) (link.Codec, error) {
		if kind == "codec" {
			return nil, errCodec
		}
		cd = &byteCodec{c: rw.(net.Conn)}
		return cd, nil
	})
	for n := 0; n < 3; n++ {
		var s *link.Session
		var err error
		d := call("Dial", func() {
			if timeout {
				s, err = link.DialTimeout("tcp", srvAddr, time.Second, proto, queue)
			} else {
				s, err = link.Dial("tcp", srvAddr, proto, queue)
			}
		})
		vrt.Idle()
		if !*d {
			x.Failf("dial", "Dial does not return")
		}
		var c *vnet.Conn
		if l != nil {
			c = vnet.TryAccept(l)
		}
		if kind != "ok" {
			if err == nil || s != nil || kind == "codec" && err != errCodec {
				x.Failf("dial", "%s: Dial returned %v, %v", kind, s, err)
			}
			if c != nil && !c.PeerClosed() {
				x.Failf("dial-leak", "Dial failed with %v and left the connection open", err)
			}
			continue
		}
		if err != nil || s == nil || c == nil || s.Codec() != link.Codec(cd) {
			x.Failf("dial", "Dial returned %v, %v", s, err)
			return
		}
		if err := s.Send(byte('D')); err != nil {
			x.Failf("dial", "Send: %v", err)
		}
		vrt.Idle()
		if string(c.Available()) != "D" {
			x.Failf("dial", "sent D, arrived %q", c.Available())
		}
		c.Inject([]byte{'R'})
		if m, err := s.Receive(); err != nil || m != byte('R') {
			x.Failf("dial", "received %v, %v", m, err)
		}
		if n == 0 {
			c.Shut(false)
			if _, err := s.Receive(); err == nil || !s.IsClosed() {
				x.Failf("dial", "the end of the connection is not noticed: %v", err)
			}
		} else if err := s.Close(); err != nil || !c.PeerClosed() || s.Send(byte('x')) == nil {
			x.Failf("dial", "Close: %v, closed %v", err, c.PeerClosed())
		}
		vrt.Idle()
	}
	if lv := vrt.Live(); len(lv) > 0 {
		x.Failf("leak", "threads left: %v", lv)
	}
	x.Outcome("%s", kind)
}

// runListen has the constructor over the network.
func runListen(x *X, queue int) {
	got := 0
	mk := func() (*link.Server, error) {
		return link.Listen("tcp", srvAddr, link.ProtocolFunc(func(rw io.ReadWriter) (link.Codec, error) {
			return &byteCodec{c: rw.(net.Conn)}, nil
		}), queue, link.HandlerFunc(func(s *link.Session) {
			got++
			if m, err := s.Receive(); err == nil {
				s.Send(m)
			}
			s.Receive()
		}))
	}
	for n := 0; n < 3; n++ {
		s, err := mk()
		if err != nil {
			x.Failf("listen", "Listen: %v", err)
			return
		}
		if s2, err := mk(); err == nil || s2 != nil {
			x.Failf("listen", "two servers listen at one address")
		}
		var serr error
		d := call("Serve", func() { serr = s.Serve() })
		vrt.Idle()
		c := vnet.DialNow(srvAddr)
		if c == nil {
			x.Failf("listen", "nobody listens")
			return
		}
		c.Inject([]byte{'L'})
		vrt.Idle()
		if string(c.Available()) != "L" {
			x.Failf("listen", "echo %q", c.Available())
		}
		st := call("Stop", s.Stop)
		vrt.Idle()
		if !*st || !*d || serr != io.EOF || !c.PeerClosed() || vnet.Listening(srvAddr) {
			x.Failf("listen", "Stop: %v %v %v %v", *st, *d, serr, c.PeerClosed())
		}
	}
	x.Outcome("%d", got)
}

func c34(c *C) {
	o := Opt{}
	ops := []string{"o", "b", "q", "h", "m0", "m1", "c0", "c1", "x0", "x1", "t1", "t3", "f", "S"}
	depth := c.Q(4, 5)
	for _, single := range []bool{false, true} {
		for _, queue := range []int{0, 2} {
			single, queue := single, queue
			ops := ops
			if !single {
				ops = append(ops[:len(ops):len(ops)], "s", "u0", "u1")
			}
			var rec func(h []string)
			rec = func(h []string) {
				if len(h) == depth {
					hh := append([]string(nil), h...)
					c.Case(fmt.Sprintf("server queue=%d single=%v %v", queue, single, hh), o, func(x *X) { runServer(x, queue, single, hh) })
					return
				}
				for _, op := range ops {
					rec(append(h[:len(h):len(h)], op))
				}
			}
			rec(nil)
			for _, k := range []string{"ok", "refused", "codec"} {
				k := k
				c.Case(fmt.Sprintf("dial queue=%d timeout=%v %s", queue, single, k), o, func(x *X) { runDial(x, queue, single, k) })
			}
			for n := 0; n <= 14; n++ {
				n := n
				if queue == 0 {
					c.Case(fmt.Sprintf("%d temporary failures single=%v", n, single), o, func(x *X) { runDelays(x, n, single) })
				}
			}
		}
	}
	// more sessions than the registry has shards
	for _, queue := range []int{0, 2} {
		queue := queue
		for _, kinds := range [][]string{{"o"}, {"o", "b", "q", "h"}, {"o", "o", "c0", "x1", "o"}} {
			kinds := kinds
			c.Case(fmt.Sprintf("many queue=%d %v", queue, kinds), o, func(x *X) {
				var seq []string
				for i := 0; i < 70; i++ {
					seq = append(seq, kinds[i%len(kinds)])
				}
				runServer(x, queue, false, seq)
			})
		}
	}
	for _, queue := range []int{0, 2} {
		queue := queue
		c.Case(fmt.Sprintf("listen queue=%d", queue), o, func(x *X) { runListen(x, queue) })
		for _, rc := range []struct {
			pre string
			t   []string
		}{
			{"", []string{"o", "o", "S"}},
			{"", []string{"o o", "S"}},
			{"", []string{"b", "o", "S"}},
			{"", []string{"o", "o", "G"}},
			{"", []string{"o b o"}},
			{"", []string{"h", "q", "S"}},
			{"o", []string{"m0", "S"}},
			{"o", []string{"x0", "S"}},
			{"o", []string{"c0", "S", "o"}},
			{"oo", []string{"x0", "c1", "G"}},
			{"oo", []string{"x0 x1", "S"}},
			{"oq", []string{"x1", "o", "G"}},
			{"o", []string{"S", "S"}},
			{"s", []string{"u0", "S"}},
			{"s", []string{"u0", "o", "G"}},
			{"so", []string{"u0", "x1", "S"}},
			{"o", []string{"S", "o", "G"}},
			{"oo", []string{"m0 m0", "c1", "S"}},
		} {
			rc := rc
			c.Case(fmt.Sprintf("race queue=%d %q %v", queue, rc.pre, rc.t), Opt{Dev: c.Q(2, 3), Split: true}, func(x *X) { runServerRace(x, queue, rc.pre, rc.t) })
		}
	}
}
