package h

import (
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/vnet"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

const hwAddr = "127.0.0.1:5000"

func (c hcfg) portNo() int {
	if c.port == 0 {
		return 5000
	}
	return c.port
}

func (c hcfg) addr() string { return fmt.Sprintf("127.0.0.1:%d", c.portNo()) }

// hcfg configures an endpoint under test.
type hcfg struct {
	port                   int // 0: 5000
	active                 bool
	sess                   int
	t3, t5, t6, t7, t8, lt int
	start                  *uint32 // where the system numbers start
}

func (c hcfg) role() string {
	if c.active {
		return "active"
	}
	return "passive"
}

var hcfgDefault = hcfg{sess: 1, t3: 8, t5: 5, t6: 3, t7: 7, t8: 30, lt: 11}

func (c hcfg) asActive(a bool) hcfg { c.active = a; return c }

type ltRec struct {
	at   time.Duration
	conn int
	sys  uint32
}

// hw is an HSMS endpoint under test with a simulated peer.
type hw struct {
	x       *X
	cfg     hcfg
	p       *hsms.HsmsProtocol
	ln      net.Listener
	c       *vnet.Conn // the peer's end of the current connection
	nconn   int
	rx      []byte
	out     []*wire.Frame // received, not yet consumed, link tests excluded
	all     []*wire.Frame
	lts     []ltRec
	auto    bool // answer link tests
	selSys  uint32
	selOpen bool
	handled []string
	s9      []int
	sysSeen map[string]bool
	mute    bool // do not drain (peer does not read)
	refuse  bool // active endpoint: the peer does not listen
	onFrame func(f *wire.Frame)
	sendSys uint32
	lostAt  time.Duration
	off     bool          // disabled (kept by the scenarios that need it)
	selAt   time.Duration // when the last select.req came
}

func (w *hw) String() string { return w.cfg.role() }

func newHW(x *X, cfg hcfg) *hw {
	w := &hw{x: x, cfg: cfg, auto: true, sysSeen: map[string]bool{}, sendSys: 0x50000000}
	if cfg.start != nil {
		vrt.SetRand(*cfg.start)
	}
	w.p = hsms.NewHsmsProtocol("127.0.0.1", cfg.portNo(), cfg.active, cfg.sess, "sut")
	t := w.p.Timeouts()
	t.SetT3ReplyTimeout(cfg.t3)
	t.SetT5ConnSeparateTimeout(cfg.t5)
	t.SetT6ControlTransTimeout(cfg.t6)
	t.SetT7NotSelectTimeout(cfg.t7)
	t.SetT8NetworkIntercharTimeout(cfg.t8)
	t.SetLinktest(cfg.lt)
	w.p.RegisterHandler(1, 1, func(m *ast.DataMessage) (*ast.DataMessage, error) {
		w.handled = append(w.handled, fmt.Sprintf("%x", m.SystemBytes()))
		return ast.NewDataMessage("", 1, 2, 0, "H<->E", ast.NewListNode()), nil
	})
	w.p.OnS9Error = func(e *hsms.S9ErrorInfo) { w.s9 = append(w.s9, e.ErrorCode) }
	if cfg.active {
		w.listen(true)
	}
	return w
}

func (w *hw) on() bool { return !w.off }

func (w *hw) listen(on bool) {
	if on && w.ln == nil {
		l, err := vnet.Listen("tcp", w.cfg.addr())
		if err != nil {
			w.x.Failf("harness", "peer listen: %v", err)
		}
		w.ln = l
	}
	if !on && w.ln != nil {
		w.ln.Close()
		w.ln = nil
	}
}

// up reports whether the peer sees an open connection.
func (w *hw) up() bool { return w.c != nil && !w.c.IsClosed() && !w.c.PeerClosed() }

// poll takes what arrived; it reports whether anything happened.
func (w *hw) poll() bool {
	did := false
	if w.ln != nil {
		for {
			c := vnet.TryAccept(w.ln)
			if c == nil {
				break
			}
			if w.up() {
				w.x.Failf("two-connections", "the endpoint opened a second connection while the first is up")
			}
			w.setConn(c)
			did = true
		}
	}
	if w.c == nil || w.mute {
		return did
	}
	if b := w.c.Available(); len(b) > 0 {
		w.rx = append(w.rx, w.c.Take(len(b))...)
		did = true
	}
	for {
		f, n := wire.Parse(w.rx)
		if f == nil {
			break
		}
		w.rx = w.rx[n:]
		did = true
		if f.BadBody || f.PType != 0 {
			w.x.Failf("bad-frame", "the endpoint sent a malformed frame: %v", f)
		}
		w.x.Logf("<- %v", f)
		w.all = append(w.all, f)
		if w.onFrame != nil {
			w.onFrame(f)
		}
		if f.SType == wire.SelectReq || f.SType == wire.DeselectReq || f.SType == wire.LinktestReq || f.SType == wire.SeparateReq || f.SType == 0 && f.F()%2 == 1 && f.S() != 9 {
			k := fmt.Sprintf("%d", f.Sys)
			if w.sysSeen[k] {
				w.x.Failf("system-bytes-reused", "system bytes %08x used again by %v", f.Sys, f)
			}
			w.sysSeen[k] = true
		}
		if f.SType == wire.LinktestReq {
			if f.Session != 0xffff || f.B2 != 0 || f.B3 != 0 {
				w.x.Failf("linktest-header", "malformed %v", f)
			}
			w.lts = append(w.lts, ltRec{vrt.Now(), w.nconn, f.Sys})
			if w.auto && w.up() {
				w.send(wire.NewCtrl(wire.LinktestRsp, 0xffff, 0, 0, f.Sys))
			}
			continue
		}
		if f.SType == wire.SelectReq {
			w.selSys, w.selOpen, w.selAt = f.Sys, true, vrt.Now()
		}
		w.out = append(w.out, f)
	}
	if w.c.PeerClosed() && !w.c.IsClosed() {
		if len(w.rx) > 0 {
			w.x.Failf("cut-frame", "the connection ended inside a frame: %x", w.rx)
		}
		w.x.Logf("<- connection closed by the endpoint")
		w.lostAt = vrt.Now()
		w.c.Shut(false)
		did = true
	}
	return did
}

func (w *hw) setConn(c *vnet.Conn) {
	w.c = c
	w.nconn++
	w.rx = nil
	w.selOpen = false
	w.selSys = 0
	w.x.Logf("connection %d", w.nconn)
}

// settle runs everything that can run now.
func (w *hw) settle() {
	for i := 0; ; i++ {
		vrt.Idle()
		if !w.poll() {
			return
		}
		if i > 1000 {
			w.x.Failf("chatter", "the exchange does not come to rest")
		}
	}
}

// wait lets d pass, the peer answering link tests promptly.
func (w *hw) wait(d time.Duration) {
	end := vrt.Now() + d
	for {
		left := end - vrt.Now()
		if left <= 0 {
			return
		}
		step := 500*time.Millisecond - vrt.Now()%(500*time.Millisecond)
		if step > left {
			step = left
		}
		vrt.Sleep(step)
		w.settle()
	}
}

// connect (passive endpoint) dials it.
func (w *hw) connect() bool {
	c := vnet.DialNow(w.cfg.addr())
	if c == nil {
		return false
	}
	w.setConn(c)
	return true
}

func (w *hw) send(f *wire.Frame) {
	if !w.up() {
		return
	}
	w.x.Logf("-> %v", f)
	w.c.Inject(f.Encode())
}

func (w *hw) raw(b []byte) {
	if w.up() {
		w.x.Logf("-> %x", b)
		w.c.Inject(b)
	}
}

// take removes and returns the frames received since the last call.
func (w *hw) take() []*wire.Frame {
	o := w.out
	w.out = nil
	return o
}

func frames(fs []*wire.Frame) string {
	var s []string
	for _, f := range fs {
		s = append(s, f.String())
	}
	return "[" + strings.Join(s, " ") + "]"
}

func (w *hw) nextSys() uint32 { w.sendSys++; return w.sendSys }

// toSelected brings a fresh enabled endpoint to SELECTED.
func (w *hw) toSelected() {
	w.p.Enable()
	w.settle()
	w.selectNow()
}

// selectNow completes connection and selection within the reconnection delay.
func (w *hw) selectNow() {
	if w.cfg.active {
		for i := 0; i < 200 && !w.up(); i++ {
			w.wait(500 * time.Millisecond)
		}
		if !w.up() {
			w.x.Failf("no-reconnect", "no connection within 100 s")
		}
		switch {
		case w.selOpen && vrt.Now()-w.selAt < time.Duration(w.cfg.t6)*sec-500*time.Millisecond:
			w.send(wire.NewCtrl(wire.SelectRsp, uint16(w.cfg.sess), 0, 0, w.selSys))
		case w.selSys == 0:
			w.x.Failf("no-select", "no select.req after the connection")
		default: // too late for an answer
			w.send(wire.NewCtrl(wire.SelectReq, uint16(w.cfg.sess), 0, 0, w.nextSys()))
		}
		w.selOpen = false
	} else {
		for i := 0; i < 200 && !w.up(); i++ {
			if w.connect() {
				w.settle()
				break
			}
			w.wait(500 * time.Millisecond)
		}
		if !w.up() {
			w.x.Failf("no-reconnect", "not listening or refused for 100 s")
		}
		w.send(wire.NewCtrl(wire.SelectReq, uint16(w.cfg.sess), 0, 0, w.nextSys()))
	}
	w.settle()
	if s := w.p.CurrentState(); s != "CONNECTED_SELECTED" {
		w.x.Failf("not-selected", "state %s after an accepted select exchange", s)
	}
	w.take()
}

// probe checks that a selected session works in both directions.
func (w *hw) probe() {
	w.take()
	lt, dt := w.nextSys(), w.nextSys()
	w.send(wire.NewCtrl(wire.LinktestReq, 0xffff, 0, 0, lt))
	w.send(wire.NewData(uint16(w.cfg.sess), 1, 1, true, dt, nil))
	w.settle()
	got := w.take()
	if len(got) != 2 || got[0].SType != wire.LinktestRsp || got[0].Sys != lt || got[1].SType != 0 || got[1].Sys != dt || got[1].S() != 1 || got[1].F() != 2 {
		w.x.Failf("probe", "linktest and S1F1 answered by %s", frames(got))
	}
	var rep *ast.DataMessage
	var err error
	done := false
	vrt.GoApp("probe", func() {
		rep, err = w.p.SendAndWait(ast.NewDataMessage("", 1, 3, 1, "H<->E", ast.NewListNode()))
		done = true
	})
	w.settle()
	got = w.take()
	if len(got) != 1 || got[0].SType != 0 || got[0].S() != 1 || got[0].F() != 3 || !got[0].W() {
		w.x.Failf("probe", "SendAndWait put %s on the wire (%v)", frames(got), err)
	}
	w.send(wire.NewData(uint16(w.cfg.sess), 1, 4, false, got[0].Sys, wire.A("ok")))
	w.settle()
	if !done || err != nil || rep == nil {
		w.x.Failf("probe", "SendAndWait: done=%v %v", done, err)
	}
}

// coherent checks that the reported state agrees with the connection.
func (w *hw) coherent(when string) {
	s, conn := w.p.CurrentState(), w.p.Connected()
	up := w.up()
	if (s != "NOT-CONNECTED") != up || conn != up {
		w.x.Failf("incoherent", "%s: state %s, Connected() %v, connection up %v", when, s, conn, up)
	}
}
