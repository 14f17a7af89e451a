package h

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"regexp"
	"strings"
	"time"

	"github.com/younglifestyle/secs4go/common"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/vnet"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C11", Level: "model_checking", Budget: [2]int{240, 850},
		Rule: "every sequence of registrations and arrivals (bursts, split frames, all wait bits) to the depth bound against a reference dispatcher; every one of the 128 x 256 stream and function codes with and without handlers; registrations and senders racing with arrivals under every schedule to the deviation bound",
		Run:  c11})
	register(&Check{ID: "C13", Level: "model_checking", Budget: [2]int{240, 850},
		Rule: "every control message type and status in every session state, bursts of control messages racing with a local disable, enable, T7 expiry, sends and a blocked handler under every schedule to the deviation bound; each request has exactly its answer and the endpoint works afterwards",
		Run:  c13})
	register(&Check{ID: "C33", Level: "model_checking", Budget: [2]int{240, 850},
		Rule: "every logging configuration of the grid over every exchange sequence to the depth bound, log entries compared with the frames on the wire, and the frames with those of a run without logging; concurrent traffic under every schedule to the deviation bound",
		Run:  c33})
}

// ---- C11

var knownStreams = map[int]bool{1: true, 2: true, 3: true, 4: true, 5: true, 6: true, 7: true, 8: true, 9: true, 10: true, 12: true, 13: true, 14: true, 15: true, 16: true, 17: true, 21: true}

// dw is an endpoint with handlers of several kinds.
type dw struct {
	*hw
	got  []string       // who got what
	regs map[string]int // kind of handler by S/F
	def  int
	want []string
	out  []string // frames wanted, "?" prefix: optional
}

// handler kinds: 1 replies, 2 returns nothing, 3 fails, 4 replies another
func (w *dw) handler(name string, kind int) hsms.DataMessageHandler {
	return func(m *ast.DataMessage) (*ast.DataMessage, error) {
		body := ""
		if f, _ := wire.Parse(m.ToBytes()); f != nil && f.Item != nil {
			body = f.Item.String()
		}
		w.got = append(w.got, fmt.Sprintf("%s:S%dF%d %s %x %s", name, m.StreamCode(), m.FunctionCode(), m.WaitBit(), m.SystemBytes(), body))
		switch kind {
		case 1:
			return ast.NewDataMessage("", m.StreamCode(), m.FunctionCode()+1, 0, "H<->E", ast.NewASCIINode("re"+fmt.Sprint(kind))), nil
		case 4:
			return ast.NewDataMessage("", m.StreamCode(), m.FunctionCode()+1, 2, "H<->E", ast.NewASCIINode("re"+fmt.Sprint(kind))), nil
		case 3:
			return nil, errors.New("refused")
		}
		return nil, nil
	}
}

func (w *dw) register(s, f, kind int) {
	k := fmt.Sprintf("S%dF%d", s, f)
	if kind == 0 {
		w.p.RegisterHandler(s, f, nil)
	} else {
		w.p.RegisterHandler(s, f, w.handler(k+"#"+fmt.Sprint(kind), kind))
	}
	w.regs[k] = kind
}

func (w *dw) setDefault(kind int) {
	if kind == 0 {
		w.p.RegisterDefaultHandler(nil)
	} else {
		w.p.RegisterDefaultHandler(w.handler("default#"+fmt.Sprint(kind), kind))
	}
	w.def = kind
}

// expect adds what an arrival must cause.
func (w *dw) expect(f *wire.Frame) {
	k := fmt.Sprintf("S%dF%d", f.S(), f.F())
	kind, name := w.regs[k], fmt.Sprintf("%s#%d", k, w.regs[k])
	if kind == 0 {
		kind, name = w.def, fmt.Sprintf("default#%d", w.def)
	}
	body := ""
	if f.Item != nil {
		body = f.Item.String()
	}
	opt := ""
	if !f.W() || f.F()%2 == 0 {
		opt = "?" // nobody waits for an answer
	}
	if kind != 0 {
		w.want = append(w.want, fmt.Sprintf("%s:S%dF%d %v %08x %s", name, f.S(), f.F(), f.W(), f.Sys, body))
		if kind == 1 || kind == 4 {
			w.out = append(w.out, fmt.Sprintf("%sS%dF%d %08x %s", opt, f.S(), f.F()+1, f.Sys, wire.A("re"+fmt.Sprint(kind))))
		}
		return
	}
	if f.S() == 9 {
		return
	}
	if f.F()%2 == 1 {
		opt = "" // an unrecognised primary is reported in any case
	}
	if knownStreams[f.S()] {
		w.out = append(w.out, fmt.Sprintf("%sS9F5 %08x %s", opt, f.Sys, wire.B(byte(f.F()))))
	} else {
		w.out = append(w.out, fmt.Sprintf("%sS9F3 %08x %s", opt, f.Sys, wire.B(byte(f.S()))))
	}
}

func (w *dw) compare(when string) {
	x := w.x
	if g, wt := strings.Join(w.got, "\n"), strings.Join(w.want, "\n"); g != wt {
		x.Failf("dispatch", "%s: handlers got\n%s\nwant\n%s", when, g, wt)
	}
	i := 0
	out := w.take()
	for _, f := range out {
		if f.SType != 0 {
			x.Failf("frame", "%s: %v", when, f)
		}
		if int(f.Session) != w.cfg.sess || f.W() {
			x.Failf("reply-header", "%s: reply %v", when, f)
		}
		s := fmt.Sprintf("S%dF%d %08x %v", f.S(), f.F(), f.Sys, f.Item)
		for i < len(w.out) && w.out[i] != s && w.out[i] == "?"+s == false && w.out[i][0] == '?' {
			i++
		}
		if i >= len(w.out) || strings.TrimPrefix(w.out[i], "?") != s {
			x.Failf("reply", "%s: the endpoint sent %s, want %v", when, frames(out), w.out)
		}
		i++
	}
	for ; i < len(w.out); i++ {
		if w.out[i][0] != '?' {
			x.Failf("reply", "%s: the endpoint sent %s, want %v", when, frames(out), w.out)
		}
	}
	w.got, w.want, w.out = nil, nil, nil
}

var dops = []string{"S1F1", "S1F1-", "S2F41", "S6F11-", "S99F3", "S9F7-", "S1F4-", "S5F0-", "burst", "cut", "reg1", "unreg", "def", "nodef", "reg4"}

func (w *dw) arrive(op string, inj func([]byte)) {
	var s, f int
	fmt.Sscanf(op, "S%dF%d", &s, &f)
	fr := wire.NewData(uint16(w.cfg.sess), s, f, !strings.HasSuffix(op, "-"), w.nextSys(), wire.A(fmt.Sprint(w.sendSys)))
	w.expect(fr)
	w.x.Logf("-> %v", fr)
	inj(fr.Encode())
}

func runDispatch(x *X, cfg hcfg, ops []string) {
	w := &dw{hw: newHW(x, cfg), regs: map[string]int{}}
	w.register(1, 1, 1)
	w.register(2, 41, 2)
	w.register(6, 11, 3)
	w.toSelected()
	hist := ""
	for _, op := range ops {
		hist += " " + op
		switch op {
		case "reg1", "reg4":
			w.register(1, 1, int(op[3]-'0'))
			w.register(99, 3, int(op[3]-'0'))
		case "unreg":
			w.register(1, 1, 0)
			w.register(2, 41, 0)
		case "def":
			w.setDefault(1)
		case "nodef":
			w.setDefault(0)
		case "burst":
			var all []byte
			for _, o := range []string{"S1F1", "S99F3", "S2F41", "S1F1", "S6F11-", "S1F1"} {
				w.arrive(o, func(b []byte) { all = append(all, b...) })
			}
			w.c.Inject(all)
		case "cut":
			w.arrive("S1F1", func(b []byte) {
				for i := range b {
					w.c.Inject(b[i : i+1])
					vrt.Idle()
				}
			})
		default:
			w.arrive(op, w.c.Inject)
		}
		w.settle()
		w.compare("after" + hist)
		x.State(op, fmt.Sprint(w.regs, w.def))
	}
	x.Outcome("%d", len(ops))
}

// runAllCodes: every stream and function code.
func runAllCodes(x *X, cfg hcfg, mode string, s0, s1 int) {
	w := &dw{hw: newHW(x, cfg), regs: map[string]int{}}
	w.p.RegisterHandler(1, 1, nil)
	w.toSelected()
	if mode == "default" {
		w.setDefault(2)
	}
	for s := s0; s < s1; s++ {
		for f := 0; f < 256; f++ {
			if mode == "handler" && f < 255 {
				w.register(s, f, 1)
			}
			op := fmt.Sprintf("S%dF%d", s, f)
			if f%2 == 0 {
				op += "-" // a secondary message has no wait bit
			}
			w.arrive(op, w.c.Inject)
			w.settle()
			w.compare(fmt.Sprintf("S%dF%d (%s)", s, f, mode))
			if mode == "handler" {
				w.register(s, f, 0)
			}
			w.all = w.all[:0]
			x.Eval(fmt.Sprintf("%s S%dF%d", mode, s, f), true)
		}
	}
}

// runAllHandlers: a handler for every stream and function at once.
func runAllHandlers(x *X, cfg hcfg, s0, s1 int) {
	w := &dw{hw: newHW(x, cfg), regs: map[string]int{}}
	for s := 0; s < 128; s++ {
		for f := 0; f < 255; f++ {
			w.register(s, f, 1)
		}
	}
	w.toSelected()
	for s := s0; s < s1; s++ {
		for f := 0; f < 255; f++ {
			op := fmt.Sprintf("S%dF%d", s, f)
			if f%2 == 0 {
				op += "-"
			}
			w.arrive(op, w.c.Inject)
			if f%16 == 15 || f == 254 {
				w.settle()
				w.compare(fmt.Sprintf("S%dF%d (all)", s, f))
			}
			x.Eval(fmt.Sprintf("all S%dF%d", s, f), true)
		}
		w.all = w.all[:0]
	}
}

// runDispatchRace: arrivals, registrations and senders at one instant.
func runDispatchRace(x *X, cfg hcfg, evs []string) {
	w := &dw{hw: newHW(x, cfg), regs: map[string]int{}}
	w.register(1, 1, 1)
	w.toSelected()
	var arr []uint32
	old := w.handler("old", 1)
	_ = old
	vrt.Explore(true)
	sends := 0
	for _, e := range evs {
		switch e {
		case "in":
			sys := w.nextSys()
			arr = append(arr, sys)
			w.send(wire.NewData(uint16(cfg.sess), 1, 1, true, sys, wire.A("x")))
		case "reg":
			call("register", func() { w.p.RegisterHandler(1, 1, w.handler("S1F1#4", 4)) })
		case "unreg":
			call("register", func() { w.p.RegisterHandler(1, 1, nil) })
		case "def":
			call("register", func() { w.p.RegisterDefaultHandler(w.handler("default#1", 1)) })
		case "send":
			sends++
			call("send", func() { w.p.SendDataMessage(ast.NewDataMessage("", 6, 11, 0, "H<->E", ast.NewASCIINode("event"))) })
		case "wait":
			sends++
			call("wait", func() { w.p.SendAndWait(ast.NewDataMessage("", 6, 11, 1, "H<->E", ast.NewASCIINode("event"))) })
		}
	}
	w.settle()
	vrt.Explore(false)
	// each arrival handled at most once, in order, and answered once, in order
	var hs, rs []uint32
	for _, g := range w.got {
		i := strings.Index(g, " 5")
		var sys uint32
		fmt.Sscanf(g[i+1:], "%08x", &sys)
		hs = append(hs, sys)
	}
	ev := 0
	for _, f := range w.take() {
		if f.SType == 0 && f.S() == 6 && f.F() == 11 {
			ev++
			continue
		}
		if f.SType != 0 || !(f.S() == 1 && f.F() == 2 || f.S() == 9 && f.F() == 5) {
			x.Failf("reply", "frame %v", f)
		}
		if f.S() == 1 {
			if len(hs) == 0 || hs[0] != f.Sys {
				x.Failf("dispatch", "reply %v, handlers got %v", f, w.got)
			}
			hs = hs[1:]
		}
		rs = append(rs, f.Sys)
	}
	if fmt.Sprint(rs) != fmt.Sprint(arr) || len(hs) > 0 || ev != sends {
		x.Failf("dispatch", "arrived %x, answered %x, handlers got %v, %d of %d events", arr, rs, w.got, ev, sends)
	}
	x.Outcome("%v", w.got)
	w.p.RegisterHandler(1, 1, w.handler("S1F1#1", 1))
	w.probe()
}

func c11(c *C) {
	for _, active := range []bool{false, true} {
		cfg := hcfgDefault.asActive(active)
		for n := 1; n <= c.Q(4, 5); n++ {
			seqsOf(dops, n, func(ops []string) {
				c.Case(fmt.Sprintf("seq %s %s", cfg.role(), strings.Join(ops, " ")), Opt{}, func(x *X) { runDispatch(x, cfg, ops) })
			})
		}
		for _, m := range []string{"none", "default", "handler"} {
			for s := 0; s < 128; s += 4 {
				s := s
				c.Case(fmt.Sprintf("codes %s %s %d", cfg.role(), m, s), Opt{MaxSteps: 20000000}, func(x *X) { runAllCodes(x, cfg, m, s, s+4) })
			}
		}
		for s := 0; s < 128; s += 16 {
			c.Case(fmt.Sprintf("all handlers %s %d", cfg.role(), s), Opt{MaxSteps: 50000000}, func(x *X) { runAllHandlers(x, cfg, s, s+16) })
		}
		for n := 2; n <= 3; n++ {
			seqsOf([]string{"in", "reg", "unreg", "def", "send", "wait"}, n, func(ev []string) {
				if !strings.Contains(strings.Join(ev, " "), "in") {
					return
				}
				c.Case(fmt.Sprintf("race %s %s", cfg.role(), strings.Join(ev, " ")), Opt{Dev: c.Q(2, 3), Split: true}, func(x *X) { runDispatchRace(x, cfg, ev) })
			})
		}
	}
}

// ---- C13

// ctlReq is a control message from the peer.
type ctlReq struct {
	name string
	st   byte
	sess int // -1: session of the endpoint, -2: another
	b2   byte
	b3   byte
}

var ctls = []ctlReq{
	{"selreq", wire.SelectReq, -1, 0, 0}, {"deselreq", wire.DeselectReq, -1, 0, 0}, {"link", wire.LinktestReq, 0xffff, 0, 0},
	{"link0", wire.LinktestReq, -1, 0, 0}, {"selrsp", wire.SelectRsp, -1, 0, 0}, {"selrsp3", wire.SelectRsp, -1, 0, 3},
	{"deselrsp", wire.DeselectRsp, -1, 0, 0}, {"deselrsp1", wire.DeselectRsp, -1, 0, 1}, {"linkrsp", wire.LinktestRsp, 0xffff, 0, 0},
	{"reject", wire.RejectReq, -1, 1, 4}, {"reject0", wire.RejectReq, 0xffff, 0, 0}, {"selwild", wire.SelectReq, 0xffff, 0, 0},
	{"deselwild", wire.DeselectReq, 0xffff, 0, 0},
}

func (w *hw) ctl(q ctlReq, sys uint32) *wire.Frame {
	s := uint16(q.sess)
	if q.sess == -1 {
		s = uint16(w.cfg.sess)
	}
	f := wire.NewCtrl(q.st, s, q.b2, q.b3, sys)
	w.send(f)
	return f
}

// answers checks that every request has one answer; all: none may be missing.
func answers(x *X, when string, reqs, out []*wire.Frame, all bool) {
	left := append([]*wire.Frame(nil), reqs...)
	for _, f := range out {
		if f.SType == wire.SelectReq || f.SType == wire.DeselectReq || f.SType == wire.SeparateReq || f.SType == 0 {
			continue // the endpoint's own
		}
		ok := false
		for i, r := range left {
			if r.Sys != f.Sys {
				continue
			}
			sess := r.Session
			if r.SType == wire.LinktestReq && f.SType == wire.LinktestRsp {
				sess = 0xffff
			}
			if f.SType == r.SType+1 && (r.SType == wire.SelectReq || r.SType == wire.DeselectReq || r.SType == wire.LinktestReq) && f.Session == sess && f.B2 == 0 && (r.SType != wire.LinktestReq || f.B3 == 0) {
				ok = true
			}
			if f.SType == wire.RejectReq && f.Session == r.Session && f.B3 != 0 && f.B2 == r.SType {
				// an endpoint that is up has to answer
				if all {
					x.Failf("rejected", "%s: %v is rejected: %v", when, r, f)
				}
				ok = true
			}
			if ok {
				left = append(left[:i:i], left[i+1:]...)
				break
			}
		}
		if !ok {
			x.Failf("wrong-answer", "%s: %v answers none of %s, or a second time", when, f, frames(left))
		}
	}
	if all && len(left) > 0 {
		x.Failf("no-answer", "%s: no answer to %s in %s", when, frames(left), frames(out))
	}
}

func isReq(q ctlReq) bool {
	return q.st == wire.SelectReq || q.st == wire.DeselectReq || q.st == wire.LinktestReq
}

func (w *hw) toStage(stage string) bool {
	sess := uint16(w.cfg.sess)
	switch stage {
	case "ns":
		w.p.Enable()
		w.settle()
		w.ensureUp()
	case "sel":
		w.toSelected()
	case "desel":
		w.toSelected()
		w.send(wire.NewCtrl(wire.DeselectReq, sess, 0, 0, w.nextSys()))
		w.settle()
	case "t7": // T7 is a second away
		w.p.Enable()
		w.settle()
		w.ensureUp()
		w.wait(time.Duration(w.cfg.t7)*sec - (vrt.Now() % sec) - sec)
	case "late": // the select request of an active endpoint was not answered
		w.p.Enable()
		w.settle()
		w.ensureUp()
		w.wait(time.Duration(w.cfg.t6+1) * sec)
	}
	w.take()
	return true
}

func (w *hw) works(when string) {
	w.wait(time.Duration(w.cfg.t7+w.cfg.t5+1) * sec)
	if w.up() && w.p.CurrentState() != hstates[2] {
		w.c.Shut(false)
		w.settle()
	}
	w.onFrame = nil
	if !w.up() {
		w.selectNow()
	}
	w.coherent(when)
	w.probe()
}

func runCtl(x *X, cfg hcfg, stage string, qs []ctlReq, local string) {
	w := newHW(x, cfg)
	block := false
	w.p.RegisterHandler(1, 5, func(m *ast.DataMessage) (*ast.DataMessage, error) {
		if block {
			vrt.Sleep(2 * sec)
		}
		return nil, nil
	})
	w.toStage(stage)
	if local == "handler" {
		if stage != "sel" {
			return
		}
		block = true
		w.send(wire.NewData(uint16(cfg.sess), 1, 5, true, w.nextSys(), nil))
		w.settle()
	}
	conn := w.nconn
	var calls []*bool
	vrt.Explore(true)
	if stage == "t7" {
		vrt.Sleep(sec)
	}
	switch local {
	case "disable":
		calls = append(calls, call("Disable", w.p.Disable))
	case "disable-enable":
		calls = append(calls, call("Disable", func() { w.p.Disable(); w.p.Enable() }))
	case "send":
		calls = append(calls, call("send", func() { w.p.SendDataMessage(ast.NewDataMessage("", 6, 11, 0, "H<->E", ast.NewListNode())) }))
	case "wait":
		call("wait", func() { w.p.SendAndWait(ast.NewDataMessage("", 6, 11, 1, "H<->E", ast.NewListNode())) })
	}
	var reqs []*wire.Frame
	for _, q := range qs {
		sys := w.nextSys()
		switch {
		case q.name == "selrsp" && w.selOpen:
			sys = w.selSys
		}
		if !w.up() {
			break
		}
		f := w.ctl(q, sys)
		if isReq(q) {
			reqs = append(reqs, f)
		}
	}
	w.settle()
	vrt.Explore(false)
	if local == "handler" {
		w.wait(3 * sec)
	}
	// requests that came in on a connection that is still up are answered
	all := w.nconn == conn && w.up() && !strings.HasPrefix(local, "disable")
	answers(x, stage+" "+local, reqs, w.take(), all)
	w.finish("local "+local, calls...)
	x.Outcome("%s up=%v", w.p.CurrentState(), w.up())
	if local == "disable" {
		w.quiet("disabled during control messages")
		w.p.Enable()
		w.settle()
	}
	w.works("after control messages")
}

// runRawCtl: a control message with the given header bytes in a state.
func runRawCtl(x *X, cfg hcfg, stage string, st byte) {
	for _, sess := range []int{cfg.sess, 0, 0xffff, cfg.sess + 1} {
		for _, b2 := range []byte{0, 1, 0x80, 255} {
			for _, b3 := range []byte{0, 1, 2, 255} {
				x.Logf("case sess=%d b2=%d b3=%d", sess, b2, b3)
				w := newHW(x, cfg)
				w.p.Enable()
				w.settle()
				w.stageNow(stage)
				f := wire.NewCtrl(st, uint16(sess), b2, b3, w.nextSys())
				w.send(f)
				w.settle()
				var reqs []*wire.Frame
				if st == wire.SelectReq || st == wire.DeselectReq || st == wire.LinktestReq {
					reqs = append(reqs, f)
				}
				answers(x, fmt.Sprintf("%s SType %d sess=%d b2=%d b3=%d", stage, st, sess, b2, b3), reqs, w.take(), w.up())
				w.works("after a raw control message")
				w.finish("Disable", call("Disable", w.p.Disable))
				w.settle()
				w.listen(false)
				x.Eval(fmt.Sprintf("%s %d %d %d %d", stage, st, sess, b2, b3), true)
			}
		}
	}
}

func (w *hw) stageNow(stage string) {
	switch stage {
	case "ns":
		w.ensureUp()
	default:
		w.selectNow()
		if stage == "desel" {
			w.send(wire.NewCtrl(wire.DeselectReq, uint16(w.cfg.sess), 0, 0, w.nextSys()))
			w.settle()
		}
	}
	w.take()
}

func c13(c *C) {
	for _, active := range []bool{false, true} {
		cfg := hcfgDefault.asActive(active)
		for _, stage := range []string{"ns", "sel", "desel"} {
			for st := 0; st <= 16; st++ {
				if st == 0 || st > 9 && st < 16 && !c.Thorough {
					continue
				}
				c.Case(fmt.Sprintf("raw %s %s %d", cfg.role(), stage, st), Opt{MaxSteps: 50000000}, func(x *X) { runRawCtl(x, cfg, stage, byte(st)) })
			}
		}
		for _, stage := range []string{"ns", "sel", "desel", "t7", "late"} {
			if stage == "late" && !active {
				continue
			}
			for _, local := range []string{"", "disable", "disable-enable", "send", "wait", "handler"} {
				if local == "handler" && stage != "sel" {
					continue
				}
				if (local == "send" || local == "wait") && stage != "sel" && stage != "desel" {
					continue
				}
				for i := range ctls {
					q := ctls[i]
					c.Case(fmt.Sprintf("ctl %s %s %s %s", cfg.role(), stage, local, q.name), Opt{Dev: c.Q(1, 2), Split: true}, func(x *X) { runCtl(x, cfg, stage, []ctlReq{q}, local) })
					for j := range ctls {
						q2 := ctls[j]
						dev := c.Q(1, 2)
						if !c.Thorough && !(isReq(q) && isReq(q2)) {
							dev = 0
						}
						c.Case(fmt.Sprintf("ctl %s %s %s %s %s", cfg.role(), stage, local, q.name, q2.name), Opt{Dev: dev, Split: true}, func(x *X) { runCtl(x, cfg, stage, []ctlReq{q, q2}, local) })
					}
				}
			}
		}
	}
}

// ---- C33

type logw struct {
	entries []string
	busy    int
	x       *X
	slow    bool
}

func (l *logw) Write(b []byte) (int, error) {
	l.busy++
	if l.busy > 1 {
		l.x.Failf("log-interleaved", "two log entries are written at once")
	}
	if l.slow {
		vrt.Point()
	}
	l.entries = append(l.entries, string(b))
	if l.slow {
		vrt.Point()
	}
	l.busy--
	return len(b), nil
}

type lcfg struct {
	on, ctrl bool
	mode     hsms.LoggingMode
	excl     map[string]struct{}
}

func (l lcfg) String() string {
	var e []string
	for k := range l.excl {
		e = append(e, k)
	}
	return fmt.Sprintf("on=%v mode=%d ctrl=%v excl=%v", l.on, l.mode, l.ctrl, e)
}

var ctlNames = map[byte]string{1: "select.req", 2: "select.rsp", 3: "deselect.req", 4: "deselect.rsp", 5: "linktest.req", 6: "linktest.rsp", 7: "reject.req", 9: "separate.req"}

func (l lcfg) excluded(st byte) bool {
	for k := range l.excl {
		if strings.EqualFold(strings.TrimSpace(k), ctlNames[st]) {
			return true
		}
	}
	return false
}

// lrec is a frame with its direction as the endpoint sees it.
type lrec struct {
	out bool
	f   *wire.Frame
}

var hexRun = regexp.MustCompile(`[^0-9A-F]`)

// entry checks that e is the log entry of r.
func (l lcfg) entry(x *X, e string, r lrec) string {
	f := r.f
	sml := l.mode == hsms.LoggingModeUnset || l.mode == hsms.LoggingModeSML || l.mode == hsms.LoggingModeBoth
	bin := l.mode == hsms.LoggingModeBinary || l.mode == hsms.LoggingModeBoth
	hex := fmt.Sprintf("%X", f.Encode())
	if f.SType == 0 {
		dir := "IN"
		if r.out {
			dir = "OUT"
		}
		head := strings.SplitN(e, "\n", 2)[0]
		for _, w := range []string{"[" + dir + "]", fmt.Sprintf("S%02dF%02d", f.S(), f.F()), fmt.Sprintf("session=%d", f.Session), fmt.Sprintf("wait=%s", strings.ToUpper(fmt.Sprint(f.W()))), fmt.Sprintf("system=%08X", f.Sys)} {
			if !strings.Contains(head, w) {
				return "no " + w
			}
		}
		body := ""
		if i := strings.Index(e, "\n"); i >= 0 {
			body = e[i+1:]
		}
		bi := strings.Index(body, "BIN:")
		smlPart, binPart := body, ""
		if bi >= 0 {
			smlPart, binPart = body[:bi], body[bi+4:]
		}
		if bin != (bi >= 0) || bin && hexRun.ReplaceAllString(binPart, "") != hex {
			return "binary form"
		}
		if sml != strings.Contains(smlPart, "SML:") {
			return "SML form"
		}
		if sml {
			want := fmt.Sprintf("S%dF%d", f.S(), f.F())
			if !strings.Contains(smlPart, want) {
				return "SML without " + want
			}
			flat := func(s string) string { return strings.Join(strings.Fields(s), " ") }
			if f.Item != nil && !strings.HasSuffix(flat(smlPart), flat(fmt.Sprint(node(f.Item)))+" .") {
				return "SML without the item " + fmt.Sprint(node(f.Item))
			}
		}
		return ""
	}
	dir := "RX"
	if r.out {
		dir = "TX"
	}
	if !strings.Contains(e, "["+dir+"]") {
		return "no [" + dir + "]"
	}
	if bin && !strings.Contains(e, hex) {
		return "binary form"
	}
	if !bin && strings.Contains(e, hex) {
		return "binary form not asked for"
	}
	if sml != strings.Contains(e, ctlNames[f.SType]) {
		return "text form"
	}
	if sml && (!strings.Contains(e, fmt.Sprintf("session=%d", f.Session)) || !strings.Contains(e, fmt.Sprintf("system=%08X", f.Sys))) {
		return "identity"
	}
	return ""
}

func isCtlEntry(e string) bool { return strings.Contains(strings.SplitN(e, "\n", 2)[0], "[CTRL]") }

var lops = []string{"data", "dataS", "send", "wait", "resp", "desel", "sel", "link", "selrsp", "s9", "sep", "unk", "defer", "big"}

// runLog runs the exchange with a logging configuration and returns the frames.
func runLog(x *X, cfg hcfg, l *lcfg, ops []string, sched bool) string {
	w := newHW(x, cfg)
	lw := &logw{x: x, slow: sched}
	var recs []lrec
	w.onFrame = func(f *wire.Frame) { recs = append(recs, lrec{true, f}) }
	in := func(f *wire.Frame) {
		recs = append(recs, lrec{false, f})
		w.send(f)
	}
	w.auto = false
	if l != nil {
		// the events of the protocol go elsewhere
		if l.ctrl {
			w.p.SetLogger(common.NewStdLogger(io.Discard, ""))
		} else if l.on {
			w.p.SetLogger(nil)
		}
		w.p.ConfigureLogging(hsms.LoggingConfig{Enabled: l.on, Mode: l.mode, IncludeControlMessages: l.ctrl, ExcludedControlMessageTypes: l.excl, Writer: lw})
	}
	w.p.RegisterHandler(2, 41, func(m *ast.DataMessage) (*ast.DataMessage, error) {
		return ast.NewDataMessage("Reply", 2, 42, 0, "H<-E", ast.NewListNode(ast.NewASCIINode("done"), ast.NewBinaryNode(0), ast.NewUintNode(4, 1, 2))), nil
	})
	sess := uint16(cfg.sess)
	w.p.Enable()
	w.settle()
	if cfg.active {
		in(wire.NewCtrl(wire.SelectRsp, sess, 0, 0, w.selSys))
	} else {
		w.connect()
		w.settle()
		in(wire.NewCtrl(wire.SelectReq, sess, 0, 0, w.nextSys()))
	}
	w.settle()
	if w.p.CurrentState() != hstates[2] {
		x.Failf("not-selected", "state %s", w.p.CurrentState())
	}
	if sched {
		vrt.Explore(true)
	}
	for i, op := range ops {
		if !w.up() {
			break
		}
		switch op {
		case "data":
			in(wire.NewData(sess, 1, 1, true, w.nextSys(), wire.A("hello world")))
		case "dataS":
			in(wire.NewData(sess, 2, 41, true, w.nextSys(), wire.L(wire.A("START"), wire.L(wire.L(wire.A("P1"), wire.U(4, 7))))))
		case "unk":
			in(wire.NewData(sess, 99, 1, true, w.nextSys(), nil))
		case "big":
			in(wire.NewData(sess, 1, 1, true, w.nextSys(), wire.A(strings.Repeat("y", 3000))))
			in(wire.NewData(sess, 1, 1, true, w.nextSys(), wire.L(sized(wire.FL, 300), sized(wire.FU4, 1100))))
		case "s9":
			in(wire.NewData(sess, 9, 7, false, w.nextSys(), wire.B(1, 2)))
		case "send":
			call("send", func() {
				w.p.SendDataMessage(ast.NewDataMessage("Event", 6, 11, 0, "H<-E", ast.NewASCIINode(fmt.Sprintf("ev%d", i))))
			})
		case "resp":
			call("resp", func() {
				w.p.SendResponse(ast.NewDataMessage("", 6, 12, 0, "H<-E", ast.NewBinaryNode(0)), []byte{1, 2, 3, byte(i)})
			})
		case "wait":
			call("wait", func() { w.p.SendAndWait(ast.NewDataMessage("", 1, 13, 1, "H<->E", ast.NewListNode())) })
		case "defer":
			if !sched {
				w.wait(time.Duration(cfg.t3) * sec)
			}
		case "desel":
			in(wire.NewCtrl(wire.DeselectReq, sess, 0, 0, w.nextSys()))
		case "sel":
			in(wire.NewCtrl(wire.SelectReq, sess, 0, 0, w.nextSys()))
		case "link":
			in(wire.NewCtrl(wire.LinktestReq, 0xffff, 0, 0, w.nextSys()))
		case "selrsp":
			in(wire.NewCtrl(wire.SelectRsp, sess, 0, 0, w.nextSys()))
		case "sep":
			in(wire.NewCtrl(wire.SeparateReq, sess, 0, 0, w.nextSys()))
		}
		if !sched {
			w.settle()
		}
	}
	w.settle()
	vrt.Explore(false)
	w.wait(time.Duration(cfg.t3) * sec)
	var fs []string
	names := map[uint32]uint32{}
	for _, r := range recs {
		if r.out { // the endpoint's own system bytes start anywhere
			f := *r.f
			if f.Sys>>24 != 0x50 {
				if _, ok := names[f.Sys]; !ok {
					names[f.Sys] = uint32(len(names))
				}
				f.Sys = names[f.Sys]
				if f.SType == 0 && f.S() == 9 && f.F() == 9 {
					f.Item = nil
				}
			}
			fs = append(fs, f.String())
		}
	}
	sig := strings.Join(fs, " ")
	if !sched { // tidy up for the next run in this execution
		n := len(recs)
		cut := lw.entries
		w.p.Disable()
		w.settle()
		w.wait(time.Duration(cfg.t5+1) * sec)
		w.listen(false)
		recs, lw.entries = recs[:n], cut
	}
	if l == nil {
		return sig
	}
	if !l.on {
		if len(lw.entries) > 0 {
			x.Failf("log-off", "logging is off and %q was written", lw.entries[0])
		}
		return sig
	}
	// one entry per message
	es := append([]string(nil), lw.entries...)
	for _, r := range recs {
		if r.f.SType != 0 && (!l.ctrl || l.excluded(r.f.SType)) {
			continue
		}
		found := -1
		why := ""
		for i, e := range es {
			if isCtlEntry(e) != (r.f.SType != 0) {
				continue
			}
			if why = l.entry(x, e, r); why == "" {
				found = i
				break
			}
		}
		if found < 0 {
			x.Failf("log-missing", "%v: no entry for %v (out=%v): last difference %s\n%q", l, r.f, r.out, why, es)
		}
		if !sched && found != 0 {
			// entries are in the order of the messages, up to a frame in
			// each direction at the same instant
			if found > 2 {
				x.Failf("log-order", "%v: entry of %v is number %d", l, r.f, found)
			}
		}
		es = append(es[:found:found], es[found+1:]...)
	}
	if len(es) > 0 {
		x.Failf("log-extra", "%v: entries without a message: %q", l, es)
	}
	x.Outcome("%d entries", len(lw.entries))
	return sig
}

// runEvents: the standard logger writes each event as one line with its
// level, its text and every key with its value.
func runEvents(x *X) {
	vals := []interface{}{"a", 1, nil, errors.New("e"), 2.5, []int{1}}
	var kvs [][]interface{}
	for n := 0; n <= 5; n++ {
		for r := 0; r < len(vals); r++ {
			var kv []interface{}
			for i := 0; i < n; i++ {
				kv = append(kv, vals[(r+i)%len(vals)])
			}
			kvs = append(kvs, kv)
		}
	}
	for _, prefix := range []string{"", "p "} {
		for li, level := range []string{"DEBUG", "INFO", "WARN", "ERROR"} {
			for _, kv := range kvs {
				for _, msg := range []string{"", "text", "100%d"} {
					id := fmt.Sprintf("event %q %s %q %v", prefix, level, msg, kv)
					x.Try(id, func() {
						w := &logw{x: x}
						l := common.NewStdLogger(w, prefix)
						[]func(string, ...interface{}){l.Debug, l.Info, l.Warn, l.Error}[li](msg, kv...)
						[]func(string, ...interface{}){common.NopLogger().Debug, common.NopLogger().Info, common.NopLogger().Warn, common.NopLogger().Error}[li](msg, kv...)
						if len(w.entries) != 1 {
							x.Bad("event", "%d lines", len(w.entries))
						}
						e := w.entries[0]
						rest, ok := strings.CutPrefix(e, prefix)
						i := strings.Index(rest, "["+level+"] "+msg)
						if !ok || i < 0 || strings.Count(e, "\n") != 1 || !strings.HasSuffix(e, "\n") {
							x.Bad("event", "%q", e)
						}
						rest = rest[i+len("["+level+"] "+msg):]
						for i := 0; i < len(kv); i++ {
							w := fmt.Sprint(kv[i])
							if i%2 == 0 && i+1 < len(kv) {
								w += fmt.Sprintf("=%v", kv[i+1])
								i++
							}
							j := strings.Index(rest, w)
							if j < 0 {
								x.Bad("event", "%q does not show %s", e, w)
							}
							rest = rest[j+len(w):]
						}
						if rest != "\n" {
							x.Bad("event", "%q ends in %q", e, rest)
						}
						x.Eval(id, true)
					})
				}
			}
		}
	}
}

// runNoLogger: taking the logger away silences the protocol and leaves it
// working.
func runNoLogger(x *X, cfg hcfg) {
	w := newHW(x, cfg)
	lw := &logw{x: x}
	w.p.SetLogger(common.NewStdLogger(lw, ""))
	w.toSelected()
	n := len(lw.entries)
	w.p.SetLogger(nil)
	w.send(wire.NewCtrl(wire.SelectRsp, uint16(cfg.sess), 0, 0, w.nextSys())) // these log when they can
	w.send(wire.NewCtrl(wire.RejectReq, uint16(cfg.sess), 0, 0, w.nextSys()))
	w.send(wire.NewData(uint16(cfg.sess), 99, 1, true, w.nextSys(), nil))
	w.settle()
	w.c.Shut(false)
	w.settle()
	w.selectNow()
	w.probe()
	if len(lw.entries) != n {
		x.Failf("logger", "%d lines after the logger was taken away: %q", len(lw.entries)-n, lw.entries[n:])
	}
	x.Outcome("%d", n)
}

func c33(c *C) {
	for _, active := range []bool{false, true} {
		cfg := hcfgDefault.asActive(active)
		c.Case("no logger "+cfg.role(), Opt{}, func(x *X) { runNoLogger(x, cfg) })
	}
	c.Case("events", Opt{}, func(x *X) { vrt.MaxPts(1 << 31); runEvents(x) })
	var cfgs []lcfg
	for _, on := range []bool{true, false} {
		for _, mode := range []hsms.LoggingMode{hsms.LoggingModeUnset, hsms.LoggingModeSML, hsms.LoggingModeBinary, hsms.LoggingModeBoth} {
			for _, ctrl := range []bool{false, true} {
				cfgs = append(cfgs, lcfg{on: on, ctrl: ctrl, mode: mode})
				if ctrl {
					cfgs = append(cfgs, lcfg{on: on, ctrl: ctrl, mode: mode, excl: map[string]struct{}{" Linktest.REQ ": {}, "linktest.rsp": {}, "": {}}})
					cfgs = append(cfgs, lcfg{on: on, ctrl: ctrl, mode: mode, excl: map[string]struct{}{"select.rsp": {}, "deselect.req": {}}})
				}
			}
		}
	}
	for _, active := range []bool{false, true} {
		cfg := hcfgDefault.asActive(active)
		cfg.t3 = 2
		for n := 1; n <= c.Q(2, 3); n++ {
			seqsOf(lops, n, func(ops []string) {
				c.Case(fmt.Sprintf("seq %s %s", cfg.role(), strings.Join(ops, " ")), Opt{}, func(x *X) {
					base := ""
					for i := -1; i < len(cfgs); i++ {
						var l *lcfg
						if i >= 0 {
							l = &cfgs[i]
						}
						sig := runLog(x, cfg, l, ops, false)
						if i < 0 {
							base = sig
						} else if sig != base {
							x.Failf("log-disturbs", "%v: frames %s, without logging %s", *l, sig, base)
						}
					}
				})
			})
		}
		for _, ops := range [][]string{{"data", "send"}, {"send", "send"}, {"data", "wait", "link"}, {"send", "resp"}, {"link", "data", "send"}, {"wait", "wait"}, {"desel", "send"}} {
			for _, l := range []lcfg{{on: true, ctrl: true, mode: hsms.LoggingModeBoth}, {on: true, mode: hsms.LoggingModeSML}, {on: true, ctrl: true, mode: hsms.LoggingModeBinary}} {
				ops, l := ops, l
				c.Case(fmt.Sprintf("race %s %s %v", cfg.role(), strings.Join(ops, " "), l), Opt{Dev: c.Q(2, 3), Split: true}, func(x *X) { runLog(x, cfg, &l, ops, true) })
			}
		}
		c.Case("reconfigure "+cfg.role(), Opt{Dev: c.Q(1, 2)}, func(x *X) { runReconf(x, cfg) })
	}
}

// runReconf: logging reconfigured while messages flow.
func runReconf(x *X, cfg hcfg) {
	w := newHW(x, cfg)
	a, b := &logw{x: x}, &logw{x: x}
	w.p.ConfigureLogging(hsms.LoggingConfig{Enabled: true, Mode: hsms.LoggingModeSML, Writer: a})
	w.toSelected()
	w.send(wire.NewData(uint16(cfg.sess), 1, 1, true, w.nextSys(), nil))
	w.settle()
	if len(a.entries) != 2 {
		x.Failf("log-missing", "%d entries for two messages", len(a.entries))
	}
	vrt.Explore(true)
	call("configure", func() {
		w.p.ConfigureLogging(hsms.LoggingConfig{Enabled: true, Mode: hsms.LoggingModeBinary, Writer: b})
	})
	w.send(wire.NewData(uint16(cfg.sess), 1, 1, true, w.nextSys(), nil))
	w.settle()
	vrt.Explore(false)
	if len(a.entries)+len(b.entries) != 4 {
		x.Failf("log-missing", "%d+%d entries for four messages", len(a.entries), len(b.entries))
	}
	w.p.ConfigureLogging(hsms.LoggingConfig{Enabled: false, Writer: b})
	n := len(a.entries) + len(b.entries)
	w.take()
	w.probe()
	if len(a.entries)+len(b.entries) != n {
		x.Failf("log-off", "entries after logging was disabled")
	}
	x.Outcome("%d %d", len(a.entries), len(b.entries))
}

var _ = bytes.Equal
var _ = vnet.Dials
