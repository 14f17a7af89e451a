package h

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C09", Level: "model_checking", Budget: [2]int{240, 850},
		Rule: "every sequence of session events to the depth bound in both roles; in every state reached, every sending call and every kind of received data message; sends racing with session events under every schedule to the deviation bound",
		Run:  c09})
	register(&Check{ID: "C10", Level: "model_checking", Budget: [2]int{240, 850},
		Rule: "every sequence of sends, replies, strays and time steps to the depth bound against a reference transaction table; concurrent senders with every reply order, and replies at the instant of T3, under every schedule to the deviation bound; many transactions at once",
		Run:  c10})
	register(&Check{ID: "C12", Level: "model_checking", Budget: [2]int{240, 850},
		Rule: "every sequence of sends of several shapes, replies, session changes and time steps to the depth bound; the S9F9 frames and error callbacks compared with a reference; T3 racing with replies and session changes under every schedule to the deviation bound",
		Run:  c12})
}

type txn struct {
	id       int
	s, f     int
	w        bool
	optional bool
	start    time.Duration
	conn     int
	sys      uint32
	sent     bool
	done     bool
	end      time.Duration
	rep      *ast.DataMessage
	err      error
	// expectation
	wantRep string // text of the reply
	wantErr bool   // ends at wantAt with an error that is not T3
	wantAt  time.Duration
	closed  bool // no reply counts any more
	lost    bool // the session went away while it was open
}

// tw is an endpoint with transactions.
type tw struct {
	*hw
	ts     []*txn
	bySys  map[uint32]*txn
	nrep   int
	s9want []int
	stray  int // stray secondaries that may be answered
	gots9  map[uint32][]byte
	s9f9   int
	others []string
	autoRe func(t *txn)
}

func newTW(x *X, cfg hcfg) *tw {
	w := &tw{hw: newHW(x, cfg), bySys: map[uint32]*txn{}}
	w.onFrame = w.frame
	return w
}

func (w *tw) frame(f *wire.Frame) {
	if f.SType != 0 {
		return
	}
	x := w.x
	switch {
	case f.S() == 9 && f.F() == 9:
		w.s9f9++
	case f.F()%2 == 1 && f.S() != 9:
		id := -1
		if f.Item != nil && f.Item.F == wire.FA {
			fmt.Sscanf(string(f.Item.Data), "t%d", &id)
		}
		if id < 0 || id >= len(w.ts) {
			x.Failf("unknown-primary", "frame %v", f)
		}
		t := w.ts[id]
		if t.sent {
			x.Failf("sent-twice", "message %d on the wire twice", id)
		}
		if f.S() != t.s || f.F() != t.f || f.W() != (t.w || t.optional) || int(f.Session) != w.cfg.sess {
			x.Failf("sent-wrong", "message %d (S%dF%d w=%v) on the wire as %v", id, t.s, t.f, t.w, f)
		}
		t.sent, t.sys, t.conn = true, f.Sys, w.nconn
		if o := w.bySys[f.Sys]; o != nil && !o.closed {
			x.Failf("shared-system", "messages %d and %d share system bytes %08x", o.id, id, f.Sys)
		}
		w.bySys[f.Sys] = t
		if w.autoRe != nil {
			w.autoRe(t)
		}
	}
}

// begin starts a waiting send.
func (w *tw) begin(s, f int, wb int) *txn {
	t := &txn{id: len(w.ts), s: s, f: f, w: wb == 1, optional: wb == 2, start: vrt.Now()}
	w.ts = append(w.ts, t)
	vrt.GoApp(fmt.Sprintf("sender%d", t.id), func() {
		t.start = vrt.Now()
		t.rep, t.err = w.p.SendAndWait(ast.NewDataMessage("", s, f, wb, "H<->E", ast.NewASCIINode(fmt.Sprintf("t%d", t.id))))
		t.end = vrt.Now()
		t.done = true
	})
	return t
}

func (w *tw) open() []*txn {
	var o []*txn
	for _, t := range w.ts {
		if t.sent && !t.closed {
			o = append(o, t)
		}
	}
	return o
}

// reply sends the reply of t; how it is labelled does not matter to the peer.
func (w *tw) reply(t *txn, s, f int) {
	w.nrep++
	text := fmt.Sprintf("r%d.%d", t.id, w.nrep)
	w.send(wire.NewData(uint16(w.cfg.sess), s, f, false, t.sys, wire.A(text)))
	if !t.closed {
		t.closed = true
		t.wantRep = text
		t.wantAt = vrt.Now()
	} else {
		w.stray++
	}
	if s == 9 {
		w.s9want = append(w.s9want, f)
	}
}

// expire closes the transactions whose T3 has elapsed.
func (w *tw) expire() {
	for _, t := range w.ts {
		if t.sent && !t.closed && vrt.Now() >= t.start+time.Duration(w.cfg.t3)*sec {
			t.closed = true
		}
	}
}

func text(m *ast.DataMessage) string {
	if m == nil {
		return "nil"
	}
	b := m.ToBytes()
	f, _ := wire.Parse(b)
	if f == nil || f.Item == nil || f.Item.F != wire.FA {
		return fmt.Sprintf("%x", b)
	}
	return string(f.Item.Data)
}

// verify compares what the senders got with the reference table.
func (w *tw) verify(when string) {
	x := w.x
	t3 := time.Duration(w.cfg.t3) * sec
	for _, t := range w.ts {
		switch {
		case t.wantRep != "":
			if !t.done {
				x.Failf("reply-lost", "%s: message %d was answered at %v and its sender still waits", when, t.id, t.wantAt)
			}
			if t.err != nil || text(t.rep) != t.wantRep {
				x.Failf("wrong-reply", "%s: message %d got (%s, %v), want %s", when, t.id, text(t.rep), t.err, t.wantRep)
			}
			if t.end > t.wantAt {
				x.Failf("late-reply", "%s: message %d answered at %v, returned at %v", when, t.id, t.wantAt, t.end)
			}
		case t.wantErr:
			if !t.done || t.err == nil || t.end > t.wantAt && !errors.Is(t.err, hsms.ErrT3Timeout) {
				x.Failf("reject", "%s: message %d was rejected at %v: done=%v err=%v at %v", when, t.id, t.wantAt, t.done, t.err, t.end)
			}
		case t.done && !t.sent:
			if t.err == nil {
				x.Failf("not-sent", "%s: message %d succeeded but was never on the wire", when, t.id)
			}
		case t.done && t.lost:
			if t.err == nil {
				x.Failf("phantom-reply", "%s: message %d got %s, nothing was sent for it", when, t.id, text(t.rep))
			}
		case t.done:
			if t.err == nil {
				x.Failf("phantom-reply", "%s: message %d got %s, nothing was sent for it", when, t.id, text(t.rep))
			}
			if !errors.Is(t.err, hsms.ErrT3Timeout) {
				x.Failf("wrong-error", "%s: message %d failed with %v, want the T3 error", when, t.id, t.err)
			}
			if t.end < t.start+t3 || t.end > t.start+t3+100*time.Millisecond {
				x.Failf("t3-time", "%s: message %d sent at %v, T3 error at %v", when, t.id, t.start, t.end)
			}
		case vrt.Now() > t.start+t3+500*time.Millisecond:
			x.Failf("hang", "%s: message %d sent at %v still waits", when, t.id, t.start)
		}
	}
	if fmt.Sprint(w.s9) != fmt.Sprint(w.s9want) {
		x.Failf("s9-callback", "%s: error callbacks %v, want %v", when, w.s9, w.s9want)
	}
}

// s9frames checks the S9F9 frames against the transactions that timed out.
func (w *tw) s9frames(when string) {
	x := w.x
	want := map[string]int{}
	may := map[string]int{}
	for _, t := range w.ts {
		if !t.done || !errors.Is(t.err, hsms.ErrT3Timeout) {
			continue
		}
		b2 := byte(t.s)
		if t.w || t.optional {
			b2 |= 0x80
		}
		h := fmt.Sprintf("%x", []byte{byte(w.cfg.sess >> 8), byte(w.cfg.sess), b2, byte(t.f), 0, 0, byte(t.sys >> 24), byte(t.sys >> 16), byte(t.sys >> 8), byte(t.sys)})
		if t.lost {
			continue
		}
		want[h]++
	}
	sys := map[uint32]bool{}
	for _, f := range w.all {
		if f.SType != 0 || f.S() != 9 {
			continue
		}
		switch f.F() {
		case 9:
			if f.Item == nil || f.Item.F != wire.FB || len(f.Item.Data) != 10 || f.W() || int(f.Session) != w.cfg.sess {
				x.Failf("s9f9-form", "%s: %v", when, f)
			}
			if sys[f.Sys] || w.bySys[f.Sys] != nil {
				x.Failf("s9f9-system", "%s: %v reuses system bytes", when, f)
			}
			sys[f.Sys] = true
			h := fmt.Sprintf("%x", f.Item.Data)
			if want[h] == 0 && may[h] == 0 {
				x.Failf("s9f9-extra", "%s: S9F9 for %s, timed out: %v", when, h, want)
			}
			want[h]--
			if want[h] == 0 {
				delete(want, h)
			}
		}
	}
	if len(want) > 0 {
		x.Failf("s9f9-missing", "%s: no S9F9 for %v", when, want)
	}
}

var topsC10 = []string{"S", "R0", "R1", "dup", "prim", "stray", "s9", "w1", "rej", "ctl", "A0"}

func (w *tw) do(op string) bool {
	x := w.x
	sess := uint16(w.cfg.sess)
	o := w.open()
	switch op {
	case "S", "S0", "So", "S2":
		if len(o) >= 3 {
			return false
		}
		switch op {
		case "S":
			w.begin(1, 3, 1)
		case "S0": // W=0: waits all the same
			w.begin(6, 11, 0)
		case "So":
			w.begin(2, 41, 2)
		case "S2":
			w.begin(127, 255, 1)
		}
	case "R0", "R1", "A0":
		i := int(op[1] - '0')
		if i >= len(o) {
			return false
		}
		if op == "A0" { // abort
			w.reply(o[i], o[i].s, 0)
		} else {
			w.reply(o[i], o[i].s, (o[i].f+1)&0xfe)
		}
	case "dup": // the reply of a transaction that has ended
		for i := len(w.ts) - 1; i >= 0; i-- {
			if w.ts[i].closed && w.ts[i].sent {
				w.reply(w.ts[i], 1, 4)
				break
			}
			if i == 0 {
				return false
			}
		}
		if len(w.ts) == 0 {
			return false
		}
	case "prim": // the peer's own primary with the same system bytes
		if len(o) == 0 {
			return false
		}
		w.send(wire.NewData(sess, 1, 1, true, o[0].sys, nil))
		w.stray++
	case "stray":
		w.send(wire.NewData(sess, 1, 4, false, 0xfffffff0, wire.A("stray")))
		w.stray++
	case "s9":
		if len(o) == 0 {
			return false
		}
		w.reply(o[len(o)-1], 9, 7)
	case "rej":
		if len(o) == 0 {
			return false
		}
		w.send(wire.NewCtrl(wire.RejectReq, sess, 0, 4, o[0].sys))
		o[0].closed, o[0].wantErr, o[0].wantAt = true, true, vrt.Now()
	case "ctl": // control responses that carry the system bytes
		if len(o) == 0 {
			return false
		}
		w.send(wire.NewCtrl(wire.LinktestRsp, 0xffff, 0, 0, o[0].sys))
		w.send(wire.NewCtrl(wire.SelectRsp, sess, 0, 0, o[0].sys))
		w.send(wire.NewCtrl(wire.DeselectRsp, sess, 0, 0, o[0].sys))
	default:
		n, err := strconv.Atoi(op[1:])
		if op[0] != 'w' || err != nil {
			x.Failf("harness", "op %s", op)
		}
		d := time.Duration(n) * sec
		end := vrt.Now() + d
		for vrt.Now() < end {
			w.wait(500 * time.Millisecond)
			w.expire()
		}
	case "desel":
		if !w.up() || w.p.CurrentState() != hstates[2] {
			return false
		}
		w.send(wire.NewCtrl(wire.DeselectReq, sess, 0, 0, w.nextSys()))
		w.loseTxns()
	case "sel":
		if w.p.CurrentState() == hstates[2] {
			return false
		}
		w.selectNow()
		w.expire()
		for _, t := range w.ts { // what is still open can be answered again
			if t.conn == w.nconn && t.lost && t.closed && !t.done && t.wantRep == "" && !t.wantErr {
				t.closed, t.lost = false, false
			}
		}
	case "close":
		if !w.up() {
			return false
		}
		w.c.Shut(false)
		w.loseTxns()
	}
	w.settle()
	w.take()
	return true
}

func (w *tw) loseTxns() {
	for _, t := range w.ts {
		if t.sent && !t.closed {
			t.closed, t.lost = true, true
		}
	}
}

func runTxns(x *X, cfg hcfg, ops []string) {
	w := newTW(x, cfg)
	w.toSelected()
	hist := ""
	for _, op := range ops {
		if !w.do(op) {
			x.Outcome("pruned")
			return
		}
		hist += " " + op
		w.verify("after" + hist)
		x.State(op, fmt.Sprintf("open=%d ended=%d s9=%d %s", len(w.open()), len(w.ts)-len(w.open()), len(w.s9), w.p.CurrentState()))
	}
	for i := 0; i < 2*cfg.t3+1; i++ {
		w.wait(500 * time.Millisecond)
		w.expire()
	}
	w.verify("after" + hist + " and T3")
	if w.p.CurrentState() != hstates[2] {
		if w.up() {
			w.c.Shut(false)
			w.settle()
		}
		w.selectNow()
	}
	w.s9frames("after" + hist + " and T3")
	w.onFrame = nil
	w.probe()
	x.Outcome("%d txns %d s9f9", len(w.ts), w.s9f9)
}

// runSenders: n concurrent senders; the peer answers in the given order.
func runSenders(x *X, cfg hcfg, n int, order []int, how string) {
	w := newTW(x, cfg)
	w.toSelected()
	wb := 1
	switch how {
	case "at-once":
		w.autoRe = func(t *txn) { w.reply(t, 1, 4) }
	}
	vrt.Explore(true)
	for i := 0; i < n; i++ {
		w.begin(1, 3, wb)
	}
	w.settle()
	if how != "at-once" {
		if len(w.open()) != n {
			x.Failf("not-sent", "%d of %d messages on the wire", len(w.open()), n)
		}
		o := w.open()
		if how == "t3" {
			vrt.Explore(false)
			w.wait(time.Duration(cfg.t3-1) * sec)
			vrt.Explore(true)
			vrt.Sleep(sec)
		}
		for _, i := range order {
			if i < len(o) {
				if how == "dup" {
					w.reply(o[i], 1, 4)
				}
				w.reply(o[i], 1, 4)
			}
		}
	}
	w.settle()
	vrt.Explore(false)
	if how == "t3" {
		// either outcome, but one of them and consistently
		for _, t := range w.ts {
			if !t.done {
				x.Failf("hang", "message %d still waits", t.id)
			}
			if t.err == nil && text(t.rep) != t.wantRep && t.wantRep != "" || t.err != nil && !errors.Is(t.err, hsms.ErrT3Timeout) || t.err == nil && t.wantRep == "" {
				x.Failf("wrong-reply", "message %d: %s, %v", t.id, text(t.rep), t.err)
			}
			x.Outcome("%d:%v", t.id, t.err == nil)
		}
	} else {
		w.verify("concurrent senders")
		x.Outcome("%d replies", len(w.ts))
	}
	w.s9frames("concurrent senders")
	if w.p.CurrentState() != hstates[2] {
		x.Failf("state", "state %s", w.p.CurrentState())
	}
	w.onFrame = nil
	w.take()
	w.probe()
}

func perms(n int, f func([]int)) {
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) == n {
			f(append([]int(nil), cur...))
			return
		}
		for i := 0; i < n; i++ {
			used := false
			for _, c := range cur {
				used = used || c == i
			}
			if !used {
				rec(append(cur, i))
			}
		}
	}
	rec(nil)
}

func c10(c *C) {
	for _, active := range []bool{false, true} {
		cfg := hcfgDefault.asActive(active)
		cfg.t3 = 3
		for n := 1; n <= c.Q(5, 6); n++ {
			seqsOf(topsC10, n, func(ops []string) {
				if ops[0] != "S" {
					return
				}
				c.Case(fmt.Sprintf("seq %s %s", cfg.role(), strings.Join(ops, " ")), Opt{}, func(x *X) { runTxns(x, cfg, ops) })
			})
		}
		for _, t3 := range slowT3 {
			slow := cfg
			slow.t3 = t3
			for _, ops := range slowTxns(t3) {
				c.Case(fmt.Sprintf("T3 %d %s %s", t3, cfg.role(), strings.Join(ops, " ")), Opt{MaxSteps: 1 << 22}, func(x *X) { runTxns(x, slow, ops) })
			}
		}
		for _, v := range numStarts {
			cs := cfg
			cs.start = &v
			for n := 1; n <= c.Q(3, 4); n++ {
				seqsOf(topsC10, n, func(ops []string) {
					if ops[0] == "S" {
						c.Case(fmt.Sprintf("numbers from %08x %s %s", v, cfg.role(), strings.Join(ops, " ")), Opt{}, func(x *X) { runTxns(x, cs, ops) })
					}
				})
			}
			for i, o := range orders(8) {
				c.Case(fmt.Sprintf("numbers from %08x %s many %d", v, cfg.role(), i), Opt{}, func(x *X) { runSenders(x, cs, 8, o, "order") })
			}
			c.Case(fmt.Sprintf("numbers from %08x %s conc", v, cfg.role()), Opt{Dev: 2, Split: true}, func(x *X) { runSenders(x, cs, 2, []int{1, 0}, "order") })
		}
		for _, n := range []int{300, c.Q(70000, 140000)} {
			c.Case(fmt.Sprintf("open during %d %s", n, cfg.role()), Opt{MaxSteps: 1 << 30}, func(x *X) { runOpenDuring(x, cfg, n) })
		}
		for _, n := range []int{4, 5, 8, 16, 33, 64, 100, 256, 300} {
			for i, o := range orders(n) {
				for _, how := range []string{"order", "dup"} {
					c.Case(fmt.Sprintf("many %s %d %s %d", cfg.role(), n, how, i), Opt{MaxSteps: 1 << 25}, func(x *X) { runSenders(x, cfg, n, o, how) })
				}
			}
		}
		for n := 1; n <= 3; n++ {
			dev := 3
			if n == 3 {
				dev = 2
			}
			if c.Thorough {
				dev++
			}
			c.Case(fmt.Sprintf("conc %s %d at-once", cfg.role(), n), Opt{Dev: dev, Split: true}, func(x *X) { runSenders(x, cfg, n, nil, "at-once") })
			perms(n, func(o []int) {
				for _, how := range []string{"order", "dup", "t3"} {
					c.Case(fmt.Sprintf("conc %s %d %s %v", cfg.role(), n, how, o), Opt{Dev: dev - 1, Split: true}, func(x *X) { runSenders(x, cfg, n, o, how) })
				}
			})
		}
	}
}

// starts of the system numbers, around every width they could be cut to
var numStarts = []uint32{0, 0xfd, 0x7ffd, 0xfffd, 0xfffffd, 0x7ffffffd, 0xfffffff4, 0xfffffff6, 0xfffffff8, 0xfffffffa, 0xfffffffb, 0xfffffffc, 0xfffffffd, 0xfffffffe, 0xffffffff}

// runOpenDuring: a transaction stays open while n messages that expect no
// reply are sent; none of them may have its system bytes.
func runOpenDuring(x *X, cfg hcfg, n int) {
	cfg.t3 = 110
	w := newTW(x, cfg)
	w.toSelected()
	t := w.begin(1, 3, 1)
	w.settle()
	w.take()
	if !t.sent {
		x.Failf("not-sent", "the message is not on the wire")
	}
	w.onFrame = nil
	for sent := 0; sent < n; {
		k := 500
		if k > n-sent {
			k = n - sent
		}
		var err error
		vrt.GoApp("many", func() {
			for i := 0; i < k && err == nil; i++ {
				err = w.p.SendDataMessage(ast.NewDataMessage("", 6, 11, 0, "H<->E", ast.NewEmptyItemNode()))
			}
		})
		w.settle()
		o := w.take()
		if err != nil || len(o) != k {
			x.Failf("not-sent", "%d of %d messages on the wire: %v", len(o), k, err)
		}
		for _, f := range o {
			if f.Sys == t.sys {
				x.Failf("shared-system", "the open transaction and message %d after it share system bytes %08x", sent, t.sys)
			}
		}
		w.all = nil
		sent += k
	}
	w.onFrame = w.frame
	w.reply(t, 1, 4)
	w.settle()
	w.verify("after many messages")
	x.Eval(fmt.Sprintf("during %d", n), true)
	w.onFrame = nil
	w.probe()
}

// values of T3 over its range, and transactions that use it up
var slowT3 = []int{1, 2, 5, 9, 10, 30, 45, 59, 60, 61, 90, 119, 120}

func slowTxns(t3 int) (r [][]string) {
	l := fmt.Sprintf("w%d", t3-1)
	for _, ops := range [][]string{{"S", l, "R0"}, {"S", l, "w1"}, {"S", l, "w2", "dup"}, {"S", l, "S", "R0", "w1", "R0"}, {"S", "w1", "S", l, "R0", "S", "w1"}, {"S", l, "rej", "S", l, "R0"}} {
		ok := true
		for _, o := range ops {
			ok = ok && o != "w0"
		}
		if ok {
			r = append(r, ops)
		}
	}
	return
}

// ---- C12

func runT3Race(x *X, cfg hcfg, n int, ev string) {
	w := newTW(x, cfg)
	w.toSelected()
	for i := 0; i < n; i++ {
		w.begin(1, 3, 1)
		w.settle()
	}
	o := w.open()
	w.wait(time.Duration(cfg.t3-1) * sec)
	vrt.Explore(true)
	vrt.Sleep(sec)
	switch ev {
	case "reply":
		w.reply(o[0], 1, 4)
	case "s9":
		w.reply(o[0], 9, 7)
	case "desel", "close", "sep":
		switch ev {
		case "desel":
			w.send(wire.NewCtrl(wire.DeselectReq, uint16(cfg.sess), 0, 0, w.nextSys()))
		case "sep":
			w.send(wire.NewCtrl(wire.SeparateReq, uint16(cfg.sess), 0, 0, w.nextSys()))
		case "close":
			w.c.Shut(false)
		}
	case "send":
		w.begin(1, 3, 1)
	}
	w.settle()
	vrt.Explore(false)
	for _, t := range o {
		if !t.done {
			x.Failf("hang", "message %d still waits", t.id)
		}
		x.Outcome("%v", t.err)
		if ev == "desel" || ev == "close" || ev == "sep" {
			if t.err == nil {
				x.Failf("phantom-reply", "message %d succeeded", t.id)
			}
			t.lost = true // an S9F9 may or may not get out
		}
	}
	got := map[string]int{}
	for _, f := range w.all {
		if f.SType == 0 && f.S() == 9 && f.F() == 9 && f.Item != nil {
			got[fmt.Sprintf("%x", f.Item.Data)]++
			if got[fmt.Sprintf("%x", f.Item.Data)] > 1 {
				x.Failf("s9f9-twice", "two S9F9 for the same transaction")
			}
		}
	}
	if ev == "reply" || ev == "s9" || ev == "send" || ev == "" {
		w.s9frames("race with " + ev)
	}
	for _, t := range w.ts {
		t.closed = true
	}
	if w.up() && w.p.CurrentState() != hstates[2] {
		w.c.Shut(false)
		w.settle()
	}
	if !w.up() {
		w.selectNow()
	}
	w.take()
	w.onFrame = nil
	w.wait(time.Duration(cfg.t3+1) * sec)
	w.take()
	w.probe()
}

func c12(c *C) {
	alpha := []string{"S", "S0", "So", "S2", "R0", "s9", "w1", "w2", "desel", "sel", "close", "rej"}
	for _, active := range []bool{false, true} {
		cfg := hcfgDefault.asActive(active)
		cfg.t3, cfg.t5 = 3, 1
		for n := 1; n <= c.Q(4, 5); n++ {
			seqsOf(alpha, n, func(ops []string) {
				if ops[0][0] != 'S' {
					return
				}
				c.Case(fmt.Sprintf("seq %s %s", cfg.role(), strings.Join(ops, " ")), Opt{}, func(x *X) { runTxns(x, cfg, ops) })
			})
		}
		for _, ev := range []string{"", "reply", "s9", "desel", "close", "sep", "send"} {
			for n := 1; n <= 2; n++ {
				c.Case(fmt.Sprintf("race %s %d %s", cfg.role(), n, ev), Opt{Dev: c.Q(2, 3), Split: true}, func(x *X) { runT3Race(x, cfg, n, ev) })
			}
		}
		for _, t3 := range slowT3 {
			slow := cfg
			slow.t3 = t3
			for _, ops := range slowTxns(t3) {
				c.Case(fmt.Sprintf("T3 %d %s %s", t3, cfg.role(), strings.Join(ops, " ")), Opt{MaxSteps: 1 << 22}, func(x *X) { runTxns(x, slow, ops) })
			}
		}
		for _, v := range numStarts {
			cs := cfg
			cs.start = &v
			for n := 1; n <= c.Q(3, 4); n++ {
				seqsOf([]string{"S", "So", "R0", "s9", "w2"}, n, func(ops []string) {
					if ops[0][0] == 'S' {
						c.Case(fmt.Sprintf("numbers from %08x %s %s", v, cfg.role(), strings.Join(ops, " ")), Opt{}, func(x *X) { runTxns(x, cs, ops) })
					}
				})
			}
		}
		c.Case("received "+cfg.role(), Opt{}, func(x *X) { runS9Received(x, cfg) })
	}
}

// runS9Received: every stream 9 message, in and out of selection.
func runS9Received(x *X, cfg hcfg) {
	w := newHW(x, cfg)
	var infos []string
	w.p.OnS9Error = func(e *hsms.S9ErrorInfo) {
		infos = append(infos, fmt.Sprintf("%d/%s/%x", e.ErrorCode, e.ErrorText, e.SystemBytes))
	}
	texts := map[int]string{1: hsms.ErrTextUnrecognizedDeviceID, 3: hsms.ErrTextUnrecognizedStream, 5: hsms.ErrTextUnrecognizedFunction, 7: hsms.ErrTextIllegalData, 9: hsms.ErrTextTransactionTimeout, 11: hsms.ErrTextDataTooLong, 13: hsms.ErrTextConversationTimeout}
	known := map[int]string{1: "Device", 3: "Stream", 5: "Function", 7: "Data", 9: "Timeout", 11: "Long", 13: "Conversation"}
	for f, s := range known {
		if !strings.Contains(strings.ToLower(texts[f]), strings.ToLower(s)) && !strings.Contains(strings.ToLower(texts[f]), "time") {
			x.Failf("s9-text", "S9F%d means %q", f, texts[f])
		}
	}
	w.toSelected()
	for _, body := range []*wire.Item{nil, wire.B(1, 2, 3, 4, 5, 6, 7, 8, 9, 10), wire.A("x"), wire.L()} {
		for f := 1; f <= 15; f += 2 {
			infos = nil
			sys := w.nextSys()
			w.send(wire.NewData(uint16(cfg.sess), 9, f, false, sys, body))
			w.settle()
			if o := w.take(); len(o) > 0 {
				x.Failf("s9-answered", "S9F%d answered by %s", f, frames(o))
			}
			if len(infos) != 1 || !strings.HasPrefix(infos[0], fmt.Sprintf("%d/", f)) || texts[f] != "" && infos[0] != fmt.Sprintf("%d/%s/%08x", f, texts[f], sys) {
				x.Failf("s9-callback", "S9F%d: callbacks %v", f, infos)
			}
			x.Eval(fmt.Sprintf("S9F%d %v", f, body), true)
		}
	}
	w.send(wire.NewCtrl(wire.DeselectReq, uint16(cfg.sess), 0, 0, w.nextSys()))
	w.settle()
	infos = nil
	w.send(wire.NewData(uint16(cfg.sess), 9, 5, false, w.nextSys(), nil))
	w.settle()
	if len(infos) != 0 {
		x.Failf("s9-not-selected", "callback while not selected")
	}
	w.p.OnS9Error = nil
	w.take()
	w.selectNow()
	w.send(wire.NewData(uint16(cfg.sess), 9, 5, false, w.nextSys(), nil))
	w.settle()
	w.probe()
}

// ---- C09

var sevents = []string{"up", "sel", "desel", "close", "sep", "bad", "t7", "dis", "en", "cut"}

// event moves the session; sel tells whether it is selected afterwards.
func (w *tw) event(op string) bool {
	sess := uint16(w.cfg.sess)
	switch op {
	case "up":
		if w.up() || !w.on() {
			return false
		}
		w.ensureUp()
	case "sel":
		if !w.on() || w.p.CurrentState() == hstates[2] {
			return false
		}
		w.selectNow()
	case "desel":
		if w.p.CurrentState() != hstates[2] {
			return false
		}
		w.send(wire.NewCtrl(wire.DeselectReq, sess, 0, 0, w.nextSys()))
	case "close", "cut", "sep":
		if !w.up() {
			return false
		}
		if op == "sep" {
			w.send(wire.NewCtrl(wire.SeparateReq, sess, 0, 0, w.nextSys()))
		} else {
			w.c.Shut(op == "cut")
		}
	case "bad":
		if !w.up() || w.p.CurrentState() == hstates[2] {
			return false
		}
		if w.cfg.active {
			w.send(wire.NewCtrl(wire.SelectRsp, sess, 0, 1, w.selSys))
		} else {
			w.send(wire.NewCtrl(wire.SelectReq, sess+1, 0, 0, w.nextSys()))
		}
	case "t7":
		if !w.up() || w.p.CurrentState() == hstates[2] {
			return false
		}
		w.wait(time.Duration(w.cfg.t7) * sec)
	case "dis":
		if !w.on() {
			return false
		}
		w.off = true
		w.finish("Disable", call("Disable", w.p.Disable))
	case "en":
		if w.on() {
			return false
		}
		w.off = false
		w.finish("Enable", call("Enable", w.p.Enable))
	}
	w.settle()
	return true
}

// sends tries every sending call and every data message from the peer.
func (w *tw) sends(when string, selected bool) {
	x := w.x
	w.take()
	before := len(w.handled)
	up := w.up()
	msg := func(s, f, wb int) *ast.DataMessage {
		return ast.NewDataMessage("", s, f, wb, "H<->E", ast.NewASCIINode(fmt.Sprintf("t%d", len(w.ts))))
	}
	type res struct {
		name string
		err  error
		done *bool
	}
	var rs []*res
	try := func(name string, f func() error) {
		r := &res{name: name}
		w.ts = append(w.ts, &txn{id: len(w.ts), s: 6, f: 11, closed: true})
		r.done = call(name, func() { r.err = f() })
		rs = append(rs, r)
		w.settle()
	}
	w.onFrame = nil
	// the wait bit goes out as given, or else as the call needs it
	calls := []struct {
		how   string
		f, wb int
		w     bool
	}{{"SendDataMessage", 11, 0, false}, {"SendDataMessage", 15, 1, true}, {"SendDataMessage", 17, 2, false}, {"SendResponse", 12, 0, false}, {"SendResponse", 18, 2, false},
		{"SendAndWait", 13, 1, true}, {"SendAndWait", 19, 2, true}, {"SendAndWait", 21, 0, false}}
	for i, v := range calls {
		i, v := i, v
		try(fmt.Sprintf("%s S6F%d wait %d", v.how, v.f, v.wb), func() (err error) {
			switch v.how {
			case "SendDataMessage":
				err = w.p.SendDataMessage(msg(6, v.f, v.wb))
			case "SendResponse":
				err = w.p.SendResponse(msg(6, v.f, v.wb), []byte{0x77, 0, 0, byte(i)})
			default:
				_, err = w.p.SendAndWait(msg(6, v.f, v.wb))
			}
			return
		})
	}
	out := w.take()
	if selected {
		if len(out) != len(calls) {
			x.Failf("selected-send", "%s: the sends put %s on the wire", when, frames(out))
		}
		for i, v := range calls {
			f := out[i]
			if f.S() != 6 || f.F() != v.f || f.W() != v.w || int(f.Session) != w.cfg.sess || v.how == "SendResponse" && f.Sys != 0x77000000+uint32(i) {
				x.Failf("selected-send", "%s: %s S6F%d wait %d put %v on the wire", when, v.how, v.f, v.wb, f)
			}
			if v.how == "SendAndWait" {
				w.send(wire.NewData(uint16(w.cfg.sess), 6, v.f+1, false, f.Sys, wire.A("r")))
			}
		}
		w.settle()
		for _, r := range rs {
			if !*r.done || r.err != nil {
				x.Failf("selected-send", "%s: %s: done=%v %v", when, r.name, *r.done, r.err)
			}
		}
	} else {
		if len(out) != 0 {
			x.Failf("sent-unselected", "%s: in state %s the sends put %s on the wire", when, w.p.CurrentState(), frames(out))
		}
		want := hsms.ErrNotConnected
		if up {
			want = hsms.ErrNotSelected
		}
		for _, r := range rs {
			if !*r.done || !errors.Is(r.err, want) {
				x.Failf("unselected-error", "%s: %s: done=%v %v, want %v", when, r.name, *r.done, r.err, want)
			}
		}
	}
	// received data
	if up {
		s1, s2, s3 := w.nextSys(), w.nextSys(), w.nextSys()
		s9 := len(w.s9)
		w.send(wire.NewData(uint16(w.cfg.sess), 1, 1, true, s1, nil))
		w.send(wire.NewData(uint16(w.cfg.sess), 99, 1, true, s2, nil))
		w.send(wire.NewData(uint16(w.cfg.sess), 9, 5, false, s3, nil))
		for _, t := range w.ts { // a reply to whatever waits
			if t.sent && !t.done {
				w.send(wire.NewData(uint16(w.cfg.sess), t.s, t.f+1, false, t.sys, wire.A("early")))
			}
		}
		w.settle()
		out := w.take()
		if selected {
			if len(w.handled) != before+1 || len(out) != 2 || out[0].Sys != s1 || out[1].Sys != s2 || len(w.s9) != s9+1 {
				x.Failf("selected-receive", "%s: handled %d, frames %s, callbacks %d", when, len(w.handled)-before, frames(out), len(w.s9)-s9)
			}
		} else if len(w.handled) != before || len(out) != 0 || len(w.s9) != s9 {
			x.Failf("received-unselected", "%s: in state %s handled %d, frames %s, callbacks %d", when, w.p.CurrentState(), len(w.handled)-before, frames(out), len(w.s9)-s9)
		}
	}
	w.onFrame = w.frame
}

func runStates(x *X, cfg hcfg, ops []string, waiting bool) {
	w := newTW(x, cfg)
	w.off = true
	hist := ""
	var t *txn
	for i, op := range ops {
		if !w.event(op) {
			x.Outcome("pruned")
			return
		}
		hist += " " + op
		sel := op == "sel"
		if waiting && sel && t == nil {
			t = w.begin(1, 3, 1)
			w.settle()
			if !t.sent {
				x.Failf("not-sent", "after%s: the message is not on the wire", hist)
			}
		}
		// only the last state of each history is probed: shorter histories
		// are cases of their own
		if i == len(ops)-1 {
			w.sends("after"+hist, sel)
			if t != nil && !sel && t.done && t.err == nil {
				x.Failf("reply-unselected", "after%s: a reply was delivered in state %s", hist, w.p.CurrentState())
			}
		}
		x.State(op, fmt.Sprintf("%s %s up=%v", cfg.role(), w.p.CurrentState(), w.up()))
	}
	x.Outcome("%s", w.p.CurrentState())
}

// runSendRace: a send at the instant the session changes; a data frame never
// reaches a connection that was not selected, and success means written.
func runSendRace(x *X, cfg hcfg, evs []string, how string) {
	w := newTW(x, cfg)
	w.toSelected()
	sess := uint16(cfg.sess)
	selConn := w.nconn
	w.onFrame = nil
	var err error
	n := 0
	w.onFrame = func(f *wire.Frame) {
		if f.SType == wire.DeselectReq {
			w.send(wire.NewCtrl(wire.DeselectRsp, f.Session, 0, 0, f.Sys))
		}
		if f.SType == 0 && f.S() != 9 {
			n++
			if w.nconn != selConn {
				x.Failf("sent-unselected", "data frame %v on connection %d, which was never selected", f, w.nconn)
			}
		}
		if f.SType == 0 && f.S() == 9 && w.nconn != selConn {
			x.Failf("sent-unselected", "error frame %v on connection %d, which was never selected", f, w.nconn)
		}
	}
	m := ast.NewDataMessage("", 6, 11, 1, "H<->E", ast.NewASCIINode("t0"))
	if how == "SendAndWait-late" { // T3 elapses at the instant of the events
		d0 := call("send", func() { _, err = w.p.SendAndWait(m) })
		w.settle()
		w.wait(time.Duration(cfg.t3-1) * sec)
		vrt.Explore(true)
		vrt.Sleep(sec)
		_ = d0
	}
	vrt.Explore(true)
	var d *bool
	switch how {
	case "SendDataMessage":
		d = call("send", func() { err = w.p.SendDataMessage(m) })
	case "SendAndWait":
		d = call("send", func() { _, err = w.p.SendAndWait(m) })
	case "SendResponse":
		d = call("send", func() { err = w.p.SendResponse(m, []byte{1, 2, 3, 4}) })
	default:
		d = new(bool)
		*d = true
	}
	for _, e := range evs {
		switch e {
		case "desel":
			w.send(wire.NewCtrl(wire.DeselectReq, sess, 0, 0, w.nextSys()))
		case "sep":
			w.send(wire.NewCtrl(wire.SeparateReq, sess, 0, 0, w.nextSys()))
		case "close":
			w.c.Shut(false)
		case "dis":
			call("Disable", w.p.Disable)
		case "disen":
			call("Disable+Enable", func() { w.p.Disable(); w.p.Enable() })
		case "dial": // the next connection, at the same instant
			vrt.Idle()
			w.poll()
			if !w.up() {
				w.connect()
			}
		}
	}
	w.settle()
	vrt.Explore(false)
	for i := 0; i < 2*(cfg.t3+8) && !*d; i++ {
		w.wait(500 * time.Millisecond)
	}
	if !*d {
		x.Failf("hang", "%s has not returned", how)
	}
	if err == nil && how != "SendAndWait" && how != "SendAndWait-late" && n == 0 && w.c != nil && evs[0] == "desel" {
		x.Failf("not-sent", "%s reported success and nothing was written", how)
	}
	x.Outcome("%v %d %s", err, n, w.p.CurrentState())
}

func runUnencodable(x *X, cfg hcfg) {
	w := newHW(x, cfg)
	w.toSelected()
	w.wait(sec)
	w.take()
	bad := ast.NewDataMessage("", 6, 11, 1, "H<->E", ast.NewListNode(ast.NewIntNode(4, "x")))
	w.onFrame = func(f *wire.Frame) { x.Failf("sent-unencodable", "frame %v", f) }
	e1 := w.p.SendDataMessage(bad)
	e2 := w.p.SendResponse(bad, []byte{0, 0, 0, 1})
	var e3 error
	d := call("SendAndWait", func() { _, e3 = w.p.SendAndWait(bad) })
	w.settle()
	if !*d {
		x.Failf("silent-send", "SendAndWait waits for the reply of a message that was never written")
	}
	if e1 == nil || e2 == nil || e3 == nil {
		x.Failf("silent-send", "a message that cannot be encoded was reported as sent: %v %v %v", e1, e2, e3)
	}
	w.settle()
	w.onFrame = nil
	w.take()
	w.probe()
	x.Outcome("%v", e1)
}

func c09(c *C) {
	for _, active := range []bool{false, true} {
		cfg := hcfgDefault.asActive(active)
		cfg.t3 = 60
		for n := 1; n <= c.Q(5, 7); n++ {
			seqsOf(sevents, n, func(ops []string) {
				if ops[0] != "en" {
					return
				}
				for i := 1; i < len(ops); i++ { // what cannot follow itself
					if ops[i] == ops[i-1] {
						return
					}
				}
				c.Case(fmt.Sprintf("seq %s %s", cfg.role(), strings.Join(ops, " ")), Opt{}, func(x *X) { runStates(x, cfg, ops, false) })
				if n >= 3 && ops[1] == "sel" || n >= 3 && ops[2] == "sel" {
					c.Case(fmt.Sprintf("seqw %s %s", cfg.role(), strings.Join(ops, " ")), Opt{}, func(x *X) { runStates(x, cfg, ops, true) })
				}
			})
		}
		c.Case("fresh "+cfg.role(), Opt{}, func(x *X) {
			w := newTW(x, cfg)
			w.sends("fresh", false)
		})
		c.Case("unencodable "+cfg.role(), Opt{}, func(x *X) { runUnencodable(x, cfg) })
		cr := cfg
		cr.t3, cr.t5 = 4, 0
		for _, how := range []string{"SendDataMessage", "SendResponse", "SendAndWait", "SendAndWait-late"} {
			for _, e := range [][]string{{"desel"}, {"sep"}, {"close"}, {"dis"}, {"disen"}, {"sep", "dial"}, {"close", "dial"}, {"disen", "dial"}, {"desel", "close", "dial"}} {
				if active && e[len(e)-1] == "dial" {
					continue
				}
				c.Case(fmt.Sprintf("race %s %s %s", cr.role(), how, strings.Join(e, " ")), Opt{Dev: c.Q(2, 3), Split: true}, func(x *X) { runSendRace(x, cr, e, how) })
			}
		}
	}
}
