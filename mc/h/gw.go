package h

import (
	"fmt"
	"strings"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

// gcfg configures a GEM endpoint under test.
type gcfg struct {
	hcfg
	host  bool
	ctl   gem.ControlState
	mode  gem.OnlineControlMode
	estab time.Duration

	mdln, softrev string // M1, R1 if empty
	with          func(o *gem.Options)
}

func (c gcfg) String() string {
	s := "equipment"
	if c.host {
		s = "host"
	}
	return s + " " + c.role()
}

var gcfgDefault = gcfg{hcfg: hcfgDefault, estab: 10 * time.Second}

// gw is a GEM endpoint under test with a simulated peer.
type gw struct {
	*hw
	gc  gcfg
	g   *gem.GemHandler
	ctl []string // control state notifications
	com int      // communicating notifications
}

func newGW(x *X, gc gcfg) *gw {
	w := &gw{hw: newHW(x, gc.hcfg), gc: gc}
	dt := gem.DeviceEquipment
	if gc.host {
		dt = gem.DeviceHost
	}
	if gc.mdln == "" {
		gc.mdln, gc.softrev = "M1", "R1"
	}
	o := gem.Options{Protocol: w.p, DeviceType: dt, DeviceID: uint16(gc.sess), MDLN: gc.mdln, SOFTREV: gc.softrev,
		EstablishCommunicationWait: gc.estab, InitialControlState: gc.ctl, InitialOnlineMode: gc.mode}
	if gc.with != nil {
		gc.with(&o)
	}
	g, err := gem.NewGemHandler(o)
	if err != nil {
		x.Failf("harness", "NewGemHandler: %v", err)
	}
	w.g = g
	s9 := w.p.OnS9Error
	w.p.OnS9Error = func(e *hsms.S9ErrorInfo) {
		w.s9 = append(w.s9, e.ErrorCode)
		if s9 != nil {
			s9(e)
		}
	}
	g.Events().ControlStateChanged.AddCallback(func(d map[string]interface{}) {
		w.ctl = append(w.ctl, fmt.Sprintf("%v>%v", d["previous"], d["current"]))
	})
	g.Events().HandlerCommunicating.AddCallback(func(d map[string]interface{}) { w.com++ })
	return w
}

// data sends a primary and returns its system bytes.
func (w *gw) data(s, f int, wbit bool, it *wire.Item) uint32 {
	sys := w.nextSys()
	w.send(wire.NewData(uint16(w.cfg.sess), s, f, wbit, sys, it))
	return sys
}

// reply answers a frame of the endpoint.
func (w *gw) reply(f *wire.Frame, it *wire.Item) {
	w.send(wire.NewData(uint16(w.cfg.sess), f.S(), f.F()+1, false, f.Sys, it))
}

// ask sends a primary with the wait bit and returns the body of its reply,
// which must be the only thing that is sent.
func (w *gw) ask(s, f int, it *wire.Item) *wire.Item {
	w.settle()
	if o := w.take(); len(o) > 0 {
		w.x.Failf("unexpected", "the endpoint sent %s before the request", frames(o))
	}
	sys := w.data(s, f, true, it)
	w.settle()
	o := w.take()
	if len(o) != 1 || o[0].SType != 0 || o[0].S() != s || o[0].F() != f+1 || o[0].Sys != sys || o[0].W() || int(o[0].Session) != w.cfg.sess {
		w.x.Failf("no-reply", "S%dF%d %v answered by %s", s, f, it, frames(o))
	}
	return o[0].Item
}

// toComm brings a fresh endpoint to COMMUNICATING, and equipment on line.
func (w *gw) toComm() {
	x := w.x
	w.g.Enable()
	w.settle()
	w.selectNow()
	w.take()
	sys := w.data(1, 13, true, wire.L())
	w.settle()
	o := w.take()
	if w.gc.host {
		if len(o) != 1 || o[0].S() != 1 || o[0].F() != 14 || o[0].Sys != sys {
			x.Failf("establish", "S1F13 answered by %s", frames(o))
		}
	} else {
		// S1F14 and, if the equipment attempts the on-line state, S1F1
		var f14, f1 *wire.Frame
		for _, f := range o {
			switch {
			case f.S() == 1 && f.F() == 14 && f.Sys == sys:
				f14 = f
			case f.S() == 1 && f.F() == 1 && f.W():
				f1 = f
			default:
				x.Failf("establish", "S1F13 answered by %s", frames(o))
			}
		}
		if f14 == nil {
			x.Failf("establish", "S1F13 answered by %s", frames(o))
		}
		if f1 != nil {
			w.reply(f1, wire.L())
			w.settle()
		}
		w.take()
	}
	if s := w.g.State(); s != gem.CommunicationStateCommunicating {
		x.Failf("establish", "state %v after S1F13", s)
	}
}

// gpair is an equipment and a host, both real, with everything they exchange
// passed on by the harness.
type gpair struct {
	x    *X
	e, h *gw
	hold func(f *wire.Frame, fromEq bool) bool // true: do not pass it on
	log  []*wire.Frame
	from []bool // from the equipment
	held []*wire.Frame
}

func newPair(x *X) *gpair {
	ec, hc := gcfgDefault, gcfgDefault
	hc.host, hc.active, hc.port = true, true, 5001
	p := &gpair{x: x, e: newGW(x, ec), h: newGW(x, hc)}
	return p
}

// up brings both to COMMUNICATING.
func (p *gpair) up() {
	p.e.g.Enable()
	p.h.g.Enable()
	p.h.settle()
	p.e.settle()
	p.h.selectNow()
	p.e.selectNow()
	p.pump()
	for i := 0; i < 20 && (p.e.g.State() != gem.CommunicationStateCommunicating || p.h.g.State() != gem.CommunicationStateCommunicating || p.e.g.ControlState() == gem.ControlStateAttemptOnline); i++ {
		p.wait(500 * time.Millisecond)
	}
	if p.e.g.State() != gem.CommunicationStateCommunicating || p.h.g.State() != gem.CommunicationStateCommunicating {
		p.x.Failf("establish", "equipment %v, host %v after 10 s", p.e.g.State(), p.h.g.State())
	}
	p.log, p.from = nil, nil
}

// pump passes messages on until both are at rest.
func (p *gpair) pump() {
	for i := 0; ; i++ {
		p.e.settle()
		p.h.settle()
		eo, ho := p.e.take(), p.h.take()
		if len(eo)+len(ho) == 0 {
			return
		}
		if i > 200 {
			p.x.Failf("chatter", "the exchange does not come to rest: %s", frames(p.log[len(p.log)-6:]))
		}
		for _, f := range eo {
			p.pass(f, true)
		}
		for _, f := range ho {
			p.pass(f, false)
		}
	}
}

func (p *gpair) pass(f *wire.Frame, fromEq bool) {
	if f.SType != 0 {
		return // selection is per link
	}
	p.log = append(p.log, f)
	p.from = append(p.from, fromEq)
	if p.hold != nil && p.hold(f, fromEq) {
		p.held = append(p.held, f)
		return
	}
	if fromEq {
		p.h.send(f)
	} else {
		p.e.send(f)
	}
}

func (p *gpair) wait(d time.Duration) {
	end := vrt.Now() + d
	for vrt.Now() < end {
		vrt.Sleep(100 * time.Millisecond)
		p.pump()
	}
}

// call runs a blocking call of one side to its end.
func (p *gpair) call(what string, f func()) {
	done := call(what, f)
	p.pump()
	if !*done {
		p.x.Failf("stuck", "%s does not return although everything was passed on", what)
	}
}

// since returns and forgets what was exchanged.
func (p *gpair) since() string {
	var s []string
	for i, f := range p.log {
		d := "h>"
		if p.from[i] {
			d = "e>"
		}
		s = append(s, fmt.Sprintf("%sS%dF%d %v", d, f.S(), f.F(), f.Item))
	}
	p.log, p.from = nil, nil
	return strings.Join(s, "\n")
}

// value shows a node as the item it stands for.
func value(n ast.ItemNode) string {
	if n == nil {
		return "nil"
	}
	it, err := fromNode(n)
	if err != nil {
		return "?" + err.Error()
	}
	return it.String()
}

// node makes the library's form of an item.
func node(it *wire.Item) ast.ItemNode { return toNode(it, 0) }
