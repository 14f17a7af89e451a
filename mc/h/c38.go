package h

import (
	"fmt"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C38", Level: "model_checking", Budget: [2]int{200, 850},
		Rule: "every stream and primary function without a handler, with and without the wait bit, at GEM endpoints of both device types and connection modes; every stream 9 function with every body of the alphabet, as the answer to an open transaction and on its own; every violation the documentation lists",
		Run:  c38})
}

var gemHandled = map[bool][][2]int{
	true:  {{1, 1}, {1, 13}, {5, 1}, {6, 11}},
	false: {{1, 1}, {1, 13}, {1, 15}, {1, 17}, {2, 17}, {2, 31}, {2, 41}, {1, 3}, {1, 11}, {2, 13}, {2, 15}, {2, 29}, {2, 33}, {2, 35}, {2, 37}, {5, 3}, {5, 5}, {5, 7}, {6, 15}, {7, 3}, {7, 5}},
}

func commGW(x *X, gc gcfg) *gw {
	w := newGW(x, gc)
	w.toComm()
	w.settle()
	w.take()
	return w
}

// runUnhandled sends every primary nobody handles.
func runUnhandled(x *X, gc gcfg, wbit bool, from, to int) {
	w := commGW(x, gc)
	has := map[[2]int]bool{}
	for _, sf := range gemHandled[gc.host] {
		has[sf] = true
	}
	for s := from; s < to; s++ {
		for f := 1; f < 256; f += 2 {
			if has[[2]int{s, f}] {
				continue
			}
			sys := w.data(s, f, wbit, wire.A("x"))
			w.settle()
			out := w.take()
			if s == 9 {
				if len(out) > 0 {
					x.Failf("s9-answered", "S9F%d answered by %s", f, frames(out))
				}
				continue
			}
			ef, b := 3, wire.B(byte(s))
			if knownStreams[s] {
				ef, b = 5, wire.B(byte(f))
			}
			if len(out) != 1 || out[0].SType != 0 || out[0].S() != 9 || out[0].F() != ef || out[0].W() || out[0].Sys != sys || int(out[0].Session) != gc.sess || !wire.Equal(out[0].Item, b) {
				x.Failf("unhandled", "S%dF%d (W=%v) answered by %s, want S9F%d %v", s, f, wbit, frames(out), ef, b)
			}
			x.Eval(fmt.Sprintf("%v S%dF%d %v", gc, s, f, wbit), true)
		}
	}
	if w.g.State() != gem.CommunicationStateCommunicating {
		x.Failf("state", "communication was lost: %v", w.g.State())
	}
	x.Outcome("answered")
}

// runAnnounced sends every stream 9 message.
func runAnnounced(x *X, gc gcfg, body *wire.Item, solicited bool, callback string) {
	w := commGW(x, gc)
	var got []string
	w.g.Events().S9ErrorReceived.AddCallback(func(d map[string]interface{}) {
		e, _ := d["error"].(*hsms.S9ErrorInfo)
		if e == nil || d["handler"] != w.g {
			x.Failf("event", "the event carries %v", d)
			return
		}
		got = append(got, fmt.Sprintf("%d/%s/%x", e.ErrorCode, e.ErrorText, e.SystemBytes))
		switch callback {
		case "send":
			if err := w.p.SendDataMessage(ast.NewDataMessage("", 2, 101, 0, "H<->E", ast.NewASCIINode("cb"))); err != nil {
				x.Failf("callback", "sending in the callback: %v", err)
			}
		case "state":
			w.g.State()
			w.g.ControlState()
			w.p.CurrentState()
			w.g.Events().S9ErrorReceived.AddCallback(func(map[string]interface{}) {})
		}
	})
	texts := map[int]string{1: hsms.ErrTextUnrecognizedDeviceID, 3: hsms.ErrTextUnrecognizedStream, 5: hsms.ErrTextUnrecognizedFunction, 7: hsms.ErrTextIllegalData, 9: hsms.ErrTextTransactionTimeout, 11: hsms.ErrTextDataTooLong, 13: hsms.ErrTextConversationTimeout}
	for f := 1; f < 256; f += 2 {
		got = nil
		sys := w.nextSys()
		var done *bool
		var err error
		if solicited {
			var res string
			done = call("RequestDateTime", func() { res, err = w.g.RequestDateTime() })
			w.settle()
			out := w.take()
			if len(out) != 1 || out[0].S() != 2 || out[0].F() != 17 {
				x.Failf("harness", "RequestDateTime sent %s", frames(out))
			}
			sys = out[0].Sys
			_ = res
		}
		w.send(wire.NewData(uint16(gc.sess), 9, f, false, sys, body))
		w.settle()
		want := 0
		if callback == "send" {
			want = 1
		}
		if out := w.take(); len(out) != want || want == 1 && (out[0].S() != 2 || out[0].F() != 101) {
			x.Failf("s9-answered", "S9F%d answered by %s", f, frames(out))
		}
		if solicited && (!*done || err == nil) {
			x.Failf("s9-reply", "S9F%d does not end the transaction with an error: %v, %v", f, *done, err)
		}
		text := texts[f]
		if len(got) != 1 || text != "" && got[0] != fmt.Sprintf("%d/%s/%08x", f, text, sys) || text == "" && (len(got[0]) < 10 || got[0][:len(fmt.Sprint(f))+1] != fmt.Sprintf("%d/", f) || got[0][len(got[0])-9:] != fmt.Sprintf("/%08x", sys)) {
			x.Failf("announced", "S9F%d with system bytes %08x was announced as %q", f, sys, got)
		}
		x.Eval(fmt.Sprintf("S9F%d %v %v %s", f, body, solicited, callback), true)
	}
	if w.g.State() != gem.CommunicationStateCommunicating {
		x.Failf("state", "communication was lost: %v", w.g.State())
	}
	x.Outcome("announced")
}

// runDocumented commits one violation the documentation lists an answer for.
func runDocumented(x *X, gc gcfg, f int) {
	w := commGW(x, gc)
	sys := w.nextSys()
	switch f {
	case 1:
		w.send(wire.NewData(uint16(gc.sess+1), 1, 1, true, sys, nil))
	case 3:
		w.send(wire.NewData(uint16(gc.sess), 99, 1, true, sys, nil))
	case 5:
		w.send(wire.NewData(uint16(gc.sess), 1, 101, true, sys, nil))
	case 7:
		b := wire.NewData(uint16(gc.sess), 1, 1, true, sys, wire.A("abc")).Encode()
		b[14] = 0xff // no such format
		w.raw(b)
	case 9:
		call("send", func() {
			w.p.SendAndWait(ast.NewDataMessage("", 2, 101, 1, "H<->E", ast.NewListNode()))
		})
		w.wait(sec * 9)
	case 11:
		b := wire.NewData(uint16(gc.sess), 1, 1, true, sys, nil).Encode()
		b[0], b[1], b[2], b[3] = 2, 0, 0, 0
		w.raw(append(b, make([]byte, 1000)...))
	}
	w.settle()
	for _, o := range w.take() {
		if o.SType == 0 && o.S() == 9 && o.F() == f {
			x.Outcome("S9F%d", f)
			return
		}
	}
	x.Failf("not-sent", "S9F%d is not sent", f)
}

func c38(c *C) {
	o := Opt{MaxSteps: 1 << 40}
	for _, host := range []bool{false, true} {
		for _, active := range []bool{false, true} {
			gc := gcfgDefault
			gc.host, gc.active = host, active
			for _, wbit := range []bool{true, false} {
				wbit := wbit
				for s := 0; s < 128; s += 16 {
					s := s
					c.Case(fmt.Sprintf("unhandled %v W=%v from stream %d", gc, wbit, s), o, func(x *X) { vrt.MaxPts(1 << 31); runUnhandled(x, gc, wbit, s, s+16) })
				}
			}
			for _, b := range []*wire.Item{nil, wire.B(1, 2, 3, 4, 5, 6, 7, 8, 9, 10), wire.B(), wire.B(0), wire.A("x"), wire.L(), wire.L(wire.B(0), wire.L()), u4(7)} {
				b := b
				for _, cb := range []string{"", "send", "state"} {
					cb := cb
					for _, sol := range []bool{false, true} {
						if sol && !host {
							continue
						}
						sol := sol
						c.Case(fmt.Sprintf("announced %v %v solicited=%v %s", gc, b, sol, cb), o, func(x *X) { vrt.MaxPts(1 << 31); runAnnounced(x, gc, b, sol, cb) })
					}
				}
			}
			for f := 1; f <= 11; f += 2 {
				f := f
				c.Case(fmt.Sprintf("documented S9F%d %v", f, gc), o, func(x *X) { runDocumented(x, gc, f) })
			}
		}
	}
}
