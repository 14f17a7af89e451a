package h

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C24", Level: "model_checking", Budget: [2]int{200, 850},
		Rule: "every sequence of uploads (accepted, refused, malformed), local registrations and requests of the alphabet to the depth bound against a map; bodies of every byte, both item types and every length class, ids in every encoding, every code of the callbacks; the same through the host-side calls; uploads, requests and registrations at once under every schedule to the deviation bound; many programs; texts of the lengths around field limits that differ in their last character",
		Run:  c24})
	register(&Check{ID: "C25", Level: "model_checking", Budget: [2]int{200, 850},
		Rule: "every date and time of the boundary grid, every one-character corruption of valid time texts, every length, every acknowledge code, and sequences of set and read to the depth bound, through S2F31 and S2F17 and through the host-side calls",
		Run:  c25})
}

// pw is an equipment with a reference store of process programs.
type pw struct {
	*gw
	m    map[string][]byte
	up   []string // calls of the upload handler
	code int      // what it returns; accept if handler is off
}

func newPW(x *X) *pw {
	return &pw{gw: newGW(x, gcfgDefault), m: map[string][]byte{}}
}

func (w *pw) handler(on bool) {
	if !on {
		w.g.SetProcessProgramUploadHandler(nil)
		return
	}
	w.g.SetProcessProgramUploadHandler(func(id interface{}, body string) int {
		w.up = append(w.up, rawKey(id)+"="+body)
		return w.code
	})
}

func ppBody(it *wire.Item) ([]byte, bool) {
	if it != nil && (it.F == wire.FA || it.F == wire.FB) {
		return it.Data, true
	}
	return nil, false
}

// upload sends one S7F3. code: what the handler returns, handled: it is there.
func (w *pw) upload(it *wire.Item, handled bool, code int) {
	w.handler(handled)
	w.code = code
	w.up = nil
	ack := ackOf(w.ask(7, 3, it))
	key, body, ok := "", []byte(nil), false
	if it != nil && it.F == wire.FL && len(it.L) == 2 {
		if b, good := ppBody(it.L[1]); good {
			key, body, ok = idKey(it.L[0]), b, idKey(it.L[0]) != ""
		}
	}
	what := trunc(fmt.Sprintf("S7F3 %v", it), 200)
	if !ok {
		if ack <= 0 || len(w.up) > 0 {
			w.x.Failf("malformed", "%s answered %d, upload handler called %d times", what, ack, len(w.up))
		}
		return
	}
	if handled && (len(w.up) != 1 || w.up[0] != key+"="+string(body)) {
		w.x.Failf("handler", "%s: the upload handler was called with %q", what, w.up)
	}
	want := 0
	if handled {
		want = code
	}
	if want >= 0 && want <= 255 && ack != want || (want < 0 || want > 255) && ack <= 0 {
		w.x.Failf("ack", "%s answered %d, the handler said %d", what, ack, want)
	}
	if ack == 0 {
		w.m[key] = body
	}
}

// fetch requests one program.
func (w *pw) fetch(req *wire.Item, id *wire.Item) {
	got := w.ask(7, 5, req)
	what := fmt.Sprintf("S7F5 %v", req)
	key := ""
	if id != nil {
		key = idKey(id)
	}
	body, have := w.m[key]
	if have && key != "" {
		if b, ok := w.program(what, got, id); !ok || !bytes.Equal(b, body) {
			w.x.Failf("body", "%s answered by %s, want the body %s", what, trunc(got.String(), 200), trunc(fmt.Sprintf("%q", body), 200))
		}
		return
	}
	w.none(what, got)
}

// program reads an S7F6 that hands out a program.
func (w *pw) program(what string, got, id *wire.Item) ([]byte, bool) {
	if got == nil || got.F != wire.FL || len(got.L) < 2 || len(got.L) > 3 || !sameID(got.L[0], id) || len(got.L) == 3 && ackOf(got.L[2]) != 0 {
		return nil, false
	}
	return ppBody(got.L[1])
}

// none checks an S7F6 that hands out nothing.
func (w *pw) none(what string, got *wire.Item) {
	if got == nil || empty(got) {
		return
	}
	if got.F == wire.FL && len(got.L) >= 2 && len(got.L) <= 3 && empty(got.L[1]) && (len(got.L) == 2 || ackOf(got.L[2]) > 0) {
		return
	}
	w.x.Failf("unknown", "%s, for which there is no program, answered by %s", what, trunc(got.String(), 200))
}

// stored compares the local list with the model.
func (w *pw) stored() {
	var a, b []string
	for _, p := range w.g.ListProcessPrograms() {
		a = append(a, rawKey(p.ID())+"="+p.Body)
	}
	for k, v := range w.m {
		b = append(b, k+"="+string(v))
	}
	sort.Strings(a)
	sort.Strings(b)
	if fmt.Sprintf("%q", a) != fmt.Sprintf("%q", b) {
		w.x.Failf("store", "stored programs are %q, want %q", a, b)
	}
}

type pop struct {
	name string
	do   func(w *pw)
}

func pops() (small, all []pop) {
	add := func(s bool, name string, f func(w *pw)) {
		if s {
			small = append(small, pop{name, f})
		}
		all = append(all, pop{name, f})
	}
	upl := func(s bool, it *wire.Item, handled bool, code int) {
		add(s, fmt.Sprintf("S7F3 %v %v %d", it, handled, code), func(w *pw) { w.upload(it, handled, code) })
	}
	a, b := wire.A("RECIPE"), wire.A("1")
	upl(true, wire.L(a, wire.A("body 1")), false, 0)
	upl(true, wire.L(a, wire.B(0, 255, 128)), true, 0)
	upl(true, wire.L(a, wire.A("refused")), true, 5)
	upl(true, wire.L(b, wire.A("of one")), true, 0)
	upl(true, wire.L(u1(1), wire.A("")), false, 0)
	upl(true, wire.L(wire.I(4, 1), wire.B(1, 2)), true, 0)
	upl(true, wire.L(a, u4(1)), false, 0)
	upl(false, wire.L(a, wire.A("too big")), true, 256)
	upl(false, wire.L(a, wire.A("negative")), true, -1)
	upl(false, wire.L(wire.U(8, 1), wire.A("of N:1")), true, 255)
	upl(false, wire.L(wire.U(8, 1<<40), wire.A("big id")), false, 0)
	upl(false, wire.L(wire.A(""), wire.A("no name")), true, 0)
	for _, it := range []*wire.Item{nil, wire.L(), a, wire.L(a), wire.L(wire.L(), wire.A("x")), wire.L(wire.B(1), wire.A("x")), wire.L(wire.I(1, -1), wire.A("x")), wire.L(wire.U(4), wire.A("x")), wire.L(a, wire.L()), wire.L(a, wire.L(wire.A("x"))), wire.L(a, wire.Bool(true)), wire.L(a, wire.Fl(4, 1)), wire.L(a, wire.I(1, 65)), wire.L(a, wire.U(1, 65, 66))} {
		upl(false, it, true, 0)
	}
	add(true, "local", func(w *pw) {
		if err := w.g.RegisterProcessProgram("RECIPE", "local\xffprogram"); err != nil {
			w.x.Failf("register", "%v", err)
		}
		w.m["S:RECIPE"] = []byte("local\xffprogram")
	})
	add(false, "local 1", func(w *pw) {
		if err := w.g.RegisterProcessProgram(uint16(1), "one"); err != nil {
			w.x.Failf("register", "%v", err)
		}
		w.m["N:1"] = []byte("one")
	})
	return
}

// fetchAll requests everything in every form.
func (w *pw) fetchAll() {
	for _, id := range []*wire.Item{wire.A("RECIPE"), wire.A("1"), u1(1), u2(1), u4(1), wire.U(8, 1), wire.I(1, 1), wire.I(8, 1), wire.U(8, 1<<40), wire.A(""), wire.A("recipe"), u4(2)} {
		w.fetch(id, id)
	}
	for _, id := range []*wire.Item{wire.A("RECIPE"), u4(1)} {
		w.fetch(wire.L(id), id)
	}
	for _, m := range []*wire.Item{nil, wire.L(), wire.L(wire.L()), wire.B(1), wire.Bool(true), wire.Fl(4, 1), wire.I(1, -1), wire.U(4), wire.L(wire.B(1))} {
		w.fetch(m, nil)
	}
	w.stored()
}

func runPrograms(x *X, ops []pop) {
	w := newPW(x)
	w.toComm()
	var n []string
	for _, o := range ops {
		o.do(w)
		n = append(n, o.name)
	}
	w.fetchAll()
	var s []string
	for k := range w.m {
		s = append(s, k)
	}
	sort.Strings(s)
	x.State(strings.Join(n, ","), fmt.Sprint(s))
	x.Eval(strings.Join(n, ","), true)
}

// runContents uploads and fetches one body after the other.
func runContents(x *X, bodies []*wire.Item) {
	w := newPW(x)
	w.toComm()
	id := wire.A("P")
	for i, b := range bodies {
		w.upload(wire.L(id, b), i%2 == 0, 0)
		w.fetch(id, id)
		x.Eval(trunc(b.String(), 60)+fmt.Sprint(len(b.Data)), true)
	}
	w.stored()
}

// runRequestHandler serves requests from the application.
func runRequestHandler(x *X) {
	w := newPW(x)
	w.toComm()
	w.g.RegisterProcessProgram("P", "stored")
	calls := []string{}
	body, code := "", 0
	w.g.SetProcessProgramRequestHandler(func(id interface{}) (string, int) {
		calls = append(calls, rawKey(id))
		return body, code
	})
	for _, id := range []*wire.Item{wire.A("P"), u4(9), wire.A("unknown")} {
		for _, b := range []string{"", "text", "bin\x80\xff\x00"} {
			for _, c := range []int{0, 1, 4, 63, 64, 255, 256, 1000, -1, -256} {
				body, code, calls = b, c, nil
				got := w.ask(7, 5, id)
				if len(calls) != 1 || calls[0] != idKey(id) {
					x.Failf("handler", "S7F5 %v: the request handler was called for %v", id, calls)
				}
				if c != 0 {
					w.none(fmt.Sprintf("S7F5 %v refused with %d", id, c), got)
				} else if g, ok := w.program("S7F5", got, id); !ok || string(g) != b {
					x.Failf("body", "S7F5 %v answered by %v, the handler said %q", id, got, b)
				}
				x.Eval(fmt.Sprint(id, b, c), true)
			}
		}
	}
	for _, m := range []*wire.Item{nil, wire.L(), wire.B(1)} {
		body, code, calls = "secret", 0, nil
		w.none(fmt.Sprintf("malformed S7F5 %v", m), w.ask(7, 5, m))
	}
}

func runHostPrograms(x *X, ops []int) {
	ids := []interface{}{"P", 7, uint64(1 << 40)}
	bodies := []string{"", "line 1\nline 2\x00", "bin\xff\x80", strings.Repeat("z", 300)}
	p := newPair(x)
	w := &pw{gw: p.e, m: map[string][]byte{}}
	p.up()
	for _, o := range ops {
		id, b := ids[o%3], bodies[o/3%4]
		code := 0
		if o >= 12 {
			code = 3
		}
		w.handler(true)
		w.code = code
		var ack int
		var err error
		p.call("UploadProcessProgram", func() { ack, err = p.h.g.UploadProcessProgram(id, b) })
		if err != nil || ack != code {
			x.Failf("host", "UploadProcessProgram(%v) returned %d, %v; the handler said %d", id, ack, err, code)
		}
		if code == 0 {
			w.m[rawKey(id)] = []byte(b)
		}
		for _, id := range append(ids, "none") {
			var got string
			p.call("RequestProcessProgram", func() { got, ack, err = p.h.g.RequestProcessProgram(id) })
			want, have := w.m[rawKey(id)]
			if err != nil || have != (ack == 0) || got != string(want) {
				x.Failf("host", "RequestProcessProgram(%v) returned %q, %d, %v; want %q, known %v", id, got, ack, err, want, have)
			}
		}
	}
	w.stored()
	x.Eval(fmt.Sprint(ops), true)
}

func runProgramRace(x *X, reqs int) {
	w := newPW(x)
	w.toComm()
	w.g.RegisterProcessProgram("P", "old")
	w.settle()
	w.take()
	vrt.Explore(true)
	done := call("register", func() {
		if err := w.g.RegisterProcessProgram("P", "local"); err != nil {
			x.Failf("register", "%v", err)
		}
	})
	n := 0
	for i := 0; i < reqs; i++ {
		w.data(7, 5, true, wire.A("P"))
		w.data(7, 3, true, wire.L(wire.A("P"), wire.A(fmt.Sprintf("host%d", i))))
		n += 2
	}
	w.data(7, 5, true, wire.A("P"))
	w.settle()
	vrt.Explore(false)
	w.finish("RegisterProcessProgram", done)
	o := w.take()
	if len(o) != n+1 {
		x.Failf("no-reply", "%d messages answered by %s", n+1, frames(o))
	}
	may := map[string]bool{"old": true, "local": true}
	var seen []string
	for i, f := range o {
		if i%2 == 1 {
			if ackOf(f.Item) != 0 {
				x.Failf("ack", "%v", f)
			}
			may = map[string]bool{fmt.Sprintf("host%d", i/2): true, "local": true}
			continue
		}
		b, ok := w.program("race", f.Item, wire.A("P"))
		if !ok || !may[string(b)] {
			x.Failf("body", "answer %d is %v, may be %v", i, f, may)
		}
		seen = append(seen, string(b))
	}
	x.Outcome("%v", seen)
}

func c24(c *C) {
	long(c, longPrograms)
	texts(c, "texts", textPrograms)
	texts(c, "host texts", textHostPrograms)
	o := Opt{MaxSteps: 1 << 25}
	small, all := pops()
	run := func(tag string, set []pop, ix []int) {
		var s []pop
		var n []string
		for _, i := range ix {
			s = append(s, set[i])
			n = append(n, fmt.Sprint(i))
		}
		c.Case(tag+" "+strings.Join(n, "."), o, func(x *X) { runPrograms(x, s) })
	}
	for d := 0; d <= c.Q(3, 3); d++ {
		seqs(len(all), d, func(ix []int) { run("all", all, ix) })
	}
	for d := 3; d <= c.Q(4, 6); d++ {
		seqs(len(small), d, func(ix []int) { run("seq", small, ix) })
	}
	var part []*wire.Item
	n := 0
	flush := func() {
		if len(part) > 0 {
			b := part
			part = nil
			n++
			c.Case(fmt.Sprintf("contents %d", n), o, func(x *X) { runContents(x, b) })
		}
	}
	put := func(it *wire.Item) {
		part = append(part, it)
		if len(part) == 64 {
			flush()
		}
	}
	for v := 0; v < 256; v++ {
		put(wire.B(byte(v)))
		put(wire.B('a', byte(v), 0))
		if v < 128 {
			put(wire.A(string(rune(v))))
			put(wire.A("x" + string(rune(v)) + "y"))
		}
	}
	if c.Thorough {
		for v := 0; v < 65536; v++ {
			put(wire.B(byte(v>>8), byte(v)))
			if v&0x8080 == 0 {
				put(wire.A(string([]byte{byte(v >> 8), byte(v)})))
			}
		}
	}
	flush()
	for _, l := range []int{0, 1, 254, 255, 256, 257, 65534, 65535, 65536, 70000} {
		put(wire.A(strings.Repeat("p", l)))
		put(wire.B(bytes.Repeat([]byte{0xC3}, l)...))
	}
	flush()
	c.Case("request handler", o, runRequestHandler)
	for d := 1; d <= c.Q(3, 4); d++ {
		seqs(15, d, func(ix []int) {
			s := append([]int(nil), ix...)
			c.Case(fmt.Sprintf("host %v", s), o, func(x *X) { runHostPrograms(x, s) })
		})
	}
	for n := 0; n <= 2; n++ {
		n := n
		c.Case(fmt.Sprintf("race %d", n), Opt{Dev: c.Q(4, 6), Split: true, MaxSteps: 1 << 22}, func(x *X) { runProgramRace(x, n) })
	}
}

// ---- C25

// timeOK is the reference for a time text: 14 or 16 digits that name a
// second of the Gregorian calendar.
func timeOK(s string) bool {
	if len(s) != 14 && len(s) != 16 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	n := func(a, b int) int {
		v := 0
		for _, c := range s[a:b] {
			v = v*10 + int(c-'0')
		}
		return v
	}
	y, mo, d, h, mi, se := n(0, 4), n(4, 6), n(6, 8), n(8, 10), n(10, 12), n(12, 14)
	if mo < 1 || mo > 12 || h > 23 || mi > 59 || se > 59 {
		return false
	}
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[mo-1]
	if mo == 2 && y%4 == 0 && (y%100 != 0 || y%400 == 0) {
		days = 29
	}
	return d >= 1 && d <= days
}

type tmw struct {
	*gw
	cur  time.Time
	sets []time.Time
	code byte
	err  error
}

func (w *tmw) handler() {
	w.g.SetClockSyncHandler(func(t time.Time) (byte, error) {
		w.sets = append(w.sets, t)
		if w.code == 0 && w.err == nil {
			w.cur = t
		}
		return w.code, w.err
	})
	w.g.SetTimeProvider(func() time.Time { return w.cur })
}

func newTMW(x *X) *tmw {
	w := &tmw{gw: newGW(x, gcfgDefault), cur: time.Date(2024, 2, 29, 23, 59, 58, 999999999, time.UTC)}
	w.handler()
	return w
}

const tfmt = "20060102150405"

// read checks S2F17.
func (w *tmw) read(after string) {
	want := w.cur.Format(tfmt) + "00"
	for _, b := range []*wire.Item{nil, wire.L()} {
		if got := w.ask(2, 17, b); !wire.Equal(got, wire.A(want)) {
			w.x.Failf("read", "after %s: S2F17 answered by %v, the clock says %s", after, got, want)
		}
	}
	if got := w.g.GetEquipmentTime(); got != want {
		w.x.Failf("read", "after %s: GetEquipmentTime is %s, the clock says %s", after, got, want)
	}
}

// set sends S2F31 with a text.
func (w *tmw) set(s string) {
	w.sets = nil
	ack := ackOf(w.ask(2, 31, wire.A(s)))
	what := fmt.Sprintf("S2F31 %q", s)
	if !timeOK(s) {
		if ack <= 0 || len(w.sets) > 0 {
			w.x.Failf("malformed", "%s answered %d, the handler was called with %v", what, ack, w.sets)
		}
		w.x.State(what, w.cur.Format(tfmt))
		return
	}
	w.x.State(what, w.cur.Format(tfmt))
	if len(w.sets) != 1 || w.sets[0].Format(tfmt) != s[:14] || w.sets[0].Nanosecond() != 0 && len(s) == 14 {
		w.x.Failf("set", "%s: the handler was called with %v", what, w.sets)
	}
	if w.err == nil && ack != int(w.code) || w.err != nil && ack <= 0 {
		w.x.Failf("ack", "%s answered %d, the handler said %d, %v", what, ack, w.code, w.err)
	}
}

func runTimes(x *X, ts []string) {
	w := newTMW(x)
	w.toComm()
	for _, s := range ts {
		w.set(s)
		w.read(fmt.Sprintf("S2F31 %q", s))
		t, err := gem.ParseSEMITime(s)
		if (err == nil) != timeOK(s) || err == nil && t.Format(tfmt) != s[:14] {
			x.Failf("parse", "ParseSEMITime(%q) is %v, %v", s, t, err)
		}
		x.Eval(s, true)
	}
}

func runClockOdds(x *X) {
	w := newTMW(x)
	w.toComm()
	w.read("nothing")
	for _, it := range []*wire.Item{nil, wire.L(), wire.A(""), wire.B('2', '0'), wire.L(wire.A("20240101000000")), u4(20240101), wire.U(1, 50, 48, 50, 52, 48, 49, 48, 49, 48, 48, 48, 48, 48, 48), wire.Bool(true)} {
		w.sets = nil
		if ack := ackOf(w.ask(2, 31, it)); ack <= 0 || len(w.sets) > 0 {
			x.Failf("malformed", "S2F31 %v answered %d, the handler was called with %v", it, ack, w.sets)
		}
		w.read(it.String())
	}
	for c := 0; c < 256; c++ {
		for _, err := range []error{nil, errors.New("no")} {
			w.code, w.err = byte(c), err
			w.set(fmt.Sprintf("20%02d0101000000", c%100))
			w.read("code")
			x.Eval(fmt.Sprint(c, err), true)
		}
	}
	w.code, w.err = 0, nil
	// zones, fractions and years as the application's clock has them
	for _, z := range []*time.Location{time.UTC, time.FixedZone("a", 8*3600), time.FixedZone("b", -(11*3600 + 1800))} {
		for _, t := range []time.Time{time.Date(2024, 12, 31, 23, 59, 59, 999999999, z), time.Date(1, 1, 1, 0, 0, 0, 0, z), time.Date(9999, 12, 31, 0, 0, 0, 1, z)} {
			w.cur = t
			w.read(t.String())
		}
	}
	// no time source of its own, no handler
	w.g.SetClockSyncHandler(nil)
	w.sets = nil
	if ack := ackOf(w.ask(2, 31, wire.A("20240101000000"))); ack <= 0 || len(w.sets) > 0 {
		x.Failf("handler", "S2F31 without a handler answered %d", ack)
	}
	w.read("S2F31 without a handler")
	w.g.SetTimeProvider(nil)
	if got := w.ask(2, 17, nil); got == nil || got.F != wire.FA || !timeOK(string(got.Data)) || len(got.Data) != 16 {
		x.Failf("read", "S2F17 without a time source answered by %v", got)
	}
}

func runHostClock(x *X, ts []string) {
	p := newPair(x)
	w := &tmw{gw: p.e, cur: time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)}
	w.handler()
	p.up()
	for i, s := range ts {
		w.code = byte(i % 3)
		w.sets = nil
		var ack byte
		var err error
		p.call("SetDateTime", func() { ack, err = p.h.g.SetDateTime(s) })
		switch {
		case len(s) < 14:
			if err == nil || len(w.sets) > 0 {
				x.Failf("host", "SetDateTime(%q) returned %d, %v", s, ack, err)
			}
		case !timeOK(s):
			if err == nil && ack == 0 || len(w.sets) > 0 {
				x.Failf("host", "SetDateTime(%q) returned %d, %v", s, ack, err)
			}
		default:
			if err != nil || ack != w.code || len(w.sets) != 1 {
				x.Failf("host", "SetDateTime(%q) returned %d, %v; the handler said %d", s, ack, err, w.code)
			}
		}
		var got string
		p.call("RequestDateTime", func() { got, err = p.h.g.RequestDateTime() })
		if want := w.cur.Format(tfmt) + "00"; err != nil || got != want {
			x.Failf("host", "RequestDateTime returned %q, %v; the clock says %s", got, err, want)
		}
		x.Eval(s, true)
	}
}

func c25(c *C) {
	o := Opt{MaxSteps: 1 << 25}
	var part []string
	n := 0
	flush := func() {
		if len(part) > 0 {
			b := part
			part = nil
			n++
			c.Case(fmt.Sprintf("times %d", n), o, func(x *X) { runTimes(x, b) })
		}
	}
	put := func(s string) {
		part = append(part, s)
		if len(part) == 50 {
			flush()
		}
	}
	years := []int{0, 1, 1900, 1999, 2000, 2023, 2024, 2100, 2400, 9999}
	if c.Thorough {
		years = nil
		for y := 0; y < 10000; y += 7 {
			years = append(years, y)
		}
	}
	for _, y := range years {
		for m := 0; m <= 13; m++ {
			for _, d := range []int{0, 1, 28, 29, 30, 31, 32, 99} {
				put(fmt.Sprintf("%04d%02d%02d123456", y, m, d))
			}
		}
	}
	for h := 0; h < 100; h++ {
		for _, ms := range []string{"0000", "5959", "6000", "0060", "9900", "0099"} {
			put(fmt.Sprintf("20240229%02d%s00", h, ms))
		}
		put(fmt.Sprintf("2024022911%02d00", h))
		put(fmt.Sprintf("202402291100%02d", h))
		put(fmt.Sprintf("20240229115959%02d", h))
	}
	for _, base := range []string{"20240229235958", "2024022923595800", "19991231000000", "2001010101010199"} {
		for i := range base {
			for b := 0; b < 128; b++ {
				put(base[:i] + string(rune(b)) + base[i+1:])
			}
			put(base[:i] + base[i+1:])
			put(base[:i] + "0" + base[i:])
			put(base[:i])
		}
		for _, t := range []string{"", "0", "00", "000", "0000", "x", " ", "Z", ".5", "+8", "-0"} {
			put(base + t)
			put(t + base)
		}
	}
	flush()
	c.Case("odds", o, runClockOdds)
	texts := []string{"20240229235959", "2024022923595977", "20230229000000", "", "2024", "20240101000000xx", "99991231235959", "00000101000000"}
	for d := 1; d <= c.Q(4, 5); d++ {
		seqs(len(texts), d, func(ix []int) {
			var s []string
			for _, i := range ix {
				s = append(s, texts[i])
			}
			c.Case(fmt.Sprintf("host %v", ix), o, func(x *X) { runHostClock(x, s) })
			c.Case(fmt.Sprintf("sequence %v", ix), o, func(x *X) { runTimes(x, s) })
		})
	}
}
