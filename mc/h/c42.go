package h

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

func init() {
	register(&Check{ID: "C42", Level: "exploration", Budget: [2]int{240, 850},
		Rule: "every combination of the grid of handler options (identity, control state and mode, establishment delay, trace log, application log) given, left out and out of range; the identification, the initial state, the time of the second attempt, and the bytes that reach the log files, the writer, standard output and standard error are compared with what the options say",
		Run:  c42})
}

// std redirects what the process would write to its standard streams.
type std struct {
	dir      string
	out, err *os.File
	o, e     *os.File
}

func newStd() *std {
	dir, err := os.MkdirTemp("", "c42-")
	if err != nil {
		panic(err)
	}
	s := &std{dir: dir, o: os.Stdout, e: os.Stderr}
	s.out, _ = os.Create(filepath.Join(dir, "stdout"))
	s.err, _ = os.Create(filepath.Join(dir, "stderr"))
	os.Stdout, os.Stderr = s.out, s.err
	return s
}

func (s *std) close() {
	os.Stdout, os.Stderr = s.o, s.e
	s.out.Close()
	s.err.Close()
	os.RemoveAll(s.dir)
}

func (s *std) path(n string) string { return filepath.Join(s.dir, n) }

// read returns what a file of the scratch directory holds.
func (s *std) read(n string) string {
	b, err := os.ReadFile(s.path(n))
	if err != nil {
		return ""
	}
	return string(b)
}

// files lists the files of the scratch directory, the standard streams aside.
func (s *std) files() string {
	var l []string
	filepath.Walk(s.dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			if r, _ := filepath.Rel(s.dir, p); r != "stdout" && r != "stderr" {
				l = append(l, r)
			}
		}
		return nil
	})
	return strings.Join(l, " ")
}

// ---- identity

func runIdentity(x *X, gc gcfg) {
	w := newGW(x, gc)
	w.g.Enable()
	w.settle()
	w.selectNow()
	w.take()
	id := func(md, sr string) *wire.Item { return wire.L(wire.A(md), wire.A(sr)) }
	md, sr := gc.mdln, gc.softrev
	if md == "" {
		md = "secs4go"
	}
	if sr == "" {
		sr = "0.1.0"
	}
	f2, f14 := wire.L(id(md, sr)), wire.L(wire.B(0), id(md, sr))
	if gc.host {
		f2, f14 = wire.L(wire.L()), wire.L(wire.B(0), wire.L())
	}
	want := map[int]*wire.Item{1: f2, 13: f14}
	for _, f := range []int{1, 13, 13, 1} {
		for _, body := range []*wire.Item{nil, wire.L(), id("H", "1"), wire.A("x")} {
			if f == 1 && body != nil && body.F != 0 {
				continue
			}
			sys := w.data(1, f, true, body)
			w.settle()
			var got *wire.Frame
			for _, o := range w.take() {
				if o.SType == 0 && o.Sys == sys {
					if got != nil {
						x.Failf("twice", "S1F%d answered twice", f)
					}
					got = o
				} else if o.SType == 0 && o.S() == 1 && o.F() == 1 && o.W() {
					w.reply(o, wire.L())
					w.settle()
				}
			}
			if got == nil || got.S() != 1 || got.F() != f+1 || got.W() || got.Item == nil || got.Item.String() != want[f].String() {
				x.Failf("identity", "S1F%d answered %v, want %v", f, got, want[f])
			}
		}
	}
	x.Eval("identity", true)
	x.Outcome("%v", f14)
}

// ---- control state and mode

func runInitial(x *X, gc gcfg) {
	w := newGW(x, gc)
	want := gc.ctl
	switch gc.ctl {
	case gem.ControlStateEquipmentOffline, gem.ControlStateHostOffline, gem.ControlStateOnline, gem.ControlStateAttemptOnline:
	default:
		want = gem.ControlStateAttemptOnline
	}
	sub := gem.ControlStateOnlineRemote
	if gc.mode == gem.OnlineModeLocal {
		sub = gem.ControlStateOnlineLocal
	}
	if want == gem.ControlStateOnline {
		want = sub
	}
	// a state that needs communication may be off line until there is some
	if s := w.g.ControlState(); s != want && (want != gem.ControlStateAttemptOnline || s != gem.ControlStateEquipmentOffline) && (want != sub || s != gem.ControlStateEquipmentOffline) {
		x.Failf("initial", "created in %s, want %s", s, want)
	}
	if s := w.g.State(); s == gem.CommunicationStateCommunicating {
		x.Failf("initial", "communicating before Enable")
	}
	w.toComm()
	// go on line by whatever way leads there
	try := func(what string, f func() error) {
		done := call(what, func() { f() })
		for i := 0; i < 20 && !*done; i++ {
			w.settle()
			for _, o := range w.take() {
				if o.SType == 0 && o.S() == 1 && o.F() == 1 {
					w.reply(o, wire.L())
				}
			}
			w.settle()
		}
		if !*done {
			x.Failf("stuck", "%s does not return", what)
		}
	}
	if s := w.g.ControlState(); s == gem.ControlStateEquipmentOffline {
		try("SwitchControlOnline", w.g.SwitchControlOnline)
	} else if s == gem.ControlStateHostOffline {
		w.ask(1, 17, wire.L())
	}
	w.settle()
	w.take()
	if s := w.g.ControlState(); s != sub {
		x.Failf("mode", "on line in %s, want %s", s, sub)
	}
	x.Eval("initial", true)
	x.Outcome("%s %s", want, sub)
}

// ---- establishment delay

func runDelay(x *X, gc gcfg) {
	gc.t3 = 3
	w := newGW(x, gc)
	w.g.Enable()
	w.settle()
	w.selectNow()
	w.take()
	d := gc.estab
	if d == 0 {
		d = 10 * sec
	}
	var at []time.Duration
	fine := 10 * time.Millisecond
	if d >= 30*sec {
		fine = 100 * time.Millisecond
	}
	for end := vrt.Now() + 3*(d+4*sec); vrt.Now() < end && len(at) < 3; {
		vrt.Sleep(fine)
		w.settle()
		for _, f := range w.take() {
			if f.SType == 0 && f.S() == 1 && f.F() == 13 {
				at = append(at, vrt.Now())
			}
		}
	}
	if len(at) < 3 {
		x.Failf("delay", "%d attempts, want 3", len(at))
	}
	for i := 1; i < len(at); i++ {
		if got := at[i] - at[i-1] - 3*sec; got < d-fine || got > d+ctick+2*fine {
			x.Failf("delay", "%v between the end of an attempt and the next, want %v", got, d)
		}
	}
	x.Eval("delay", true)
	x.Outcome("%v", d)
}

// ---- trace log

type tcfg struct {
	on     bool
	mode   hsms.LoggingMode
	ctrl   bool
	excl   []string
	file   string
	writer bool
}

func (t tcfg) String() string {
	return fmt.Sprintf("on=%v mode=%d ctrl=%v excl=%q file=%q writer=%v", t.on, t.mode, t.ctrl, t.excl, t.file, t.writer)
}

// traffic is the exchange that is traced.
func (w *gw) traffic() {
	w.toComm()
	w.ask(1, 1, nil)
	w.data(1, 1, false, wire.A("ping"))
	w.send(wire.NewCtrl(wire.LinktestReq, 0xffff, 0, 0, w.nextSys()))
	w.settle()
	w.take()
	call("send", func() { w.p.SendDataMessage(ast.NewDataMessage("", 2, 25, 1, "H<->E", node(wire.B(1, 2, 3)))) })
	w.settle()
	for _, f := range w.take() {
		w.reply(f, f.Item)
	}
	w.settle()
	w.wait(12 * sec) // a link test
	w.take()
}

var stamp = regexp.MustCompile(`(?m)^\d{4}[/-]\d\d[/-]\d\d[ T]\d\d:\d\d:\d\d(\.\d+)?\S* *`)

func runTrace(x *X, host bool, t tcfg) {
	gc := gcfgDefault
	gc.host, gc.active = host, host
	var buf bytes.Buffer
	ref := ""
	for _, real := range []bool{false, true} {
		s := newStd()
		func() {
			defer s.close()
			g := gc
			if !real {
				g.port = 5001
			}
			buf.Reset()
			vrt.ResetRand()
			if real {
				g.with = func(o *gem.Options) {
					o.Logging = gem.LoggingOptions{Enabled: t.on, Mode: t.mode, IncludeControlMessages: t.ctrl, ExcludeControlMessageTypes: t.excl}
					if t.writer {
						o.Logging.Writer = &buf
					}
					if t.file != "" {
						o.Logging.LogFile = s.path(t.file)
					}
				}
			}
			w := newGW(x, g)
			if !real {
				// the reference: the same settings given to the protocol
				ex := map[string]struct{}{}
				for _, e := range t.excl {
					if e = strings.ToLower(strings.TrimSpace(e)); e != "" {
						ex[e] = struct{}{}
					}
				}
				mode := t.mode
				if mode == hsms.LoggingModeUnset {
					mode = hsms.LoggingModeSML
				}
				w.p.ConfigureLogging(hsms.LoggingConfig{Enabled: t.on, Mode: mode, IncludeControlMessages: t.ctrl, ExcludedControlMessageTypes: ex, Writer: &buf})
			}
			w.traffic()
			call("disable", func() { w.g.Disable() })
			w.wait(10 * sec)
			norm := func(v string) string { return stamp.ReplaceAllString(v, "") }
			if !real {
				ref = norm(buf.String())
				if t.on != (ref != "") {
					x.Failf("trace", "%v: %d bytes traced", t, len(ref))
				}
				if s.read("stderr") != "" || s.read("stdout") != "" {
					x.Failf("streams", "%v: stderr %q stdout %q", t, s.read("stderr"), s.read("stdout"))
				}
				return
			}
			want := map[string]string{"file": "", "writer": "", "stderr": "", "stdout": ""}
			if t.on {
				switch {
				case t.file != "":
					want["file"] = ref
				case t.writer:
					want["writer"] = ref
				default:
					want["stderr"] = ref
				}
			}
			got := map[string]string{"writer": norm(buf.String()), "stderr": norm(s.read("stderr")), "stdout": norm(s.read("stdout")), "file": ""}
			if t.file != "" {
				got["file"] = norm(s.read(t.file))
			}
			for _, k := range []string{"file", "writer", "stderr", "stdout"} {
				if got[k] != want[k] {
					i := 0
					for i < len(got[k]) && i < len(want[k]) && got[k][i] == want[k][i] {
						i++
					}
					x.Failf("trace", "%v: %s holds %d bytes, want %d; they differ at %d: %q, want %q", t, k, len(got[k]), len(want[k]), i, short(got[k][i:]), short(want[k][i:]))
				}
			}
			if f := s.files(); f != "" && (!t.on || f != t.file) {
				x.Failf("trace", "%v: files %s", t, f)
			}
		}()
	}
	x.Eval("trace", true)
	x.Outcome("%d", len(ref))
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// ---- application log

type rec struct {
	level, msg string
	kv         []interface{}
}

// tee is the application's logger, which also remembers what it was given.
type tee struct {
	l    gem.Logger
	recs []rec
}

func (t *tee) add(level, msg string, kv []interface{}) {
	t.recs = append(t.recs, rec{level, msg, append([]interface{}(nil), kv...)})
}
func (t *tee) Debug(m string, kv ...interface{}) { t.add("debug", m, kv); t.l.Debug(m, kv...) }
func (t *tee) Info(m string, kv ...interface{})  { t.add("info", m, kv); t.l.Info(m, kv...) }
func (t *tee) Warn(m string, kv ...interface{})  { t.add("warn", m, kv); t.l.Warn(m, kv...) }
func (t *tee) Error(m string, kv ...interface{}) { t.add("error", m, kv); t.l.Error(m, kv...) }

// same says whether the JSON line is the record.
func (r rec) same(line string) string {
	var m map[string]interface{}
	if err := json.Unmarshal([]byte(line), &m); err != nil {
		return "not JSON: " + err.Error()
	}
	if m["level"] != r.level || m["msg"] != r.msg {
		return fmt.Sprintf("level %v text %v", m["level"], m["msg"])
	}
	if ts, _ := m["ts"].(string); ts == "" {
		return "no time"
	}
	for i := 0; i+1 < len(r.kv); i += 2 {
		k := fmt.Sprint(r.kv[i])
		v, ok := m[k]
		if !ok {
			return "no " + k
		}
		want := ""
		switch t := r.kv[i+1].(type) {
		case string:
			want = t
		case error:
			want = t.Error()
		case int, uint16, uint32, int64, uint64, bool:
			want = fmt.Sprint(t)
			if f, ok := v.(float64); ok {
				v = fmt.Sprintf("%.0f", f)
			}
		default:
			continue
		}
		if fmt.Sprint(v) != want {
			return fmt.Sprintf("%s is %v, want %v", k, v, want)
		}
	}
	return ""
}

// lines checks that the text is the records that are at or above info, or all.
func lines(text string, recs []rec, debug bool) string {
	var ls []string
	for _, l := range strings.Split(text, "\n") {
		if l != "" {
			ls = append(ls, l)
		}
	}
	for _, r := range recs {
		if r.level == "debug" && !debug {
			continue
		}
		if len(ls) == 0 {
			return fmt.Sprintf("no line for %v", r)
		}
		if d := r.same(ls[0]); d != "" {
			return fmt.Sprintf("line %q for %v: %s", ls[0], r, d)
		}
		ls = ls[1:]
	}
	if len(ls) > 0 {
		return fmt.Sprintf("extra %q", ls)
	}
	return ""
}

func runApp(x *X, host bool, kind string, file, debug, console bool) {
	s := newStd()
	defer s.close()
	gc := gcfgDefault
	gc.host, gc.active = host, host
	zo := gem.ZapLoggerOptions{DebugLevel: debug, Console: console, MaxSize: 10, MaxBackups: 2}
	if file {
		zo.LogFile = s.path("logs/app.log")
	}
	var lg *tee
	var buf bytes.Buffer
	gc.with = func(o *gem.Options) {
		switch kind {
		case "none":
		case "nop":
			o.Logger = gem.NopLogger()
		case "std":
			lg = &tee{l: gem.NewStdLogger(&buf, "gem: ")}
			o.Logger = lg
		case "stderr":
			lg = &tee{l: gem.NewStdLogger(nil, "gem: ")}
			o.Logger = lg
		case "zap":
			lg = &tee{l: gem.NewZapLogger(zo)}
			o.Logger = lg
		}
	}
	w := newGW(x, gc)
	w.traffic()
	if lg != nil {
		if len(lg.recs) == 0 {
			x.Failf("events", "%s: the protocol told the logger nothing", kind)
		}
		for i, f := range []func(string, ...interface{}){lg.Debug, lg.Info, lg.Warn, lg.Error} {
			f("plain")
			f("with \"quotes\"\nand é", "n", i, "s", "a=b", "e", fmt.Errorf("e%d", i), "b", i%2 == 0)
		}
	}
	// a peer that misbehaves, to have warnings and errors
	w.send(wire.NewCtrl(wire.SelectRsp, uint16(gc.sess), 0, 0, w.nextSys()))
	w.settle()
	w.c.Shut(true)
	w.settle()
	call("disable", func() { w.g.Disable() })
	w.wait(10 * sec)
	so, se, fi := s.read("stdout"), s.read("stderr"), s.read("logs/app.log")
	want := map[string]bool{} // where the entries go
	switch kind {
	case "stderr":
		want["stderr"] = true
	case "std":
		want["writer"] = true
	case "zap":
		if file {
			want["file"] = true
		}
		if !file || console {
			want["stdout"] = true
		}
	}
	for k, v := range map[string]string{"stdout": so, "stderr": se, "file": fi, "writer": buf.String()} {
		if !want[k] {
			if v != "" {
				x.Failf("streams", "%s file=%v console=%v: %s holds %q", kind, file, console, k, short(v))
			}
			continue
		}
		d := ""
		if kind == "zap" {
			d = lines(v, lg.recs, debug)
		} else {
			d = stdLines(v, lg.recs)
		}
		if d != "" {
			x.Failf("events", "%s file=%v console=%v debug=%v: %s: %s", kind, file, console, debug, k, d)
		}
	}
	if f := s.files(); f != "" && !want["file"] {
		x.Failf("streams", "files %s", f)
	}
	n := 0
	if lg != nil {
		n = len(lg.recs)
	}
	x.Eval("app", true)
	x.Outcome("%d", n)
}

// ---- rotation

type rotcfg struct {
	app, compress  bool
	backups, age   int
	size           int // in MB, 0: 100
	want, wantGzip int // backups at the end
}

func (r rotcfg) String() string {
	return fmt.Sprintf("app=%v size=%d backups=%d age=%d compress=%v", r.app, r.size, r.backups, r.age, r.compress)
}

// runRotate: a log file that outgrows its size is put away, and no more
// backups are kept than asked for. Three times the size is written.
func runRotate(x *X, r rotcfg) {
	s := newStd()
	defer s.close()
	old := s.path("t-2001-01-01T00-00-00.000.log")
	if r.age > 0 {
		os.WriteFile(old, []byte("old\n"), 0o600)
	}
	gc := gcfgDefault
	var lg gem.Logger
	gc.with = func(o *gem.Options) {
		if r.app {
			lg = gem.NewZapLogger(gem.ZapLoggerOptions{LogFile: s.path("t.log"), MaxSize: r.size, MaxBackups: r.backups, MaxAge: r.age, Compress: r.compress})
			return
		}
		o.Logging = gem.LoggingOptions{Enabled: true, LogFile: s.path("t.log"), MaxSize: r.size, MaxBackups: r.backups, MaxAge: r.age, Compress: r.compress}
	}
	w := newGW(x, gc)
	w.toComm()
	text := strings.Repeat("log ", 50000)
	for i := 0; i < 20; i++ {
		if r.app {
			lg.Info("event", "text", text, "i", i)
			vrt.Beat()
		} else {
			w.data(6, 12, false, wire.A(text))
			w.settle()
			w.take()
		}
		time.Sleep(2 * time.Millisecond) // of real time: backups are named by the millisecond
	}
	// what is put away is tidied up by a thread of the log's own
	ok, state := false, ""
	for n := 0; n < 200 && !ok; n++ {
		plain, gz, hasOld := 0, 0, false
		state = s.files()
		for _, f := range strings.Fields(state) {
			switch {
			case f == "t.log":
			case strings.Contains(f, "2001-01-01"):
				hasOld = true
			case strings.HasSuffix(f, ".log"):
				plain++
			case strings.HasSuffix(f, ".log.gz"):
				gz++
			}
		}
		big := int64(r.size) << 20
		if r.size == 0 {
			big = 100 << 20
		}
		if i, err := os.Stat(s.path("t.log")); err != nil || i.Size() > big {
			x.Failf("rotate", "%v: the log file is %v %v", r, i, err)
		}
		ok = !hasOld && plain == r.want && gz == r.wantGzip
		if !ok {
			time.Sleep(50 * time.Millisecond)
			vrt.Beat()
		}
	}
	if !ok {
		x.Failf("rotate", "%v: files %s, want %d and %d compressed", r, state, r.want, r.wantGzip)
	}
	x.Eval("rotate", true)
	x.Outcome("%d %d", r.want, r.wantGzip)
}

// stdLines checks the standard logger's text: one entry per record, in order.
func stdLines(text string, recs []rec) string {
	rest := text
	for _, r := range recs {
		head := "[" + strings.ToUpper(r.level) + "] " + r.msg
		i := strings.Index(rest, head)
		if i < 0 || strings.Contains(rest[:i], "[") || !strings.HasPrefix(rest, "gem: ") {
			return fmt.Sprintf("no entry for %v in %q", r, short(rest))
		}
		rest = rest[i+len(head):]
		for j := 0; j+1 < len(r.kv); j += 2 {
			kv := fmt.Sprintf("%v=%v", r.kv[j], r.kv[j+1])
			if i := strings.Index(rest, kv); i < 0 {
				return fmt.Sprintf("%v does not show %s", r, kv)
			} else {
				rest = rest[i+len(kv):]
			}
		}
		nl := strings.Index(rest, "\n")
		if nl < 0 {
			return fmt.Sprintf("%v does not end its line", r)
		}
		rest = rest[nl+1:]
	}
	if rest != "" {
		return fmt.Sprintf("extra %q", short(rest))
	}
	return ""
}

func c42(c *C) {
	c.Case("no protocol", Opt{}, func(x *X) {
		for _, dt := range []gem.DeviceType{gem.DeviceEquipment, gem.DeviceHost} {
			x.Try(fmt.Sprint(dt), func() {
				h, err := gem.NewGemHandler(gem.Options{DeviceType: dt, MDLN: "m", SOFTREV: "r"})
				if err == nil || h != nil {
					x.Bad("no-protocol", "accepted without a protocol: %v %v", h, err)
				}
				x.Eval("no protocol", true)
			})
		}
	})
	long := strings.Repeat("M", 20)
	for _, host := range []bool{false, true} {
		for _, active := range []bool{false, true} {
			gc := gcfgDefault
			gc.host, gc.active = host, active
			for _, md := range []string{"", "A", "secs4go", "host", long, " x ", longText(7, "7"), longText(21, "1"), longText(40, "4"), longText(256, "6")} {
				for _, sr := range []string{"", "1", "0.1.0", long, longText(7, "8"), longText(21, "2"), longText(81, "5"), longText(300, "9")} {
					gc, md, sr := gc, md, sr
					gc.with = func(o *gem.Options) { o.MDLN, o.SOFTREV = md, sr }
					gc.mdln, gc.softrev = md, sr
					c.Case(fmt.Sprintf("identity %s %q %q", gc, md, sr), Opt{}, func(x *X) { runIdentity(x, gc) })
				}
			}
			for _, d := range []time.Duration{0, 100 * time.Millisecond, 500 * time.Millisecond, sec, 1500 * time.Millisecond, 3 * sec, 9 * sec, 10 * sec, 11 * sec, 30 * sec, 60 * sec, 61 * sec, 240 * sec, 600 * sec} {
				if d > 11*sec && !c.Thorough && active != host {
					continue
				}
				gc := gc
				gc.estab = d
				c.Case(fmt.Sprintf("delay %s %v", gc, d), Opt{MaxSteps: 20000000}, func(x *X) { runDelay(x, gc) })
			}
		}
		for _, on := range []bool{false, true} {
			for _, mode := range []hsms.LoggingMode{hsms.LoggingModeUnset, hsms.LoggingModeSML, hsms.LoggingModeBinary, hsms.LoggingModeBoth} {
				for _, ctrl := range []bool{false, true} {
					for _, excl := range [][]string{nil, {"linktest.req"}, {" LINKTEST.req ", "", "Select.Rsp", "select.req\n"}, {"", " "}, {"nothing"}} {
						for _, file := range []string{"", "trace.log", "sub/dir/t.log"} {
							for _, wr := range []bool{false, true} {
								t := tcfg{on, mode, ctrl, excl, file, wr}
								host := host
								c.Case(fmt.Sprintf("trace host=%v %v", host, t), Opt{}, func(x *X) { runTrace(x, host, t) })
							}
						}
					}
				}
			}
		}
		for _, kind := range []string{"none", "nop", "std", "stderr", "zap"} {
			for m := 0; m < 8; m++ {
				if kind != "zap" && m > 0 {
					break
				}
				host, kind, m := host, kind, m
				c.Case(fmt.Sprintf("app host=%v %s file=%v debug=%v console=%v", host, kind, m&1 > 0, m&2 > 0, m&4 > 0), Opt{}, func(x *X) { runApp(x, host, kind, m&1 > 0, m&2 > 0, m&4 > 0) })
			}
		}
	}
	for _, app := range []bool{false, true} {
		for _, gz := range []bool{false, true} {
			for _, r := range []rotcfg{{size: 1, want: 3}, {size: 1, backups: 1, want: 1}, {size: 1, backups: 2, want: 2}, {size: 2, want: 1}, {size: 1, age: 1, want: 3}, {size: 0, want: 0}} {
				r.app, r.compress = app, gz
				if gz {
					r.want, r.wantGzip = 0, r.want
				}
				r := r
				c.Case(fmt.Sprintf("rotate %v", r), Opt{}, func(x *X) { runRotate(x, r) })
			}
		}
	}
	gc := gcfgDefault
	for _, ctl := range []gem.ControlState{"", gem.ControlStateInit, gem.ControlStateControl, gem.ControlStateOffline, gem.ControlStateEquipmentOffline, gem.ControlStateAttemptOnline, gem.ControlStateHostOffline, gem.ControlStateOnline, gem.ControlStateOnlineLocal, gem.ControlStateOnlineRemote, "online", "BOGUS"} {
		for _, mode := range []gem.OnlineControlMode{"", gem.OnlineModeLocal, gem.OnlineModeRemote, "local", "BOGUS"} {
			for _, active := range []bool{false, true} {
				gc := gc
				gc.ctl, gc.mode, gc.active = ctl, mode, active
				c.Case(fmt.Sprintf("initial %s %q %q", gc, ctl, mode), Opt{}, func(x *X) { runInitial(x, gc) })
			}
		}
	}
}
