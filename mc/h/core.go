// Package h is the exploration harness: it enumerates cases, explores the
// schedules of each, and reports violations with replayable artefacts.
package h

import (
	"fmt"
	"hash/fnv"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	"verif.local/mc/vrt"
)

// Check decides one property.
type Check struct {
	ID     string
	Level  string // model_checking or exploration
	Rule   string
	Assume []string
	Budget [2]int // seconds, quick and thorough (internal deadline)
	Run    func(c *C)
}

// Checks by property id.
var Checks = map[string]*Check{}

func register(c *Check) { Checks[c.ID] = c }

// Opt says how the schedules of a case are explored.
type Opt struct {
	Dev      int  // deviation bound
	Split    bool // distribute the schedules of this case over the workers
	Fine     bool
	Coarse   bool // no statement-level variant
	FineDev  int  // its deviation bound, 1 unless given
	Sched    bool // explore scheduling decisions from the start
	MaxSteps int
	Cap      int // executions cap (0: none); hitting it clears exhaustive
}

// Violation is one failing execution.
type Violation struct {
	Property string    `json:"property"`
	Case     string    `json:"case"`
	Key      string    `json:"key"`
	Kind     string    `json:"kind"`
	Msg      string    `json:"msg"`
	Prefix   []vrt.Dec `json:"prefix,omitempty"`
	Cost     int       `json:"deviations"`
	Log      []string  `json:"log,omitempty"`
	Stack    string    `json:"stack,omitempty"`
	Tier     string    `json:"tier"`
}

// Stats is what a worker measured.
type Stats struct {
	Cases, Execs, Evals, Steps, Decisions int64
	ByDev                                 [8]int64
	MaxThreads                            int
	Unstable                              int64
	Truncated                             bool
	Capped                                int64
	States, Trans, Distinct, Outcomes     []uint64
	CtlStates, CtlTrans                   []uint64
	Samples                               []string
	Violations                            []Violation
	Known                                 map[string]int64
	KnownWhat                             map[string]string
	Counters                              map[string]int64
	DoneNotes                             []string
}

// Known is an entry of the known-findings file.
type Known struct {
	Property string `json:"property"`
	Match    string `json:"match"` // regular expression on "<case> <key>"
	What     string `json:"what"`
	re       *regexp.Regexp
}

// C is the context of a check run in one worker.
type C struct {
	Check     *Check
	Tier      string
	Thorough  bool
	Seed      int
	shard, n  int
	idx       int
	deadline  time.Time
	S         Stats
	states    map[uint64]struct{}
	trans     map[uint64]struct{}
	distinct  map[uint64]struct{}
	outcomes  map[uint64]struct{}
	cstates   map[uint64]struct{}
	ctrans    map[uint64]struct{}
	known     []Known
	stop      bool
	only      string // replay: this case only
	onlyPfx   []vrt.Dec
	Replayed  *vrt.Result
	trace     *os.File
	seen      map[string]int
	replayOut func(string)
	lastBeat  time.Time
	beatFile  string
}

func hash(s string) uint64 {
	f := fnv.New64a()
	f.Write([]byte(s))
	return f.Sum64()
}

const setCap = 3000000

func add(m map[uint64]struct{}, v uint64) bool {
	if _, ok := m[v]; ok {
		return false
	}
	if len(m) >= setCap {
		return true
	}
	m[v] = struct{}{}
	return true
}

// Q picks the quick or the thorough bound.
func (c *C) Q(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Stopped reports whether enumeration should end (deadline or violations).
func (c *C) Stopped() bool {
	if c.stop {
		return true
	}
	if time.Now().After(c.deadline) {
		c.stop = true
		c.S.Truncated = true
	}
	return c.stop
}

// Count adds to a named counter of the evidence.
func (c *C) Count(name string, n int64) {
	if c.S.Counters == nil {
		c.S.Counters = map[string]int64{}
	}
	c.S.Counters[name] += n
}

// X is one execution.
type X struct {
	C     *C
	Name  string
	cur   string
	hist  []string
	key   string
	count bool // statistics wanted
	evals int64
	prev  uint64
	outc  []string
}

// Failf ends the execution with a violation; key identifies what failed.
func (x *X) Failf(key, format string, args ...interface{}) {
	x.key = key
	vrt.Fail(format, args...)
}

// Logf adds to the execution's log.
func (x *X) Logf(format string, args ...interface{}) { vrt.Logf(format, args...) }

// State records an observed state and the transition into it.
func (x *X) State(action, s string) {
	h := hash(s)
	if x.count {
		add(x.C.states, h)
		add(x.C.trans, x.prev*31^hash(action)*17^h)
	}
	x.prev = h
}

// Outcome adds to what this execution observed.
func (x *X) Outcome(format string, args ...interface{}) {
	x.outc = append(x.outc, fmt.Sprintf(format, args...))
}

// Eval records one evaluated input; non-trivial ones count by hash.
func (x *X) Eval(id string, nontrivial bool) {
	if x.count {
		x.C.S.Evals++
		if nontrivial {
			add(x.C.distinct, hash(id))
		}
		if len(x.C.S.Samples) < 3 && nontrivial && (x.C.S.Evals == 1 || x.C.S.Evals%997 == 5) {
			x.C.S.Samples = append(x.C.S.Samples, trunc(id, 300))
		}
	}
	vrt.Beat()
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Try evaluates one input of a batch; a panic or Bad is a violation of that
// input only.
func (x *X) Try(id string, f func()) {
	x.cur = id
	vrt.Beat()
	func() {
		defer func() {
			if p := recover(); p != nil {
				if b, ok := p.(bad); ok {
					x.C.violate(x, b.key, "check", b.msg, nil, 0, nil, "")
					return
				}
				x.C.violate(x, "panic", "panic", fmt.Sprint(p), nil, 0, nil, stack())
			}
		}()
		f()
	}()
	x.cur = ""
}

type bad struct{ key, msg string }

// Bad ends the evaluation of one input of a batch with a violation.
func (x *X) Bad(key, format string, args ...interface{}) {
	panic(bad{key, fmt.Sprintf(format, args...)})
}

func (c *C) violate(x *X, key, kind, msg string, pfx []vrt.Dec, cost int, log []string, stk string) {
	name := x.Name
	if x.cur != "" {
		name += " :: " + x.cur
	}
	for i := range c.known {
		k := &c.known[i]
		if k.re.MatchString(name + " " + key) {
			if c.S.Known == nil {
				c.S.Known = map[string]int64{}
				c.S.KnownWhat = map[string]string{}
			}
			c.S.Known[k.Match]++
			c.S.KnownWhat[k.Match] = k.What
			return
		}
	}
	if !x.count && c.only == "" {
		return
	}
	id := key + "|" + kind
	c.seen[id]++
	if c.seen[id] > 3 {
		if c.seen[id] > 40 {
			c.stop = true
		}
		return
	}
	c.S.Violations = append(c.S.Violations, Violation{c.Check.ID, name, key, kind, trunc(msg, 1500), pfx, cost, tail(log, 200), trunc(stk, 6000), c.Tier})
	if len(c.S.Violations) >= 12 {
		c.stop = true
	}
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// Case explores one closed system. Bodies must be deterministic functions of
// the decisions taken. What is explored concurrently is also explored with
// one deviation at any statement, which shows unprotected shared memory.
func (c *C) Case(name string, o Opt, body func(x *X)) {
	c.run(name, o, body)
	if o.Split && o.Dev > 0 && !o.Fine && !o.Coarse {
		o.Fine, o.Dev = true, max(o.FineDev, 1)
		c.run(name+" fine", o, body)
	}
}

func (c *C) run(name string, o Opt, body func(x *X)) {
	c.idx++
	if c.only != "" {
		if name != c.only {
			return
		}
		c.replay(name, o, body)
		return
	}
	if c.Stopped() {
		return
	}
	mine := c.idx%c.n == c.shard
	if !o.Split && !mine {
		return
	}
	if mine {
		c.S.Cases++
	}
	if c.trace != nil {
		c.trace.Truncate(0)
		c.trace.WriteAt([]byte(name), 0)
	}
	e := &explorer{c: c, name: name, o: o, body: body, split: o.Split && c.n > 1, root: mine}
	for b := 0; b <= o.Dev && !c.Stopped() && !e.capped; b++ {
		e.bound = b
		e.more = false
		e.nchild = 0
		e.explore(nil, 0, 0)
		if !e.more {
			break
		}
	}
}

type explorer struct {
	c      *C
	name   string
	o      Opt
	body   func(x *X)
	bound  int
	more   bool // some branch was cut by the bound
	split  bool
	root   bool
	nchild int
	execs  int
	capped bool
}

func (e *explorer) run(pfx []vrt.Dec, count bool) (*vrt.Result, *X) {
	x := &X{C: e.c, Name: e.name, count: count}
	r := vrt.Run(vrt.Config{Prefix: pfx, MaxSteps: e.o.MaxSteps, Fine: e.o.Fine, NoSched: !e.o.Sched, Sigs: count && e.o.Dev > 0}, func() { e.body(x) })
	return r, x
}

func (e *explorer) explore(pfx []vrt.Dec, cost, depth int) {
	c := e.c
	if e.capped || c.Stopped() {
		return
	}
	count := cost == e.bound
	if e.split && depth == 0 && !e.root {
		count = false
	}
	r, x := e.run(pfx, count)
	if r.Diverged {
		c.S.Unstable++
		if len(c.S.DoneNotes) < 5 {
			c.S.DoneNotes = append(c.S.DoneNotes, "divergence in "+e.name+": "+r.Fail.Msg)
		}
		return
	}
	if count {
		c.S.Execs++
		if cost < len(c.S.ByDev) {
			c.S.ByDev[cost]++
		}
		c.S.Steps += int64(r.Steps)
		c.S.Decisions += int64(len(r.Trace))
		if r.Threads > c.S.MaxThreads {
			c.S.MaxThreads = r.Threads
		}
		if e.o.Dev > 0 {
			prev := uint64(1)
			for i, s := range r.Sigs {
				add(c.cstates, s)
				add(c.ctrans, prev*1099511628211^s+uint64(i%2))
				prev = s
			}
		}
		o := e.name + "\x00" + strings.Join(x.outc, ";")
		if add(c.outcomes, hash(o)) && len(c.S.Samples) < 4 && (c.S.Execs < 3 || c.S.Execs%101 == 7) {
			c.S.Samples = append(c.S.Samples, trunc(e.name+" -> "+strings.Join(x.outc, "; "), 400))
		}
		e.execs++
		if e.o.Cap > 0 && e.execs >= e.o.Cap {
			e.capped = true
			c.S.Capped++
		}
	}
	if r.Fail != nil && count {
		e.fail(r, x, cost)
		return
	}
	if r.Fail != nil {
		return
	}
	// children
	for i := len(pfx); i < len(r.Trace); i++ {
		d := r.Trace[i]
		nc := cost
		if !d.Free {
			nc++
			if nc > e.bound {
				e.more = true
				continue
			}
		}
		for alt := 1; alt < d.N; alt++ {
			if e.split && depth == 0 {
				e.nchild++
				if e.nchild%c.n != c.shard {
					if !d.Free {
						e.more = true
					}
					continue
				}
			}
			p := make([]vrt.Dec, i+1)
			copy(p, r.Trace[:i+1])
			p[i].C = alt
			e.explore(p, nc, depth+1)
			if e.capped || c.stop {
				return
			}
		}
	}
}

var numRe = regexp.MustCompile(`0x[0-9a-f]+|\(thread [^)]*\)|\d+(\.\d+)?(ns|µs|ms|s|m|h)`)

func failKey(x *X, f *vrt.Failure) string {
	if x.key != "" && f.Kind == "check" {
		return x.key
	}
	return f.Kind
}

func (e *explorer) fail(r *vrt.Result, x *X, cost int) {
	c := e.c
	// the same schedule must fail the same way every time
	pfx := append([]vrt.Dec(nil), r.Trace...)
	key := failKey(x, r.Fail)
	for i := 0; i < 2; i++ {
		r2, x2 := e.run(pfx, false)
		if r2.Fail == nil || r2.Fail.Kind != r.Fail.Kind || failKey(x2, r2.Fail) != key {
			c.S.Unstable++
			if len(c.S.DoneNotes) < 5 {
				c.S.DoneNotes = append(c.S.DoneNotes, "unstable failure in "+e.name+": "+trunc(r.Fail.Msg, 200))
			}
			return
		}
	}
	c.violate(x, key, r.Fail.Kind, r.Fail.Msg, pfx, cost, r.Log, r.Fail.Stack)
}

func (c *C) replay(name string, o Opt, body func(x *X)) {
	e := &explorer{c: c, name: name, o: o, body: body}
	r, x := e.run(c.onlyPfx, true)
	c.Replayed = r
	for _, l := range r.Log {
		c.replayOut(l)
	}
	if r.Fail != nil {
		c.replayOut(fmt.Sprintf("FAIL %s [%s]: %s", r.Fail.Kind, failKey(x, r.Fail), r.Fail.Msg))
		if r.Fail.Stack != "" {
			c.replayOut(r.Fail.Stack)
		}
	} else {
		c.replayOut("outcome: " + strings.Join(x.outc, "; "))
	}
	c.stop = true
}

func sorted(m map[uint64]struct{}) []uint64 {
	out := make([]uint64, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
