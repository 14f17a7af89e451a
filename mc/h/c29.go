package h

import (
	"fmt"
	"time"

	"github.com/younglifestyle/secs4go/common"
	"github.com/younglifestyle/secs4go/utils"
	"verif.local/mc/vrt"
)

func init() {
	register(&Check{ID: "C29", Level: "model_checking", Budget: [2]int{180, 800},
		Rule: "every set of 1-3 getters and putters of the enumerated shapes; every schedule up to the deviation bound with a scheduling point at every statement; distinct control states counted",
		Run:  c29})
	register(&Check{ID: "C30", Level: "model_checking", Budget: [2]int{180, 800},
		Rule: "all sequences of add/remove/fire/len over three callbacks (some re-entrant) against a list; two-thread harnesses under every schedule up to the deviation bound at statement level",
		Run:  c30})
}

// a queue operation as observed
type qop struct {
	put      bool
	item     int
	ok       bool
	inv, ret int // logical time
	t0, t1   time.Duration
	timeout  int
	done     bool
}

type qscript struct {
	put   bool
	n     int // puts: number of items; gets: number of gets
	to    int // timeout of the gets
	delay int // milliseconds before the first operation
	gap   int // milliseconds between operations
}

func (s qscript) String() string {
	if s.put {
		return fmt.Sprintf("put*%d@%d+%d", s.n, s.delay, s.gap)
	}
	return fmt.Sprintf("get*%d(%ds)@%d+%d", s.n, s.to, s.delay, s.gap)
}

func runQueue(x *X, ths []qscript) {
	q := utils.NewDeque()
	var ops []*qop
	clock := 0
	tick := func() int { clock++; return clock }
	var ts []*vrt.T
	for i, s := range ths {
		i, s := i, s
		ts = append(ts, vrt.GoApp(s.String(), func() {
			vrt.Sleep(time.Duration(s.delay) * time.Millisecond)
			for k := 0; k < s.n; k++ {
				if k > 0 {
					vrt.Sleep(time.Duration(s.gap) * time.Millisecond)
				}
				o := &qop{put: s.put, inv: tick(), t0: vrt.Now(), timeout: s.to}
				ops = append(ops, o)
				if s.put {
					o.item = i*10 + k + 1
					q.Put(o.item)
				} else {
					v, err := q.Get(s.to)
					o.ok = err == nil
					if o.ok {
						n, isInt := v.(int)
						if !isInt {
							x.Failf("value", "Get returned %v without error", v)
						}
						o.item = n
					}
				}
				o.t1 = vrt.Now()
				o.ret = tick()
				o.done = true
				x.Logf("%v -> item=%d ok=%v", s, o.item, o.ok)
			}
		}))
	}
	vrt.Sleep(60 * time.Second)
	_ = ts
	for _, o := range ops {
		if !o.done {
			x.Failf("stuck", "an operation did not finish")
		}
	}
	// each item once
	putAt := map[int]*qop{}
	for _, o := range ops {
		if o.put {
			putAt[o.item] = o
		}
	}
	got := map[int]*qop{}
	for _, o := range ops {
		if o.put {
			continue
		}
		if o.ok {
			if got[o.item] != nil || putAt[o.item] == nil {
				x.Failf("duplicate", "item %d delivered twice or never put", o.item)
			}
			got[o.item] = o
			p := putAt[o.item]
			want := o.t0
			if p.t0 > want {
				want = p.t0
			}
			if o.t1 > want {
				// it may have been behind earlier items taken by others, but
				// this getter must not have waited while any item was there
				if firstAvail(ops, o) < o.t1 {
					x.Failf("delayed", "Get called at %v returned item %d at %v although an item was available at %v", o.t0, o.item, o.t1, firstAvail(ops, o))
				}
			}
		} else {
			if o.t1-o.t0 < time.Duration(o.timeout)*time.Second {
				x.Failf("early", "Get failed after %v, timeout %ds", o.t1-o.t0, o.timeout)
			}
			if o.t1-o.t0 > time.Duration(o.timeout)*time.Second {
				x.Failf("late-timeout", "Get failed after %v, timeout %ds", o.t1-o.t0, o.timeout)
			}
			if fa := firstAvail(ops, o); fa < o.t1 {
				x.Failf("missed", "Get called at %v timed out at %v although an item was available from %v", o.t0, o.t1, fa)
			}
		}
	}
	if !linearizable(ops) {
		x.Failf("not-fifo", "no FIFO order explains the results: %s", showOps(ops))
	}
	x.Outcome("%s", showOps(ops))
}

func showOps(ops []*qop) string {
	s := ""
	for _, o := range ops {
		if o.put {
			s += fmt.Sprintf("put(%d) ", o.item)
		} else if o.ok {
			s += fmt.Sprintf("get=%d@%v ", o.item, o.t1)
		} else {
			s += fmt.Sprintf("timeout@%v ", o.t1)
		}
	}
	return s
}

// firstAvail is the earliest virtual instant, strictly within the wait of g,
// at which the queue was left non-empty when time advanced past it.
func firstAvail(ops []*qop, g *qop) time.Duration {
	// instants at which something happened
	best := time.Duration(1<<62 - 1)
	for _, p := range ops {
		if !p.put {
			continue
		}
		t := p.t1
		if t < g.t0 {
			t = g.t0
		}
		if t >= g.t1 {
			continue
		}
		// items in the queue at the end of instant t
		n := 0
		for _, o := range ops {
			if o.put && o.done && o.t1 <= t {
				n++
			}
			if !o.put && o.ok && o.t1 <= t {
				n--
			}
		}
		if n > 0 && t < best {
			best = t
		}
	}
	return best
}

// linearizable looks for an order of the puts and successful gets, consistent
// with real time, in which a FIFO queue gives these results.
func linearizable(ops []*qop) bool {
	var l []*qop
	for _, o := range ops {
		if o.put || o.ok {
			l = append(l, o)
		}
	}
	used := make([]bool, len(l))
	var rec func(n int, q []int) bool
	rec = func(n int, q []int) bool {
		if n == len(l) {
			return true
		}
		for i, o := range l {
			if used[i] {
				continue
			}
			ok := true
			for j, p := range l {
				if !used[j] && j != i && p.ret < o.inv {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			var q2 []int
			if o.put {
				q2 = append(append([]int{}, q...), o.item)
			} else {
				if len(q) == 0 || q[0] != o.item {
					continue
				}
				q2 = q[1:]
			}
			used[i] = true
			if rec(n+1, q2) {
				return true
			}
			used[i] = false
		}
		return false
	}
	return rec(0, nil)
}

func c29(c *C) {
	many(c, manyItems)
	sys := [][]qscript{}
	add := func(s ...qscript) { sys = append(sys, s) }
	put := func(n, delay, gap int) qscript { return qscript{true, n, 0, delay, gap} }
	get := func(n, to, delay, gap int) qscript { return qscript{false, n, to, delay, gap} }
	// sequential use and timeouts, including timeouts equal to arrival times
	for _, to := range []int{0, 1, 2} {
		for _, d := range []int{0, 500, 1000, 1001, 2000, 3000} {
			add(get(1, to, 0, 0), put(1, d, 0))
			add(get(2, to, 0, 0), put(2, d, 0))
			add(put(1, d, 0), get(1, to, 1000, 0))
		}
	}
	add(put(3, 0, 0), get(3, 1, 10, 0))
	add(put(3, 0, 10), get(3, 1, 5, 0))
	add(get(1, 1, 0, 0), get(1, 1, 0, 0), put(2, 0, 0))
	add(get(1, 1, 0, 0), get(1, 2, 0, 0), put(2, 500, 0))
	add(get(1, 1, 0, 0), get(1, 1, 0, 0), put(1, 500, 0))
	add(get(1, 2, 0, 0), get(1, 2, 0, 0), put(1, 500, 0), put(1, 500, 0))
	add(get(2, 1, 0, 0), put(1, 0, 0), put(1, 0, 0))
	add(get(2, 1, 0, 0), put(1, 500, 0), put(1, 500, 0))
	add(get(1, 1, 0, 0), get(1, 1, 0, 0), get(1, 1, 0, 0), put(3, 100, 0))
	add(get(1, 1, 0, 0), put(1, 1000, 0), get(1, 1, 500, 0))
	add(get(1, 1, 0, 0), get(1, 2, 0, 0), put(1, 1000, 0))
	add(get(1, 1, 0, 0), get(1, 3, 0, 0), put(2, 1000, 500))
	add(put(2, 0, 0), put(2, 0, 0), get(4, 1, 0, 0))
	add(put(2, 0, 0), get(1, 1, 0, 0), get(1, 1, 0, 0))
	dev := c.Q(3, 4)
	for _, s := range sys {
		s := s
		n := 0
		for _, t := range s {
			n += t.n
		}
		d := dev
		if c.Thorough && n > 3 {
			d = 3
		}
		c.Case(fmt.Sprint(s), Opt{Dev: d, Split: true, Fine: true, Sched: true}, func(x *X) { runQueue(x, s) })
	}
}

// ---- events

func c30(c *C) {
	many(c, manyCallbacks)
	depth := c.Q(6, 7)
	// sequential histories: 0-2 add cb i, 3-5 remove cb i, 6 fire, 7 len
	var hist []int
	var rec func()
	emit := func(h []int, kind int) {
		h = append([]int(nil), h...)
		c.Case(fmt.Sprintf("history %v kind %d", h, kind), Opt{}, func(x *X) { runEvent(x, h, kind) })
	}
	rec = func() {
		if len(hist) > 0 && (hist[len(hist)-1] >= 6) {
			for k := 0; k < 6; k++ {
				if k == 0 || len(hist) <= depth-2 {
					emit(hist, k)
				}
			}
		}
		if len(hist) == depth {
			return
		}
		for a := 0; a < 8; a++ {
			if a == 7 && len(hist) > 0 && hist[len(hist)-1] == 7 {
				continue
			}
			hist = append(hist, a)
			rec()
			hist = hist[:len(hist)-1]
		}
	}
	rec()
	// two threads
	scripts := [][2][]int{
		{{0, 1}, {2, 6}}, {{0}, {1}}, {{6}, {0, 3}}, {{3, 6}, {1, 6}}, {{3}, {4}}, {{0, 3}, {1, 4}}, {{6, 7}, {3, 6}}, {{6}, {6}},
	}
	for _, s := range scripts {
		s := s
		for pre := 0; pre < 3; pre++ {
			pre := pre
			c.Case(fmt.Sprintf("threads %v with %d registered", s, pre), Opt{Dev: c.Q(3, 4), Split: true, Fine: true, Sched: true}, func(x *X) { runEventThreads(x, s, pre) })
		}
	}
}

type evModel struct {
	list  []int
	calls []string
}

// kind selects what callback 0 does when called: 0 nothing, 1 adds callback 2
// once, 2 removes itself, 3 fires again once, 4 asks for the length, 5 removes
// callback 1.
func runEvent(x *X, h []int, kind int) {
	ev := &common.Event{}
	var calls []string
	var cbs [3]func(map[string]interface{})
	once := false
	for i := range cbs {
		i := i
		cbs[i] = func(d map[string]interface{}) {
			calls = append(calls, fmt.Sprintf("%d:%v", i, d["n"]))
			if i != 0 || once {
				return
			}
			switch kind {
			case 1:
				once = true
				ev.AddCallback(cbs[2])
			case 2:
				ev.RemoveCallback(cbs[0])
			case 3:
				once = true
				ev.Fire(map[string]interface{}{"n": "inner"})
			case 4:
				calls = append(calls, fmt.Sprintf("len=%d", ev.Len()))
			case 5:
				ev.RemoveCallback(cbs[1])
			}
		}
	}
	var m []int
	rm := func(i int) {
		for k, v := range m {
			if v == i {
				m = append(append([]int{}, m[:k]...), m[k+1:]...)
				return
			}
		}
	}
	monce := false
	var want []string
	var fire func(n string)
	fire = func(n string) {
		for _, i := range append([]int{}, m...) {
			want = append(want, fmt.Sprintf("%d:%v", i, n))
			if i != 0 || monce {
				continue
			}
			switch kind {
			case 1:
				monce = true
				m = append(m, 2)
			case 2:
				rm(0)
			case 3:
				monce = true
				fire("inner")
			case 4:
				want = append(want, fmt.Sprintf("len=%d", len(m)))
			case 5:
				rm(1)
			}
		}
	}
	dup := func() bool {
		seen := map[int]bool{}
		for _, v := range m {
			if seen[v] {
				return true
			}
			seen[v] = true
		}
		return false
	}
	for step, a := range h {
		calls, want = nil, nil
		switch {
		case a < 3:
			ev.AddCallback(cbs[a])
			m = append(m, a)
		case a < 6:
			if dup() && count(m, a-3) > 1 {
				x.Outcome("skip") // which of two equal registrations goes is not defined
				return
			}
			ev.RemoveCallback(cbs[a-3])
			rm(a - 3)
		case a == 6:
			n := fmt.Sprint(step)
			ev.Fire(map[string]interface{}{"n": n})
			if kind == 5 || kind == 2 || kind == 1 {
				// changes made during a fire: the callbacks present throughout are
				// called; those added or removed meanwhile may or may not be
				before := append([]int{}, m...)
				fire(n)
				if fmt.Sprint(calls) != fmt.Sprint(want) {
					if !between(calls, before, m, n) {
						x.Failf("fire-reentrant", "step %d: called %v with %v registered before and %v after", step, calls, before, m)
					}
				}
				break
			}
			fire(n)
			if fmt.Sprint(calls) != fmt.Sprint(want) {
				x.Failf("fire", "step %d of %v: called %v, want %v", step, h, calls, want)
			}
		case a == 7:
			if l := ev.Len(); l != len(m) {
				x.Failf("len", "step %d of %v: Len() = %d, want %d", step, h, l, len(m))
			}
		}
		x.State(fmt.Sprint(a, kind), fmt.Sprint(m, kind))
	}
}

func count(m []int, v int) int {
	n := 0
	for _, x := range m {
		if x == v {
			n++
		}
	}
	return n
}

// between: calls lists, in order, each callback registered both before and
// after, and otherwise only callbacks registered before or after.
func between(calls []string, before, after []int, n string) bool {
	got := map[string]int{}
	for _, s := range calls {
		got[s]++
	}
	for i := 0; i < 3; i++ {
		k := fmt.Sprintf("%d:%v", i, n)
		b, a := count(before, i), count(after, i)
		lo, hi := b, a
		if lo > hi {
			lo, hi = hi, lo
		}
		if got[k] < lo || got[k] > hi {
			return false
		}
	}
	return true
}

func runEventThreads(x *X, s [2][]int, pre int) {
	ev := &common.Event{}
	var calls [3]int
	var cbs [3]func(map[string]interface{})
	for i := range cbs {
		i := i
		cbs[i] = func(map[string]interface{}) { calls[i]++ }
	}
	for i := 0; i < pre; i++ {
		ev.AddCallback(cbs[i])
	}
	done := 0
	for _, sc := range s {
		sc := sc
		vrt.GoApp("t", func() {
			for _, a := range sc {
				switch {
				case a < 3:
					ev.AddCallback(cbs[a])
				case a < 6:
					ev.RemoveCallback(cbs[a-3])
				case a == 6:
					ev.Fire(map[string]interface{}{"n": 1})
				case a == 7:
					ev.Len()
				}
			}
			done++
		})
	}
	vrt.Sleep(time.Second)
	if done != 2 {
		x.Failf("deadlock", "a thread did not finish: %v", vrt.Live())
	}
	during := calls
	calls = [3]int{}
	ev.Fire(map[string]interface{}{})
	// the registrations left are those of one of the interleavings
	ok := false
	for _, w := range mergesOf(s[0], s[1]) {
		var m []int
		var cl [3]int
		for i := 0; i < pre; i++ {
			m = append(m, i)
		}
		for _, a := range w {
			switch {
			case a < 3:
				m = append(m, a)
			case a < 6:
				for k, v := range m {
					if v == a-3 {
						m = append(append([]int{}, m[:k]...), m[k+1:]...)
						break
					}
				}
			case a == 6:
				for _, v := range m {
					cl[v]++
				}
			}
		}
		if count(m, 0) == calls[0] && count(m, 1) == calls[1] && count(m, 2) == calls[2] && cl == during && ev.Len() == len(m) {
			ok = true
			break
		}
	}
	if !ok {
		x.Failf("threads", "after %v with %d registered: calls during %v, registered afterwards %v, Len %d: no interleaving explains it", s, pre, during, calls, ev.Len())
	}
	x.Outcome("%v %v", during, calls)
}

func mergesOf(a, b []int) [][]int {
	if len(a) == 0 {
		return [][]int{b}
	}
	if len(b) == 0 {
		return [][]int{a}
	}
	var out [][]int
	for _, r := range mergesOf(a[1:], b) {
		out = append(out, append([]int{a[0]}, r...))
	}
	for _, r := range mergesOf(a, b[1:]) {
		out = append(out, append([]int{b[0]}, r...))
	}
	return out
}
