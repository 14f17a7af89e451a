package h

import (
	"fmt"
	"time"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/common"
	"github.com/younglifestyle/secs4go/utils"
	"verif.local/mc/vrt"
	"verif.local/mc/wire"
)

// Many of everything: callbacks, queued items, registered sessions, and frames
// longer than any buffer.

var manySizes = []int{4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300}

func many(c *C, f func(x *X, n int)) {
	for _, n := range manySizes {
		n := n
		c.Case(fmt.Sprintf("many %d", n), Opt{MaxSteps: 1 << 26}, func(x *X) { f(x, n) })
	}
}

// C03
func hugeFrames(c *C, rcs []receiver, small []byte) {
	mk := func(it *wire.Item, sys uint32) []byte { return wire.NewData(1, 7, 3, true, sys, it).Encode() }
	for i, it := range []*wire.Item{sized(wire.FA, 1200000), sized(wire.FB, 1100000), wire.L(sized(wire.FA, 1<<24-1), sized(wire.FA, 300000))} {
		i, it := i, it
		for _, rc := range rcs {
			rc := rc
			c.Case(fmt.Sprintf("huge %s %d", rc.name, i), Opt{}, func(x *X) {
				vrt.MaxPts(1 << 40)
				sc := seqCase{fmt.Sprintf("huge[%d]", i), [][]byte{small, mk(it, 9), small}, -1}
				n := len(sc.stream())
				for _, cut := range []int{len(small), len(small) + 4, n / 2} {
					c03one(x, rc, sc, []int{cut}, n)
				}
				c03one(x, rc, sc, nil, n-len(small)-1)
			})
		}
	}
}

// C30: n callbacks, all called in order; one, several and all but one removed.
func manyCallbacks(x *X, n int) {
	for _, out := range [][]int{nil, {0}, {n - 1}, {n / 2}, {0, n - 1, 1, n - 2}, {2, 1}} {
		var e common.Event
		var got []int
		var cbs []func(map[string]interface{})
		d := map[string]interface{}{"k": n}
		for i := 0; i < n; i++ {
			i := i
			cbs = append(cbs, func(m map[string]interface{}) {
				if m["k"] != n {
					x.Failf("data", "callback %d of %d got %v", i, n, m)
				}
				got = append(got, i)
			})
			e.AddCallback(cbs[i])
		}
		gone := map[int]bool{}
		for _, i := range out {
			e.RemoveCallback(cbs[i])
			gone[i] = true
		}
		var want []int
		for i := 0; i < n; i++ {
			if !gone[i] {
				want = append(want, i)
			}
		}
		for round := 0; round < 2; round++ {
			got = nil
			e.Fire(d)
			if fmt.Sprint(got) != fmt.Sprint(want) || e.Len() != len(want) {
				x.Failf("many", "of %d callbacks without %v, Fire called %v; Len is %d", n, out, got, e.Len())
			}
		}
		x.Eval(fmt.Sprint(n, out), true)
	}
}

// C29: n items through the queue, k at a time.
func manyItems(x *X, n int) {
	q := utils.NewDeque()
	for _, k := range []int{1, 2, n, 20 * n} {
		next, want := 0, 0
		for next < 20*n {
			for i := 0; i < k && next < 20*n; i++ {
				q.Put(next)
				next++
			}
			for want < next {
				v, err := q.Get(0)
				if err != nil || v != want {
					x.Failf("many", "item %d of %d, %d at a time: %v, %v", want, 20*n, k, v, err)
				}
				want++
			}
		}
		if v, err := q.Get(0); err == nil {
			x.Failf("many", "the empty queue gave %v", v)
		}
	}
	// a timeout of n seconds; an item just before its end, and none
	for _, early := range []bool{true, false} {
		t0 := vrt.Now()
		if early {
			vrt.GoApp("put", func() {
				vrt.Sleep(time.Duration(n)*time.Second - time.Millisecond)
				q.Put("late")
			})
		}
		v, err := q.Get(n)
		took := vrt.Now() - t0
		if early && (err != nil || v != "late" || took != time.Duration(n)*time.Second-time.Millisecond) || !early && (err == nil || took != time.Duration(n)*time.Second) {
			x.Failf("timeout", "Get(%d) returned %v, %v after %v (an item at the end: %v)", n, v, err, took, early)
		}
	}
	x.Eval(fmt.Sprint(n), true)
}

// C26: n close callbacks.
func manyCloseCallbacks(x *X, n int) {
	for _, queue := range []int{0, 4} {
		for _, out := range [][]int{nil, {0}, {n - 1}, {n / 2, 0}, {n - 1, n - 2}} {
			s := link.NewSession(&recCodec{x: x}, queue)
			ran, want := make([]int, n), make([]int, n)
			for i := 0; i < n; i++ {
				i := i
				want[i] = 1
				s.AddCloseCallback("h", i, func() { ran[i]++ })
			}
			for _, i := range out {
				s.RemoveCloseCallback("h", i)
				want[i] = 0
			}
			s.Close()
			vrt.Sleep(time.Millisecond)
			if fmt.Sprint(ran) != fmt.Sprint(want) {
				x.Failf("many", "of %d close callbacks without %v ran %v", n, out, ran)
			}
			x.Eval(fmt.Sprint(n, queue, out), true)
		}
	}
}

// C27: n sessions in a channel.
func manyInChannel(x *X, n int) {
	ch := link.NewChannel()
	var ss []*link.Session
	in := map[int]*link.Session{}
	check := func(what string) {
		for i := 0; i < n; i++ {
			if ch.Get(i) != in[i] {
				x.Failf("many", "%s: key %d of %d gives the wrong session", what, i, n)
			}
		}
		c := 0
		ch.Fetch(func(s *link.Session) { c++ })
		if ch.Len() != len(in) || c != len(in) {
			x.Failf("many", "%s: Len %d, fetched %d, want %d", what, ch.Len(), c, len(in))
		}
		x.Eval(fmt.Sprint(n, what), true)
	}
	for i := 0; i < n; i++ {
		s := link.NewSession(&recCodec{x: x}, 0)
		ss = append(ss, s)
		ch.Put(i, s)
		in[i] = s
	}
	check("put")
	for i := 0; i < n; i += 3 {
		ss[i].Close()
		delete(in, i)
	}
	vrt.Idle()
	check("closed")
	for i := 1; i < n; i += 3 {
		if !ch.Remove(i) {
			x.Failf("many", "key %d of %d is not there", i, n)
		}
		delete(in, i)
	}
	check("removed")
	for i := 0; i < n; i += 2 {
		s := link.NewSession(&recCodec{x: x}, 0)
		ch.Put(i, s)
		in[i] = s
	}
	check("replaced")
	for i := 0; i < n; i++ {
		ss[i].Close()
		if in[i] == ss[i] {
			delete(in, i)
		}
	}
	vrt.Idle()
	check("replaced ones closed")
	got := map[*link.Session]int{}
	ch.FetchAndRemove(func(s *link.Session) { got[s]++ })
	for _, s := range in {
		if got[s] != 1 {
			x.Failf("many", "FetchAndRemove gave a session %d times", got[s])
		}
	}
	if len(got) != len(in) {
		x.Failf("many", "FetchAndRemove gave %d of %d sessions", len(got), len(in))
	}
	in = map[int]*link.Session{}
	check("fetched")
}
