package h

import (
	"math"

	"verif.local/mc/wire"
)

// boundary values per numeric width
func intVals(w int) []int64 {
	max := int64(1)<<(uint(8*w)-1) - 1
	if w == 8 {
		max = math.MaxInt64
	}
	v := []int64{0, 1, -1, max, -max - 1, max - 1, -max, 42}
	if w > 1 {
		v = append(v, 127, 128, -128, -129, 255, 256, 0x1234)
	}
	if w > 2 {
		v = append(v, 32767, 32768, -32768, -32769, 65535, 65536, 0x12345678)
	}
	if w > 4 {
		v = append(v, 1<<31-1, 1<<31, -1<<31, -1<<31-1, 1<<32-1, 1<<32, 0x123456789abcdef0)
	}
	return v
}

func uintVals(w int) []uint64 {
	max := uint64(1)<<uint(8*w) - 1
	if w == 8 {
		max = math.MaxUint64
	}
	v := []uint64{0, 1, max, max - 1, max/2 + 1, max / 2, 7}
	if w > 1 {
		v = append(v, 255, 256, 0x1234)
	}
	if w > 2 {
		v = append(v, 65535, 65536, 0x12345678)
	}
	if w > 4 {
		v = append(v, 1<<32-1, 1<<32, 0x123456789abcdef0)
	}
	return v
}

func floatVals(w int) []float64 {
	v := []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1.5, -2.25, 100, 1e6, 16777216, 123456.5}
	if w == 4 {
		f := []float32{math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1, 3.1415927, 1e-30, 1e21, 1.17549435e-38}
		for _, x := range f {
			v = append(v, float64(x))
		}
	} else {
		v = append(v, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, math.Pi, 1e-300, 1e21, 9007199254740993, 2.2250738585072014e-308)
	}
	return v
}

// leafItems lists single-item bodies over boundary values, with zero, one and
// two elements.
func leafItems() []*wire.Item {
	var out []*wire.Item
	for _, f := range wire.AllFormats {
		out = append(out, &wire.Item{F: f})
	}
	for b := 0; b < 128; b++ {
		out = append(out, wire.A(string([]byte{byte(b)})))
	}
	for b := 0; b < 256; b++ {
		out = append(out, wire.B(byte(b)))
	}
	out = append(out, wire.Bool(true), wire.Bool(false), wire.Bool(true, false), wire.Bool(false, true), wire.Bool(true, true))
	for _, w := range []int{1, 2, 4, 8} {
		vs := intVals(w)
		for i, v := range vs {
			out = append(out, wire.I(w, v))
			out = append(out, wire.I(w, v, vs[(i+1)%len(vs)]))
		}
		us := uintVals(w)
		for i, v := range us {
			out = append(out, wire.U(w, v))
			out = append(out, wire.U(w, v, us[(i+1)%len(us)]))
		}
	}
	for _, w := range []int{4, 8} {
		fs := floatVals(w)
		for i, v := range fs {
			out = append(out, wire.Fl(w, v))
			out = append(out, wire.Fl(w, v, fs[(i+1)%len(fs)]))
		}
	}
	out = append(out, wire.A("abc"), wire.A("a b\tc\x00\x7f"), wire.B(0, 255, 1, 254))
	return out
}

// smallLeaves is one or two items per format, for nesting.
func smallLeaves() []*wire.Item {
	return []*wire.Item{
		wire.L(), wire.A(""), wire.A("Hi"), wire.B(), wire.B(0x80, 1), wire.Bool(true), wire.Bool(),
		wire.I(1, -1), wire.I(2, -2, 300), wire.I(4, -70000), wire.I(8, -1<<40), wire.I(1),
		wire.U(1, 255), wire.U(2, 65535), wire.U(4, 1<<31), wire.U(8, 1<<63), wire.U(2),
		wire.Fl(4, 1.5), wire.Fl(8, -0.1), wire.Fl(4), wire.Fl(8),
	}
}

// trees calls f with every list of up to width children, each a leaf or a
// list of depth-1.
func trees(depth, width int, leaves []*wire.Item, f func(*wire.Item)) {
	var lists func(d int) []*wire.Item
	lists = func(d int) []*wire.Item {
		if d == 0 {
			return nil
		}
		kids := append(append([]*wire.Item{}, leaves...), lists(d-1)...)
		var out []*wire.Item
		idx := make([]int, width)
		for n := 0; n <= width; n++ {
			for i := range idx {
				idx[i] = 0
			}
			for {
				l := &wire.Item{F: wire.FL}
				for i := 0; i < n; i++ {
					l.L = append(l.L, kids[idx[i]])
				}
				if d == depth {
					f(l)
				} else {
					out = append(out, l)
				}
				i := n - 1
				for i >= 0 {
					idx[i]++
					if idx[i] < len(kids) {
						break
					}
					idx[i] = 0
					i--
				}
				if i < 0 {
					break
				}
			}
		}
		return out
	}
	lists(depth)
}

// sized makes an item of n elements with varied content.
func sized(f, n int) *wire.Item {
	it := &wire.Item{F: f}
	if f == wire.FL {
		for i := 0; i < n; i++ {
			it.L = append(it.L, wire.U(1, uint64(i&255)))
		}
		return it
	}
	w := wire.Width(f)
	it.Data = make([]byte, n*w)
	for i := range it.Data {
		b := byte(i*7 + i>>8)
		switch {
		case f == wire.FA:
			b &= 0x7f
		case f == wire.FBOOL:
			b &= 1
		case (f == wire.FF4 || f == wire.FF8) && i%w == 0:
			b &= 0x3f // no NaN or infinity
		}
		it.Data[i] = b
	}
	return it
}
