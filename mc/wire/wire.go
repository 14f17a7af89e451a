// Package wire is an independent reference implementation of the SECS-II item
// coding (SEMI E5) and of HSMS frames (SEMI E37), used as oracle and by the
// simulated peer. It shares no code with the implementation under test.
package wire

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"strings"
)

// Format codes (octal as in SEMI E5).
const (
	FL    = 0o00
	FB    = 0o10
	FBOOL = 0o11
	FA    = 0o20
	FI8   = 0o30
	FI1   = 0o31
	FI2   = 0o32
	FI4   = 0o34
	FF8   = 0o40
	FF4   = 0o44
	FU8   = 0o50
	FU1   = 0o51
	FU2   = 0o52
	FU4   = 0o54
)

// Item is a SECS-II item: a list of items or raw value bytes.
type Item struct {
	F    int
	L    []*Item
	Data []byte
}

// Width of one element.
func Width(f int) int {
	switch f {
	case FB, FBOOL, FA, FI1, FU1:
		return 1
	case FI2, FU2:
		return 2
	case FI4, FU4, FF4:
		return 4
	case FI8, FU8, FF8:
		return 8
	}
	return 0
}

// Name of the format in SML.
func Name(f int) string {
	switch f {
	case FL:
		return "L"
	case FB:
		return "B"
	case FBOOL:
		return "BOOLEAN"
	case FA:
		return "A"
	case FI1:
		return "I1"
	case FI2:
		return "I2"
	case FI4:
		return "I4"
	case FI8:
		return "I8"
	case FU1:
		return "U1"
	case FU2:
		return "U2"
	case FU4:
		return "U4"
	case FU8:
		return "U8"
	case FF4:
		return "F4"
	case FF8:
		return "F8"
	}
	return fmt.Sprintf("?%o", f)
}

// AllFormats lists every format code supported, the list first.
var AllFormats = []int{FL, FB, FBOOL, FA, FI8, FI1, FI2, FI4, FF8, FF4, FU8, FU1, FU2, FU4}

func L(items ...*Item) *Item { return &Item{F: FL, L: items} }
func A(s string) *Item       { return &Item{F: FA, Data: []byte(s)} }
func B(v ...byte) *Item      { return &Item{F: FB, Data: v} }
func Bool(v ...bool) *Item {
	it := &Item{F: FBOOL}
	for _, b := range v {
		if b {
			it.Data = append(it.Data, 1)
		} else {
			it.Data = append(it.Data, 0)
		}
	}
	return it
}

func put(d []byte, w int, v uint64) []byte {
	for i := w - 1; i >= 0; i-- {
		d = append(d, byte(v>>(8*uint(i))))
	}
	return d
}

// U makes an unsigned item of byte size w.
func U(w int, v ...uint64) *Item {
	it := &Item{F: map[int]int{1: FU1, 2: FU2, 4: FU4, 8: FU8}[w]}
	for _, x := range v {
		it.Data = put(it.Data, w, x)
	}
	return it
}

// I makes a signed item of byte size w.
func I(w int, v ...int64) *Item {
	it := &Item{F: map[int]int{1: FI1, 2: FI2, 4: FI4, 8: FI8}[w]}
	for _, x := range v {
		it.Data = put(it.Data, w, uint64(x))
	}
	return it
}

// Fl makes a float item of byte size w.
func Fl(w int, v ...float64) *Item {
	it := &Item{F: map[int]int{4: FF4, 8: FF8}[w]}
	for _, x := range v {
		if w == 4 {
			it.Data = put(it.Data, 4, uint64(math.Float32bits(float32(x))))
		} else {
			it.Data = put(it.Data, 8, math.Float64bits(x))
		}
	}
	return it
}

// Uints decodes the elements as unsigned integers.
func (it *Item) Uints() []uint64 {
	w := Width(it.F)
	var out []uint64
	for i := 0; w > 0 && i+w <= len(it.Data); i += w {
		var v uint64
		for _, b := range it.Data[i : i+w] {
			v = v<<8 | uint64(b)
		}
		out = append(out, v)
	}
	return out
}

// Ints decodes the elements as signed integers.
func (it *Item) Ints() []int64 {
	w := Width(it.F)
	var out []int64
	for _, u := range it.Uints() {
		sh := uint(64 - 8*w)
		out = append(out, int64(u<<sh)>>sh)
	}
	return out
}

// Floats decodes float elements.
func (it *Item) Floats() []float64 {
	var out []float64
	for _, u := range it.Uints() {
		if it.F == FF4 {
			out = append(out, float64(math.Float32frombits(uint32(u))))
		} else {
			out = append(out, math.Float64frombits(u))
		}
	}
	return out
}

// Encode gives the SEMI E5 wire form (nil item: no body).
func (it *Item) Encode() []byte { return it.append(nil) }

func (it *Item) append(d []byte) []byte {
	if it == nil {
		return d
	}
	n := len(it.Data)
	if it.F == FL {
		n = len(it.L)
	}
	switch {
	case n < 1<<8:
		d = append(d, byte(it.F<<2|1), byte(n))
	case n < 1<<16:
		d = append(d, byte(it.F<<2|2), byte(n>>8), byte(n))
	default:
		d = append(d, byte(it.F<<2|3), byte(n>>16), byte(n>>8), byte(n))
	}
	if it.F == FL {
		for _, c := range it.L {
			d = c.append(d)
		}
		return d
	}
	return append(d, it.Data...)
}

var errBad = errors.New("malformed item")

// Decode decodes exactly one item filling b (nil for empty b). minimal reports
// whether all length fields are minimal.
func Decode(b []byte) (it *Item, minimal bool, err error) {
	if len(b) == 0 {
		return nil, true, nil
	}
	minimal = true
	it, rest, err := dec(b, &minimal, 0)
	if err != nil {
		return nil, false, err
	}
	if len(rest) != 0 {
		return nil, false, errors.New("trailing bytes")
	}
	return it, minimal, nil
}

func dec(b []byte, minimal *bool, depth int) (*Item, []byte, error) {
	if len(b) < 2 {
		return nil, nil, errBad
	}
	f, nl := int(b[0]>>2), int(b[0]&3)
	if nl == 0 || len(b) < 1+nl {
		return nil, nil, errBad
	}
	n := 0
	for _, x := range b[1 : 1+nl] {
		n = n<<8 | int(x)
	}
	if nl == 2 && n < 1<<8 || nl == 3 && n < 1<<16 {
		*minimal = false
	}
	b = b[1+nl:]
	it := &Item{F: f}
	if f == FL {
		for i := 0; i < n; i++ {
			var c *Item
			var err error
			c, b, err = dec(b, minimal, depth+1)
			if err != nil {
				return nil, nil, err
			}
			it.L = append(it.L, c)
		}
		return it, b, nil
	}
	w := Width(f)
	if w == 0 || n%w != 0 || n > len(b) {
		return nil, nil, errBad
	}
	it.Data = append([]byte(nil), b[:n]...)
	return it, b[n:], nil
}

// Equal compares two items byte for byte.
func Equal(a, b *Item) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.F != b.F || len(a.L) != len(b.L) || string(a.Data) != string(b.Data) {
		return false
	}
	for i := range a.L {
		if !Equal(a.L[i], b.L[i]) {
			return false
		}
	}
	return true
}

// String shows an item compactly.
func (it *Item) String() string {
	if it == nil {
		return "-"
	}
	var sb strings.Builder
	it.show(&sb)
	return sb.String()
}

func (it *Item) show(sb *strings.Builder) {
	switch it.F {
	case FL:
		fmt.Fprintf(sb, "L[%d]{", len(it.L))
		for i, c := range it.L {
			if i > 0 {
				sb.WriteByte(' ')
			}
			if i > 8 {
				sb.WriteString("...")
				break
			}
			c.show(sb)
		}
		sb.WriteByte('}')
	case FA:
		if len(it.Data) > 60 {
			fmt.Fprintf(sb, "A[%d]", len(it.Data))
		} else {
			fmt.Fprintf(sb, "%q", string(it.Data))
		}
	default:
		sb.WriteString(Name(it.F))
		if len(it.Data) > 40 {
			fmt.Fprintf(sb, "[%d bytes]", len(it.Data))
			return
		}
		switch it.F {
		case FI1, FI2, FI4, FI8:
			fmt.Fprint(sb, it.Ints())
		case FF4, FF8:
			fmt.Fprint(sb, it.Floats())
		default:
			fmt.Fprint(sb, it.Uints())
		}
	}
}

// Frame is an HSMS message.
type Frame struct {
	Session uint16
	B2, B3  byte
	PType   byte
	SType   byte
	Sys     uint32
	Body    []byte
	Item    *Item
	BadBody bool
}

// Session types.
const (
	Data        = 0
	SelectReq   = 1
	SelectRsp   = 2
	DeselectReq = 3
	DeselectRsp = 4
	LinktestReq = 5
	LinktestRsp = 6
	RejectReq   = 7
	SeparateReq = 9
)

// NewData makes a data frame.
func NewData(session uint16, s, f int, w bool, sys uint32, it *Item) *Frame {
	b2 := byte(s)
	if w {
		b2 |= 0x80
	}
	return &Frame{Session: session, B2: b2, B3: byte(f), Sys: sys, Item: it, Body: it.Encode()}
}

// NewCtrl makes a control frame.
func NewCtrl(stype byte, session uint16, b2, b3 byte, sys uint32) *Frame {
	return &Frame{Session: session, B2: b2, B3: b3, SType: stype, Sys: sys}
}

// Header is the 10-byte header.
func (f *Frame) Header() []byte {
	h := make([]byte, 10)
	binary.BigEndian.PutUint16(h, f.Session)
	h[2], h[3], h[4], h[5] = f.B2, f.B3, f.PType, f.SType
	binary.BigEndian.PutUint32(h[6:], f.Sys)
	return h
}

// Encode gives the frame with its length prefix.
func (f *Frame) Encode() []byte {
	out := make([]byte, 4, 14+len(f.Body))
	binary.BigEndian.PutUint32(out, uint32(10+len(f.Body)))
	out = append(out, f.Header()...)
	return append(out, f.Body...)
}

// Parse takes one frame off b; nil if incomplete.
func Parse(b []byte) (*Frame, int) {
	if len(b) < 4 {
		return nil, 0
	}
	n := int(binary.BigEndian.Uint32(b))
	if len(b) < 4+n {
		return nil, 0
	}
	f := &Frame{BadBody: n < 10}
	if n < 10 {
		return f, 4 + n
	}
	h := b[4:14]
	f.Session = binary.BigEndian.Uint16(h)
	f.B2, f.B3, f.PType, f.SType = h[2], h[3], h[4], h[5]
	f.Sys = binary.BigEndian.Uint32(h[6:])
	f.Body = append([]byte(nil), b[14:4+n]...)
	if f.SType == 0 {
		it, _, err := Decode(f.Body)
		f.Item, f.BadBody = it, err != nil
	}
	return f, 4 + n
}

// S is the stream.
func (f *Frame) S() int { return int(f.B2 & 0x7f) }

// F is the function.
func (f *Frame) F() int { return int(f.B3) }

// W is the wait bit.
func (f *Frame) W() bool { return f.B2&0x80 != 0 }

var ctrlNames = map[byte]string{1: "select.req", 2: "select.rsp", 3: "deselect.req", 4: "deselect.rsp", 5: "linktest.req", 6: "linktest.rsp", 7: "reject.req", 9: "separate.req"}

// String shows a frame.
func (f *Frame) String() string {
	if f == nil {
		return "<none>"
	}
	if f.SType != 0 {
		return fmt.Sprintf("%s(sess=%04x b2=%d b3=%d sys=%08x)", ctrlNames[f.SType], f.Session, f.B2, f.B3, f.Sys)
	}
	w := ""
	if f.W() {
		w = "W"
	}
	if f.BadBody {
		return fmt.Sprintf("S%dF%d%s(sess=%04x sys=%08x) BAD BODY %x", f.S(), f.F(), w, f.Session, f.Sys, f.Body)
	}
	return fmt.Sprintf("S%dF%d%s(sess=%04x sys=%08x) %v", f.S(), f.F(), w, f.Session, f.Sys, f.Item)
}
