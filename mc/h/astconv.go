package h

import (
	"fmt"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"verif.local/mc/wire"
)

// toNode builds the implementation's item for a reference item. style picks
// among the Go types the constructors accept.
func toNode(it *wire.Item, style int) ast.ItemNode {
	if it == nil {
		return ast.NewEmptyItemNode()
	}
	switch it.F {
	case wire.FL:
		v := make([]interface{}, len(it.L))
		for i, c := range it.L {
			v[i] = toNode(c, style)
		}
		return ast.NewListNode(v...)
	case wire.FA:
		return ast.NewASCIINode(string(it.Data))
	case wire.FB:
		v := make([]interface{}, len(it.Data))
		for i, b := range it.Data {
			switch {
			case style == 1:
				v[i] = b
			case style == 2:
				v[i] = fmt.Sprintf("0b%b", b)
			default:
				v[i] = int(b)
			}
		}
		return ast.NewBinaryNode(v...)
	case wire.FBOOL:
		v := make([]interface{}, len(it.Data))
		for i, b := range it.Data {
			v[i] = b != 0
		}
		return ast.NewBooleanNode(v...)
	case wire.FI1, wire.FI2, wire.FI4, wire.FI8:
		xs := it.Ints()
		v := make([]interface{}, len(xs))
		for i, x := range xs {
			v[i] = x
			if style == 1 {
				switch it.F {
				case wire.FI1:
					v[i] = int8(x)
				case wire.FI2:
					v[i] = int16(x)
				case wire.FI4:
					v[i] = int32(x)
				}
			} else if style == 2 {
				v[i] = int(x)
			}
		}
		return ast.NewIntNode(wire.Width(it.F), v...)
	case wire.FU1, wire.FU2, wire.FU4, wire.FU8:
		xs := it.Uints()
		v := make([]interface{}, len(xs))
		for i, x := range xs {
			v[i] = x
			if style == 1 {
				switch it.F {
				case wire.FU1:
					v[i] = uint8(x)
				case wire.FU2:
					v[i] = uint16(x)
				case wire.FU4:
					v[i] = uint32(x)
				}
			} else if style == 2 {
				v[i] = uint(x)
			}
		}
		return ast.NewUintNode(wire.Width(it.F), v...)
	case wire.FF4, wire.FF8:
		xs := it.Floats()
		v := make([]interface{}, len(xs))
		for i, x := range xs {
			v[i] = x
			if style == 1 && it.F == wire.FF4 {
				v[i] = float32(x)
			}
		}
		return ast.NewFloatNode(wire.Width(it.F), v...)
	}
	panic("toNode")
}

var fmtByType = func() map[string]int {
	m := map[string]int{"list": wire.FL, "ascii": wire.FA, "binary": wire.FB, "boolean": wire.FBOOL}
	for _, f := range wire.AllFormats {
		if _, dup := m["x"]; !dup && wire.Width(f) > 0 && f != wire.FA && f != wire.FB && f != wire.FBOOL {
			n := wire.Name(f)
			m[string(n[0]|0x20)+n[1:]] = f
		}
	}
	return m
}()

// fromNode reads an item of the implementation through its public methods.
// An empty item node gives nil.
func fromNode(n ast.ItemNode) (*wire.Item, error) {
	if n == nil {
		return nil, fmt.Errorf("nil node")
	}
	t := n.Type()
	if t == "empty" {
		return nil, nil
	}
	f, ok := fmtByType[t]
	if !ok {
		return nil, fmt.Errorf("unknown type %q", t)
	}
	it := &wire.Item{F: f}
	switch v := n.Values().(type) {
	case []ast.ItemNode:
		for _, c := range v {
			ci, err := fromNode(c)
			if err != nil {
				return nil, err
			}
			it.L = append(it.L, ci)
		}
	case string:
		it.Data = []byte(v)
	case []int:
		for _, x := range v {
			if x < 0 || x > 255 {
				return nil, fmt.Errorf("binary value %d", x)
			}
			it.Data = append(it.Data, byte(x))
		}
	case []bool:
		it.Data = wire.Bool(v...).Data
	case []int64:
		it.Data = wire.I(wire.Width(f), v...).Data
		for i, y := range (&wire.Item{F: f, Data: it.Data}).Ints() {
			if y != v[i] {
				return nil, fmt.Errorf("%s value %d", t, v[i])
			}
		}
	case []uint64:
		it.Data = wire.U(wire.Width(f), v...).Data
		for i, y := range (&wire.Item{F: f, Data: it.Data}).Uints() {
			if y != v[i] {
				return nil, fmt.Errorf("%s value %d", t, v[i])
			}
		}
	case []float64:
		it.Data = wire.Fl(wire.Width(f), v...).Data
	default:
		return nil, fmt.Errorf("type %s has values %T", t, v)
	}
	return it, nil
}

// msgItem reads the item of a data message.
func msgItem(m *ast.DataMessage) (*wire.Item, error) {
	n, err := m.Get()
	if err != nil {
		return nil, err
	}
	return fromNode(n)
}

// canonBool maps nonzero booleans to 1.
func canonBool(it *wire.Item) *wire.Item {
	if it == nil {
		return nil
	}
	o := &wire.Item{F: it.F, Data: append([]byte(nil), it.Data...)}
	if it.F == wire.FBOOL {
		for i, b := range o.Data {
			if b != 0 {
				o.Data[i] = 1
			}
		}
	}
	for _, c := range it.L {
		o.L = append(o.L, canonBool(c))
	}
	return o
}
