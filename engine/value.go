package main

// Run-time values of the symbolic interpreter.

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, *StrVal, *Value (pointer), *SymPtr, *DataPtr, *Struct, *Array,
// SliceVal, Iface, *SymIface, *Closure, *MapVal, FloatVal, Tuple, *rangeIter.
type Value interface{}

type StrVal struct {
	s      string  // concrete contents when b == nil
	b      []*Term // symbolic contents
	opaque bool    // contents unknown (error messages): may be carried about, not inspected
	seg    *segs   // of a long symbolic string: where it is concrete
	off    int     // of b in seg
}

// segs says where a long string is concrete, so that its parts are made without looking at every byte.
type segs struct {
	conc        string // the bytes; 0 where symbolic
	first, last int    // symbolic bytes
}

func segsOf(b []*Term) *segs {
	g := &segs{first: -1}
	bs := make([]byte, len(b))
	for i, t := range b {
		if t.op == OpConst {
			bs[i] = byte(t.val)
			continue
		}
		if g.first < 0 {
			g.first = i
		}
		g.last = i
	}
	g.conc = string(bs)
	return g
}

func (s *StrVal) length() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

type Struct struct{ f []Value }
type Array struct{ e []Value }

type SliceVal struct{ e []Value }

type Iface struct {
	t types.Type
	v Value
}

// SymIface is an interface value that is nil iff isNil.
type SymIface struct {
	isNil *Term
	non   Iface
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	bi  *ssa.Builtin
}

type MapVal struct {
	keys  []Value
	vals  []Value
	live  []bool
	index map[string]int // concrete keys
	n     int
}

// FloatVal is a floating-point value known by its bits; src is the width of bits and w the
// width of the value (w == 64, src == 32: a widened float32).
type FloatVal struct {
	bits *Term
	src  uint8
	w    uint8
}

func (f FloatVal) concrete() (float64, bool) {
	if !f.bits.isK() {
		return 0, false
	}
	if f.src == 32 {
		return float64(math.Float32frombits(uint32(f.bits.val))), true
	}
	return math.Float64frombits(f.bits.val), true
}

type Tuple []Value

// SymPtr is the address of element idx (symbolic, in range) of e.
type SymPtr struct {
	e   []Value
	idx *Term
}

// DataPtr is the result of unsafe.SliceData / unsafe.StringData.
type DataPtr struct {
	sl  []Value
	str *StrVal
}

type rangeIter struct {
	m   *MapVal
	s   *StrVal
	pos int
}

// goPanic is a panic of the interpreted program.
type goPanic struct {
	v   Value // Iface
	msg string
	pos string
}

// abort ends a path because of the engine (unsupported construct, budget...).
type abort struct {
	kind string // "unsupported", "assume", "budget", "time", "exit"
	msg  string
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic(fmt.Sprintf("deref %s", t))
}

func basicWidth(b *types.Basic) (w uint8, signed bool, ok bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case *Struct:
		n := &Struct{f: make([]Value, len(v.f))}
		for i, x := range v.f {
			switch x.(type) {
			case *Struct, *Array:
				n.f[i] = copyVal(x)
			default:
				n.f[i] = x
			}
		}
		return n
	case *Array:
		n := &Array{e: make([]Value, len(v.e))}
		for i, x := range v.e {
			switch x.(type) {
			case *Struct, *Array:
				n.e[i] = copyVal(x)
			default:
				n.e[i] = x
			}
		}
		return n
	}
	return v
}
