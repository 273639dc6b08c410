package main

// Floats: IEEE 754 binary32 and binary64 values are terms of their bits; the solver decides them in
// its theory of floating-point numbers.

import (
	"fmt"
	"math"
)

const (
	nan32 = 0x7fc00000
	nan64 = 0x7ff8000000000000
)

func fromBits(w uint8, v uint64) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func toBits(w uint8, f float64) uint64 {
	if f != f {
		if w == 32 {
			return nan32
		}
		return nan64
	}
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func evalF(op Op, w uint8, mode uint64, aw uint8, x, y uint64) uint64 {
	b := func(v bool) uint64 {
		if v {
			return 1
		}
		return 0
	}
	switch op {
	case OpStoF:
		if w == 32 {
			return uint64(math.Float32bits(float32(sx(x, aw))))
		}
		return math.Float64bits(float64(sx(x, aw)))
	case OpUtoF:
		if w == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	}
	f, g := fromBits(aw, x), fromBits(aw, y)
	arith := func(r64 float64, r32 float32) uint64 {
		if w == 32 {
			return toBits(32, float64(r32))
		}
		return toBits(64, r64)
	}
	switch op {
	case OpFEq:
		return b(f == g)
	case OpFLt:
		return b(f < g)
	case OpFLe:
		return b(f <= g)
	case OpFAdd:
		return arith(f+g, float32(f)+float32(g))
	case OpFSub:
		return arith(f-g, float32(f)-float32(g))
	case OpFMul:
		return arith(f*g, float32(f)*float32(g))
	case OpFDiv:
		return arith(f/g, float32(f)/float32(g))
	case OpFRnd:
		switch mode {
		case 0:
			f = math.Trunc(f)
		case 1:
			f = math.Floor(f)
		case 2:
			f = math.Ceil(f)
		case 3:
			f = math.Round(f)
		case 4:
			f = math.RoundToEven(f)
		}
		return toBits(w, f)
	case OpFtoF:
		return toBits(w, f)
	case OpFtoS:
		return uint64(int64(f)) & mask(w)
	}
	panic("evalF")
}

func defineF(t *Term, x, y string) string {
	fp := func(w uint8, s string) string {
		if w == 32 {
			return "((_ to_fp 8 24) " + s + ")"
		}
		return "((_ to_fp 11 53) " + s + ")"
	}
	sort := func(w uint8) string {
		if w == 32 {
			return "8 24"
		}
		return "11 53"
	}
	bits := func(s string) string {
		nan := fmt.Sprintf("(_ bv%d 64)", uint64(nan64))
		if t.w == 32 {
			nan = fmt.Sprintf("(_ bv%d 32)", nan32)
		}
		return "(let ((f " + s + ")) (ite (fp.isNaN f) " + nan + " (fp.to_ieee_bv f)))"
	}
	aw := t.a.w
	switch t.op {
	case OpFEq:
		return "(fp.eq " + fp(aw, x) + " " + fp(aw, y) + ")"
	case OpFLt:
		return "(fp.lt " + fp(aw, x) + " " + fp(aw, y) + ")"
	case OpFLe:
		return "(fp.leq " + fp(aw, x) + " " + fp(aw, y) + ")"
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		n := map[Op]string{OpFAdd: "add", OpFSub: "sub", OpFMul: "mul", OpFDiv: "div"}[t.op]
		return bits("(fp." + n + " RNE " + fp(aw, x) + " " + fp(aw, y) + ")")
	case OpFRnd:
		return bits("(fp.roundToIntegral " + []string{"RTZ", "RTN", "RTP", "RNA", "RNE"}[t.val] + " " + fp(aw, x) + ")")
	case OpFtoF:
		return bits("((_ to_fp " + sort(t.w) + ") RNE " + fp(aw, x) + ")")
	case OpStoF:
		return bits("((_ to_fp " + sort(t.w) + ") RNE " + x + ")")
	case OpUtoF:
		return bits("((_ to_fp_unsigned " + sort(t.w) + ") RNE " + x + ")")
	case OpFtoS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, fp(aw, x))
	}
	panic("defineF")
}

// f makes a float operation, folding constants.
func (c *Ctx) f(op Op, w uint8, mode uint64, a, b *Term) *Term {
	if a.isK() && (b == nil || b.isK()) {
		y := uint64(0)
		if b != nil {
			y = b.val
		}
		return c.K(w, evalF(op, w, mode, a.w, a.val, y))
	}
	return c.mk(op, w, mode, a, b, nil)
}

// at is the bits of a float as one of a width.
func (m *Mach) at(f FloatVal, w uint8) *Term {
	if f.src == w {
		return f.bits
	}
	return m.c.f(OpFtoF, w, 0, f.bits, nil)
}

// pairBits is the bits of two floats at the smaller width that holds both.
func (m *Mach) pairBits(a, b FloatVal) (*Term, *Term) {
	w := a.src
	if b.src > w {
		w = b.src
	}
	return m.at(a, w), m.at(b, w)
}

func (m *Mach) kF(w uint8, f float64) *Term { return m.c.K(w, toBits(w, f)) }

// floatToInt: inside the range of the integer type; what lies outside depends on the machine.
func (m *Mach) floatToInt(f FloatVal, w uint8, signed bool) *Term {
	c := m.c
	lo, hi := -math.Ldexp(1, int(w)-1)-1, math.Ldexp(1, int(w)-1)
	if !signed {
		lo, hi = -1, math.Ldexp(1, int(w))
	}
	x := m.at(f, 64)
	low := c.f(OpFLt, 0, 0, m.kF(64, lo), x)
	if signed && w == 64 {
		low = c.f(OpFLe, 0, 0, m.kF(64, -math.Ldexp(1, 63)), x)
	}
	if !m.branch(c.And(low, c.f(OpFLt, 0, 0, x, m.kF(64, hi)))) {
		unsupported("conversion of a float out of the range of the integer type")
	}
	if w == 64 && !signed {
		big := c.f(OpFLe, 0, 0, m.kF(64, math.Ldexp(1, 63)), x)
		if m.branch(big) {
			return c.Bin(OpBXor, c.f(OpFtoS, 64, 0, c.f(OpFSub, 64, 0, x, m.kF(64, math.Ldexp(1, 63))), nil), c.K(64, 1<<63))
		}
	}
	return c.Trunc(c.f(OpFtoS, 64, 0, x, nil), w)
}

// intText reads a symbolic text as a decimal integer of at most 15 digits; ok=false if it is not
// one. The caller must know that the text has no other form that is a number.
func (m *Mach) intText(s *StrVal) (val *Term, neg, ok bool) {
	c := m.c
	n := s.length()
	i := 0
	if n > 0 && m.branch(c.Eq(s.b[0], c.K(8, '-'))) {
		neg = true
		i = 1
	}
	if n == i || n-i > 15 {
		return nil, false, false
	}
	val = c.K(64, 0)
	for ; i < n; i++ {
		b := s.b[i]
		if !m.branch(c.And(c.Ule(c.K(8, '0'), b), c.Ule(b, c.K(8, '9')))) {
			return nil, false, false
		}
		val = c.Bin(OpAdd, c.Bin(OpMul, val, c.K(64, 10)), c.Bin(OpSub, c.Zext(b, 64), c.K(64, '0')))
	}
	return val, neg, true
}

func floatModels() map[string]intrinsic {
	rnd := func(mode uint64) intrinsic {
		return func(m *Mach, a []Value) Value {
			return FloatVal{m.c.f(OpFRnd, 64, mode, m.at(a[0].(FloatVal), 64), nil), 64, 64}
		}
	}
	return map[string]intrinsic{
		"math.Trunc":       rnd(0),
		"math.Floor":       rnd(1),
		"math.Ceil":        rnd(2),
		"math.Round":       rnd(3),
		"math.RoundToEven": rnd(4),
		"math.Modf": func(m *Mach, a []Value) Value {
			x := m.at(a[0].(FloatVal), 64)
			i := m.c.f(OpFRnd, 64, 0, x, nil)
			// the fraction has the sign of the number; of an infinity it is NaN
			fr := m.c.f(OpFSub, 64, 0, x, i)
			sign := m.c.Bin(OpBAnd, x, m.c.K(64, 1<<63))
			fr = m.c.Ite(m.c.f(OpFEq, 0, 0, fr, m.c.K(64, 0)), sign, fr)
			return Tuple{FloatVal{i, 64, 64}, FloatVal{fr, 64, 64}}
		},
	}
}
