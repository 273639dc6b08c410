package main

// Hash-consed bit-vector / boolean terms with light simplification.

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLshr
	OpAshr
	OpZext
	OpSext
	OpExtract // low w bits starting at bit val
	// IEEE floats, as their bits; a NaN result is the canonical one
	OpFEq
	OpFLt
	OpFLe
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFRnd // to an integer; val: 0 to zero, 1 down, 2 up, 3 away from zero if half, 4 even if half
	OpFtoF // to the other width
	OpStoF // from a signed integer
	OpUtoF // from an unsigned integer
	OpFtoS // to a signed integer, which must be in range
)

// floats reports whether a term contains float operations.
func (t *Term) floats() bool { return t.fp }

var opName = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpIte: "ite", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUdiv: "bvudiv", OpUrem: "bvurem", OpSdiv: "bvsdiv", OpSrem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr"}

// Term: w==0 means Bool.
type Term struct {
	op      Op
	w       uint8
	kleaves uint16 // >0: an ite-tree with only constant leaves, this many of them
	id      uint32
	val     uint64
	a, b, c *Term
	vars    []uint32 // sorted ids of variables
	hi      uint64   // unsigned upper bound (bit-vectors)
	fp      bool
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c uint32
}

type Ctx struct {
	table   map[termKey]*Term
	consts  map[uint64]*Term // keyed by w<<? only for values not in small
	bigc    map[termKey]*Term
	pos     [256][]*Term
	small   [65][]*Term
	nextID  uint32
	vars    []*Term
	varName []string
	varKey  []uint32 // creation index << 8 | width
	True    *Term
	False   *Term
	canonOf map[uint32]*Term
	canonTT map[ttKey]*Term
}

func NewCtx() *Ctx {
	c := &Ctx{}
	c.reset()
	return c
}

func (c *Ctx) reset() {
	c.table = make(map[termKey]*Term, 1<<14)
	c.bigc = make(map[termKey]*Term)
	c.canonOf = map[uint32]*Term{}
	c.canonTT = map[ttKey]*Term{}
	c.nextID = 1
	c.vars = nil
	c.varName = nil
	c.varKey = nil
	for i := range c.small {
		c.small[i] = nil
	}
	c.pos = [256][]*Term{}
	c.False = c.K(0, 0)
	c.True = c.K(0, 1)
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

// K makes a constant.
func (c *Ctx) K(w uint8, v uint64) *Term {
	v &= mask(w)
	if v < 512 {
		s := c.small[w]
		if s == nil {
			s = make([]*Term, 512)
			c.small[w] = s
		}
		if t := s[v]; t != nil {
			return t
		}
		t := &Term{op: OpConst, w: w, val: v, id: c.nextID, kleaves: 1, hi: v}
		c.nextID++
		s[v] = t
		return t
	}
	if w == 64 && v < 1<<18 { // positions in long strings
		if c.pos[v>>10] == nil {
			c.pos[v>>10] = make([]*Term, 1<<10)
		}
		p := &c.pos[v>>10][v&1023]
		if *p == nil {
			*p = &Term{op: OpConst, w: w, val: v, id: c.nextID, kleaves: 1, hi: v}
			c.nextID++
		}
		return *p
	}
	k := termKey{op: OpConst, w: w, val: v}
	if t := c.bigc[k]; t != nil {
		return t
	}
	t := &Term{op: OpConst, w: w, val: v, id: c.nextID, kleaves: 1, hi: v}
	c.nextID++
	c.bigc[k] = t
	return t
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Var(w uint8, idx int) *Term {
	// variables are keyed by (creation index, width) so that they are shared across paths
	k := termKey{op: OpVar, w: w, val: uint64(idx)}
	if t := c.table[k]; t != nil {
		return t
	}
	t := &Term{op: OpVar, w: w, val: uint64(len(c.vars)), id: c.nextID, hi: mask(w)}
	c.nextID++
	t.vars = []uint32{uint32(t.val)}
	c.vars = append(c.vars, t)
	c.varKey = append(c.varKey, uint32(idx)<<8|uint32(w))
	c.varName = append(c.varName, fmt.Sprintf("v%d_%d", idx, w))
	c.table[k] = t
	return t
}

func unionVars(a, b []uint32) []uint32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset checks to share
	i, j := 0, 0
	var out []uint32
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

func (c *Ctx) mk(op Op, w uint8, val uint64, a, b, d *Term) *Term {
	k := termKey{op: op, w: w, val: val}
	if a != nil {
		k.a = a.id
	}
	if b != nil {
		k.b = b.id
	}
	if d != nil {
		k.c = d.id
	}
	if t := c.table[k]; t != nil {
		return t
	}
	t := &Term{op: op, w: w, val: val, a: a, b: b, c: d, id: c.nextID, hi: mask(w)}
	c.nextID++
	t.fp = op >= OpFEq || a != nil && a.fp || b != nil && b.fp || d != nil && d.fp
	if a != nil {
		t.vars = a.vars
	}
	if b != nil {
		t.vars = unionVars(t.vars, b.vars)
	}
	if d != nil {
		t.vars = unionVars(t.vars, d.vars)
	}
	switch op {
	case OpIte:
		if b.kleaves > 0 && d.kleaves > 0 && int(b.kleaves)+int(d.kleaves) < 400 {
			t.kleaves = b.kleaves + d.kleaves
		}
		t.hi = max(b.hi, d.hi)
	case OpZext:
		t.hi = a.hi
	case OpBAnd:
		t.hi = min(a.hi, b.hi)
	case OpBOr, OpBXor:
		m := a.hi | b.hi
		if m != 0 {
			n := bits.Len64(m)
			t.hi = mask(uint8(n))
			if n == 0 {
				t.hi = 0
			}
		}
	case OpLshr:
		if b.op == OpConst && b.val < 64 {
			t.hi = a.hi >> b.val
		}
	case OpShl:
		if b.op == OpConst && b.val < 64 && a.hi <= mask(w)>>b.val {
			t.hi = a.hi << b.val
		}
	case OpAdd:
		if s := a.hi + b.hi; s >= a.hi && s <= mask(w) {
			t.hi = s
		}
	case OpExtract:
		if val == 0 && a.hi <= mask(w) {
			t.hi = a.hi
		}
	case OpUrem:
		if b.op == OpConst && b.val > 0 {
			t.hi = min(a.hi, b.val-1)
		}
	case OpUdiv:
		if b.op == OpConst && b.val > 0 {
			t.hi = a.hi / b.val
		}
	}
	c.table[k] = t
	return t
}

func (t *Term) isK() bool    { return t.op == OpConst }
func (t *Term) isTrue() bool { return t.op == OpConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool {
	return t.op == OpConst && t.w == 0 && t.val == 0
}

func (c *Ctx) Not(a *Term) *Term {
	if a.isK() {
		return c.Bool(a.val == 0)
	}
	if a.op == OpNot {
		return a.a
	}
	return c.mk(OpNot, 0, 0, a, nil, nil)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.isK() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isK() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpAnd, 0, 0, a, b, nil)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.isK() {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.isK() {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpOr, 0, 0, a, b, nil)
}

// Ite works for bools too.
func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.isK() {
		if g.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if g.op == OpNot {
		return c.Ite(g.a, b, a)
	}
	if a.w == 0 {
		if a.isK() && b.isK() {
			if a.val == 1 {
				return g
			}
			return c.Not(g)
		}
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
	}
	if a.op == OpIte && a.a == g {
		a = a.b
	}
	if b.op == OpIte && b.a == g {
		b = b.c
	}
	if a == b {
		return a
	}
	return c.mk(OpIte, a.w, 0, g, a, b)
}

// mapLeaves pushes a function of constants into an ite-tree with constant leaves.
func (c *Ctx) mapLeaves(t *Term, f func(v uint64) *Term, memo map[uint32]*Term) *Term {
	if t.isK() {
		return f(t.val)
	}
	if r := memo[t.id]; r != nil {
		return r
	}
	r := c.Ite(t.a, c.mapLeaves(t.b, f, memo), c.mapLeaves(t.c, f, memo))
	memo[t.id] = r
	return r
}

func (c *Ctx) leafMap(t *Term, f func(v uint64) *Term) *Term {
	return c.mapLeaves(t, f, map[uint32]*Term{})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.isK() && b.isK() {
		return c.Bool(a.val == b.val)
	}
	if a.isK() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isK() {
			if b.val == 1 {
				return a
			}
			return c.Not(a)
		}
	} else if b.isK() {
		if b.val > a.hi {
			return c.False
		}
		switch {
		case a.op == OpZext:
			return c.Eq(a.a, c.K(a.a.w, b.val))
		case a.op == OpSext:
			low := b.val & mask(a.a.w)
			if uint64(sx(low, a.a.w))&mask(a.w) != b.val {
				return c.False
			}
			return c.Eq(a.a, c.K(a.a.w, low))
		case a.kleaves > 0 && a.kleaves <= 300:
			v := b.val
			return c.leafMap(a, func(x uint64) *Term { return c.Bool(x == v) })
		case a.op == OpAdd && a.b.isK():
			return c.Eq(a.a, c.K(a.w, b.val-a.b.val))
		case a.op == OpIte && (a.b.isK() || a.c.isK()):
			return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
		}
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if a.id > b.id && !b.isK() {
		a, b = b, a
	}
	return c.mk(OpEq, 0, 0, a, b, nil)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.isK() && b.isK() {
		return c.Bool(a.val < b.val)
	}
	if b.isK() {
		if b.val == 0 {
			return c.False
		}
		if a.hi < b.val {
			return c.True
		}
		if a.op == OpZext {
			return c.Ult(a.a, c.K(a.a.w, b.val))
		}
		if a.kleaves > 0 {
			v := b.val
			return c.leafMap(a, func(x uint64) *Term { return c.Bool(x < v) })
		}
		if a.op == OpIte && (a.b.isK() || a.c.isK()) {
			return c.Ite(a.a, c.Ult(a.b, b), c.Ult(a.c, b))
		}
	}
	if a.isK() {
		if a.val >= b.hi {
			return c.False
		}
		if b.op == OpZext {
			return c.Ult(c.K(b.a.w, a.val), b.a)
		}
		if b.kleaves > 0 {
			v := a.val
			return c.leafMap(b, func(x uint64) *Term { return c.Bool(v < x) })
		}
		if b.op == OpIte && (b.b.isK() || b.c.isK()) {
			return c.Ite(b.a, c.Ult(a, b.b), c.Ult(a, b.c))
		}
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	return c.mk(OpUlt, 0, 0, a, b, nil)
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func nonneg(t *Term) bool { return t.hi <= mask(t.w)>>1 }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.isK() && b.isK() {
		return c.Bool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return c.Ult(a, b)
	}
	if b.isK() && nonneg(a) && !nonneg(b) {
		return c.False
	}
	if a.isK() && nonneg(b) && !nonneg(a) {
		return c.True
	}
	if b.isK() && a.kleaves > 0 {
		v := sx(b.val, b.w)
		w := a.w
		return c.leafMap(a, func(x uint64) *Term { return c.Bool(sx(x, w) < v) })
	}
	if a.isK() && b.kleaves > 0 {
		v := sx(a.val, a.w)
		w := b.w
		return c.leafMap(b, func(x uint64) *Term { return c.Bool(v < sx(x, w)) })
	}
	if b.isK() && a.op == OpIte && (a.b.isK() || a.c.isK()) {
		return c.Ite(a.a, c.Slt(a.b, b), c.Slt(a.c, b))
	}
	if a.isK() && b.op == OpIte && (b.b.isK() || b.c.isK()) {
		return c.Ite(b.a, c.Slt(a, b.b), c.Slt(a, b.c))
	}
	return c.mk(OpSlt, 0, 0, a, b, nil)
}

func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func evalBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m, true
	case OpSub:
		return (x - y) & m, true
	case OpMul:
		return (x * y) & m, true
	case OpUdiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OpUrem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpSdiv:
		if y == 0 {
			return 0, false
		}
		a, b := sx(x, w), sx(y, w)
		if b == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/b) & m, true
	case OpSrem:
		if y == 0 {
			return 0, false
		}
		a, b := sx(x, w), sx(y, w)
		if b == -1 {
			return 0, true
		}
		return uint64(a%b) & m, true
	case OpBAnd:
		return x & y, true
	case OpBOr:
		return x | y, true
	case OpBXor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OpLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m, true
	}
	return 0, false
}

func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isK() && b.isK() {
		if v, ok := evalBin(op, w, a.val, b.val); ok {
			return c.K(w, v)
		}
	}
	if a.isK() && !b.isK() {
		switch op {
		case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
			a, b = b, a
		}
	}
	if b.isK() {
		switch op {
		case OpAdd, OpSub, OpBOr, OpBXor, OpShl, OpLshr, OpAshr:
			if b.val == 0 {
				return a
			}
		}
		switch op {
		case OpBAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			// mask covers all possible bits
			if b.val&(b.val+1) == 0 && a.hi <= b.val {
				return a
			}
		case OpMul:
			if b.val == 1 {
				return a
			}
			if b.val == 0 {
				return b
			}
		case OpSub:
			return c.Bin(OpAdd, a, c.K(w, -b.val))
		case OpAdd:
			if a.op == OpAdd && a.b.isK() {
				return c.Bin(OpAdd, a.a, c.K(w, a.b.val+b.val))
			}
		case OpUdiv, OpSdiv:
			if b.val == 1 {
				return a
			}
		case OpUrem:
			if b.val != 0 && a.hi < b.val {
				return a
			}
		case OpLshr:
			if b.val >= uint64(w) {
				return c.K(w, 0)
			}
		}
		if a.kleaves > 0 && a.op == OpIte && a.kleaves <= 300 && b.val != 0 {
			v := b.val
			return c.leafMap(a, func(x uint64) *Term { r, _ := evalBin(op, w, x, v); return c.K(w, r) })
		}
	}
	if a.isK() && b.kleaves > 0 && b.op == OpIte {
		switch op {
		case OpSub, OpShl, OpLshr:
			v := a.val
			return c.leafMap(b, func(x uint64) *Term { r, _ := evalBin(op, w, v, x); return c.K(w, r) })
		}
	}
	if a.kleaves > 0 && b.kleaves > 0 && op != OpUdiv && op != OpUrem && op != OpSdiv && op != OpSrem && int(a.kleaves)*int(b.kleaves) <= 64 {
		return c.leafMap(a, func(x uint64) *Term {
			return c.leafMap(b, func(y uint64) *Term { r, _ := evalBin(op, w, x, y); return c.K(w, r) })
		})
	}
	if a == b {
		switch op {
		case OpSub, OpBXor:
			return c.K(w, 0)
		case OpBAnd, OpBOr:
			return a
		}
	}
	// signed division of provably non-negative operands
	if (op == OpSdiv || op == OpSrem) && nonneg(a) && nonneg(b) {
		if op == OpSdiv {
			return c.Bin(OpUdiv, a, b)
		}
		return c.Bin(OpUrem, a, b)
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if !b.isK() && a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(op, w, 0, a, b, nil)
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.isK() {
		return c.K(a.w, ^a.val)
	}
	return c.mk(OpBNot, a.w, 0, a, nil, nil)
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.isK() {
		return c.K(a.w, -a.val)
	}
	return c.mk(OpNeg, a.w, 0, a, nil, nil)
}

func (c *Ctx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isK() {
		return c.K(w, a.val)
	}
	if a.op == OpZext {
		return c.Zext(a.a, w)
	}
	if a.kleaves > 0 {
		return c.leafMap(a, func(x uint64) *Term { return c.K(w, x) })
	}
	return c.mk(OpZext, w, 0, a, nil, nil)
}

func (c *Ctx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isK() {
		return c.K(w, uint64(sx(a.val, a.w)))
	}
	if nonneg(a) {
		return c.Zext(a, w)
	}
	if a.op == OpSext {
		return c.Sext(a.a, w)
	}
	if a.kleaves > 0 {
		aw := a.w
		return c.leafMap(a, func(x uint64) *Term { return c.K(w, uint64(sx(x, aw))) })
	}
	return c.mk(OpSext, w, 0, a, nil, nil)
}

// Trunc keeps the low w bits.
func (c *Ctx) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isK() {
		return c.K(w, a.val)
	}
	if a.op == OpZext || a.op == OpSext {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Trunc(a.a, w)
		}
		if a.op == OpZext {
			return c.Zext(a.a, w)
		}
		return c.Sext(a.a, w)
	}
	if a.kleaves > 0 {
		return c.leafMap(a, func(x uint64) *Term { return c.K(w, x) })
	}
	switch a.op {
	case OpBAnd, OpBOr, OpBXor, OpAdd, OpSub, OpMul:
		// low bits only depend on low bits
		return c.Bin(a.op, c.Trunc(a.a, w), c.Trunc(a.b, w))
	case OpIte:
		return c.Ite(a.a, c.Trunc(a.b, w), c.Trunc(a.c, w))
	}
	return c.mk(OpExtract, w, 0, a, nil, nil)
}

// eval evaluates t under an assignment (var index -> value).
func (c *Ctx) eval(t *Term, m map[uint32]uint64, memo map[uint32]uint64) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.op == OpVar {
		return m[uint32(t.val)] & mask(t.w)
	}
	if v, ok := memo[t.id]; ok {
		return v
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpNot:
		r = 1 - c.eval(t.a, m, memo)
	case OpAnd:
		r = c.eval(t.a, m, memo)
		if r == 1 {
			r = c.eval(t.b, m, memo)
		}
	case OpOr:
		r = c.eval(t.a, m, memo)
		if r == 0 {
			r = c.eval(t.b, m, memo)
		}
	case OpIte:
		if c.eval(t.a, m, memo) == 1 {
			r = c.eval(t.b, m, memo)
		} else {
			r = c.eval(t.c, m, memo)
		}
	case OpEq:
		r = b2u(c.eval(t.a, m, memo) == c.eval(t.b, m, memo))
	case OpUlt:
		r = b2u(c.eval(t.a, m, memo) < c.eval(t.b, m, memo))
	case OpSlt:
		r = b2u(sx(c.eval(t.a, m, memo), t.a.w) < sx(c.eval(t.b, m, memo), t.b.w))
	case OpBNot:
		r = ^c.eval(t.a, m, memo) & mask(t.w)
	case OpNeg:
		r = -c.eval(t.a, m, memo) & mask(t.w)
	case OpZext:
		r = c.eval(t.a, m, memo)
	case OpSext:
		r = uint64(sx(c.eval(t.a, m, memo), t.a.w)) & mask(t.w)
	case OpExtract:
		r = (c.eval(t.a, m, memo) >> t.val) & mask(t.w)
	case OpFRnd, OpFtoF, OpStoF, OpUtoF, OpFtoS:
		r = evalF(t.op, t.w, t.val, t.a.w, c.eval(t.a, m, memo), 0)
	case OpFEq, OpFLt, OpFLe, OpFAdd, OpFSub, OpFMul, OpFDiv:
		r = evalF(t.op, t.w, t.val, t.a.w, c.eval(t.a, m, memo), c.eval(t.b, m, memo))
	default:
		x, y := c.eval(t.a, m, memo), c.eval(t.b, m, memo)
		v, ok := evalBin(t.op, t.w, x, y)
		if !ok {
			if t.op == OpSdiv {
				v = mask(t.w)
				if sx(x, t.w) < 0 {
					v = 1
				}
			} else {
				v = x
			}
		}
		r = v
	}
	memo[t.id] = r
	return r
}

// smt prints a term as SMT-LIB2 with let-bound shared sub-terms.
// define writes definitions of t and its subterms which the solver has not seen, and returns t's
// name. Definitions are global: a term is sent once in the life of a solver process.
func (c *Ctx) define(t *Term, seen map[uint32]bool, sb *strings.Builder) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.val, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	case OpVar:
		return c.varName[t.val]
	}
	name := "t" + strconv.Itoa(int(t.id))
	if seen[t.id] {
		return name
	}
	var b strings.Builder
	if t.op >= OpFEq {
		x := c.define(t.a, seen, sb)
		y := ""
		if t.b != nil {
			y = c.define(t.b, seen, sb)
		}
		seen[t.id] = true
		sort := "(_ BitVec " + strconv.Itoa(int(t.w)) + ")"
		if t.w == 0 {
			sort = "Bool"
		}
		sb.WriteString("(define-fun " + name + " () " + sort + " " + defineF(t, x, y) + ")\n")
		return name
	}
	switch t.op {
	case OpZext:
		fmt.Fprintf(&b, "((_ zero_extend %d)", t.w-t.a.w)
	case OpSext:
		fmt.Fprintf(&b, "((_ sign_extend %d)", t.w-t.a.w)
	case OpExtract:
		fmt.Fprintf(&b, "((_ extract %d %d)", t.val+uint64(t.w)-1, t.val)
	default:
		b.WriteString("(" + opName[t.op])
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			b.WriteByte(' ')
			b.WriteString(c.define(x, seen, sb))
		}
	}
	b.WriteByte(')')
	seen[t.id] = true
	sb.WriteString("(define-fun " + name + " () ")
	if t.w == 0 {
		sb.WriteString("Bool ")
	} else {
		sb.WriteString("(_ BitVec " + strconv.Itoa(int(t.w)) + ") ")
	}
	sb.WriteString(b.String())
	sb.WriteString(")\n")
	return name
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}
