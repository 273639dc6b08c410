package main

// Short-circuit conditions. A symbolic `a || b` or `a && b` is a chain of blocks which share a
// target; following each separately would fork a path per operand. The chain is evaluated as one
// condition instead, when the blocks in between only compute total, effect-free values.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func basicKind(t types.Type, want types.BasicInfo) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&want != 0
}

// condBlock: block b has no phis, only total effect-free instructions, and ends with an If or Jump.
func condBlock(b *ssa.BasicBlock) bool {
	for i, in := range b.Instrs {
		last := i == len(b.Instrs)-1
		switch in := in.(type) {
		case *ssa.BinOp:
			switch in.Op {
			case token.QUO, token.REM:
				return false
			case token.SHL, token.SHR:
				if !basicKind(in.Y.Type(), types.IsUnsigned) {
					return false
				}
			}
			if !basicKind(in.X.Type(), types.IsInteger|types.IsBoolean) || !basicKind(in.Y.Type(), types.IsInteger|types.IsBoolean) {
				return false
			}
			if in.Op == token.ADD && !basicKind(in.X.Type(), types.IsInteger) {
				return false
			}
		case *ssa.UnOp:
			if in.Op == token.MUL || in.Op == token.ARROW || !basicKind(in.X.Type(), types.IsInteger|types.IsBoolean) {
				return false
			}
		case *ssa.Convert:
			if !basicKind(in.X.Type(), types.IsInteger) || !basicKind(in.Type(), types.IsInteger) {
				return false
			}
		case *ssa.ChangeType:
			if !basicKind(in.X.Type(), types.IsInteger|types.IsBoolean) {
				return false
			}
		case *ssa.Extract, *ssa.DebugRef:
		case *ssa.If, *ssa.Jump:
			return last
		default:
			return false
		}
	}
	return false
}

func predEdge(b *ssa.BasicBlock, prev int) int {
	for i, p := range b.Preds {
		if p.Index == prev {
			return i
		}
	}
	return -1
}

// samePhis: entering block t from p or from q gives its phis the same values.
func (m *Mach) samePhis(fr *frame, t, p, q int) bool {
	sb := fr.f.fn.Blocks[t]
	ep, eq := predEdge(sb, p), predEdge(sb, q)
	for i := range fr.f.blocks[t] {
		ci := &fr.f.blocks[t][i]
		if _, ok := ci.in.(*ssa.Phi); !ok {
			break
		}
		if ep < 0 || eq < 0 {
			return false
		}
		a, b := fr.get(&ci.ops[ep]), fr.get(&ci.ops[eq])
		ta, ok1 := a.(*Term)
		tb, ok2 := b.(*Term)
		if ok1 && ok2 && ta == tb {
			continue
		}
		pa, ok1 := a.(*Value)
		pb, ok2 := b.(*Value)
		if ok1 && ok2 && pa == pb {
			continue
		}
		sa, ok1 := a.(*StrVal)
		sb, ok2 := b.(*StrVal)
		if ok1 && ok2 && sa == sb {
			continue
		}
		if ci.ops[ep].k == 0 && ci.ops[eq].k == 0 && ci.ops[ep].i == ci.ops[eq].i {
			continue
		}
		return false
	}
	return true
}

// runCond evaluates the effect-free block s and returns its terminator.
func (m *Mach) runCond(fr *frame, s int) *cins {
	blk := fr.f.blocks[s]
	for i := range blk {
		ci := &blk[i]
		switch ci.in.(type) {
		case *ssa.If, *ssa.Jump:
			return ci
		case *ssa.DebugRef:
		default:
			fr.regs[ci.dst] = m.eval(fr, ci)
		}
	}
	return nil
}

// mergedIf decides the If which ends block bi with condition c. It returns the block that follows
// and the block it is entered from; phi overrides, if any, have been applied when override is set.
func (m *Mach) mergedIf(fr *frame, bi int, c *Term) (next, from int) {
	f := fr.f
	succs := f.fn.Blocks[bi].Succs
	t, e := succs[0].Index, succs[1].Index
	from = bi
	for n := 0; n < 40 && c.op != OpConst && t != e; n++ {
		merged := false
		for side := 0; side < 2 && !merged; side++ {
			s, o := t, e
			if side == 1 {
				s, o = e, t
			}
			if !f.condOK[s] || s == bi || len(f.fn.Blocks[s].Preds) != 1 {
				continue
			}
			ss := f.fn.Blocks[s].Succs
			if len(ss) != 2 || ss[0] == ss[1] || ss[0].Index != o && ss[1].Index != o {
				continue
			}
			term := m.runCond(fr, s)
			if !m.samePhis(fr, o, from, s) {
				continue
			}
			cs := fr.get(&term.ops[0]).(*Term)
			in := c // entering s
			if side == 1 {
				in = m.c.Not(c)
			}
			y := ss[0].Index
			hit := cs
			if y == o {
				y = ss[1].Index
				hit = m.c.Not(cs)
			}
			c = m.c.canon(m.c.And(in, hit))
			t, e = y, o
			from = s
			merged = true
		}
		if !merged {
			break
		}
	}
	if m.branch(c) {
		return t, from
	}
	return e, from
}
