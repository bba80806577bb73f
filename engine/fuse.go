package main

// Short-circuit chains (a || b || c, a && b, switch cases with several values)
// become one decision on the combined condition when it is symbolic, so that a
// chain forks at most once.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type fuseStep struct {
	code []instr
	cond opd
	neg  bool
	or   bool
}

type succ struct {
	from *ssa.BasicBlock
	i    int
}

func (s succ) to() *ssa.BasicBlock { return s.from.Succs[s.i] }

func (s succ) phiEdge(phi *ssa.Phi) ssa.Value {
	to := s.to()
	occ := 0
	for k := 0; k < s.i; k++ {
		if s.from.Succs[k] == to {
			occ++
		}
	}
	for i, p := range to.Preds {
		if p == s.from {
			if occ == 0 {
				return phi.Edges[i]
			}
			occ--
		}
	}
	return nil
}

func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	if ok1 && ok2 && types.Identical(x.Type(), y.Type()) {
		if x.Value == nil || y.Value == nil {
			return x.Value == nil && y.Value == nil
		}
		return x.Value.ExactString() == y.Value.ExactString()
	}
	return false
}

// sameExit: both edges lead to the same block with the same values.
func sameExit(a, b succ) bool {
	if a.to() != b.to() {
		return false
	}
	for _, ins := range a.to().Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if !sameValue(a.phiEdge(phi), b.phiEdge(phi)) {
			return false
		}
	}
	return true
}

func pureInstr(ins ssa.Instruction) bool {
	basic := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0
	}
	switch ins := ins.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.BinOp:
		switch ins.Op {
		case token.QUO, token.REM, token.SHL, token.SHR:
			return false
		}
		if basic(ins.X.Type()) {
			return true
		}
		_, ptr := ins.X.Type().Underlying().(*types.Pointer)
		return ptr && (ins.Op == token.EQL || ins.Op == token.NEQ)
	case *ssa.UnOp:
		return (ins.Op == token.NOT || ins.Op == token.SUB || ins.Op == token.XOR) && basic(ins.X.Type())
	case *ssa.Convert:
		_, _, a := intInfo(ins.X.Type())
		_, _, b := intInfo(ins.Type())
		return a && b
	case *ssa.ChangeType:
		return basic(ins.X.Type())
	case *ssa.Call:
		b, ok := ins.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" {
			return false
		}
		switch ins.Call.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return true
		}
		return basic(ins.Call.Args[0].Type())
	}
	return false
}

// pureBlock: a block reached only from one place that computes a condition and branches on it.
func pureBlock(b *ssa.BasicBlock) (*ssa.If, bool) {
	if len(b.Preds) != 1 || len(b.Instrs) > 8 {
		return nil, false
	}
	n := len(b.Instrs)
	f, ok := b.Instrs[n-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	for _, ins := range b.Instrs[:n-1] {
		if !pureInstr(ins) {
			return nil, false
		}
	}
	return f, true
}

func (c *compiler) ifTerm(b *ssa.BasicBlock, ins *ssa.If) func(fr *Frame) *Edge {
	t, f := succ{b, 0}, succ{b, 1}
	var steps []fuseStep
	step := func(blk *ssa.BasicBlock, cond ssa.Value, or, neg bool) {
		s := fuseStep{cond: c.opd(cond), or: or, neg: neg}
		for _, i := range blk.Instrs[:len(blk.Instrs)-1] {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			s.code = append(s.code, c.instr(i))
		}
		steps = append(steps, s)
	}
	for len(steps) < 64 {
		if blk := f.to(); blk != b {
			if i, ok := pureBlock(blk); ok {
				t2, f2 := succ{blk, 0}, succ{blk, 1}
				if sameExit(t2, t) {
					step(blk, i.Cond, true, false)
					f = f2
					continue
				}
				if sameExit(f2, t) {
					step(blk, i.Cond, true, true)
					f = t2
					continue
				}
			}
		}
		if blk := t.to(); blk != b {
			if i, ok := pureBlock(blk); ok {
				t2, f2 := succ{blk, 0}, succ{blk, 1}
				if sameExit(f2, f) {
					step(blk, i.Cond, false, false)
					t = t2
					continue
				}
				if sameExit(t2, f) {
					step(blk, i.Cond, false, true)
					t = f2
					continue
				}
			}
		}
		break
	}
	cond := c.opd(ins.Cond)
	te := c.edge(t.from, t.to(), t.i)
	fe := c.edge(f.from, f.to(), f.i)
	if len(steps) == 0 {
		return func(fr *Frame) *Edge {
			v := fr.get(&cond)
			if bv, ok := v.(bool); ok {
				if bv {
					return te
				}
				return fe
			}
			if fr.in.branch(v.(*Term)) {
				return te
			}
			return fe
		}
	}
	return func(fr *Frame) *Edge {
		acc := fr.get(&cond)
		in := fr.in
		for k := range steps {
			s := &steps[k]
			if bv, ok := acc.(bool); ok && bv == s.or {
				continue
			}
			for _, i := range s.code {
				i(fr)
			}
			v := fr.get(&s.cond)
			if bv, ok := v.(bool); ok {
				if s.neg {
					bv = !bv
				}
				v = bv
			} else if s.neg {
				v = fromBool(in.tc.Not(v.(*Term)))
			}
			if _, ok := acc.(bool); ok {
				acc = v
				continue
			}
			if s.or {
				acc = fromBool(in.tc.Or(acc.(*Term), in.toBool(v)))
			} else {
				acc = fromBool(in.tc.And(acc.(*Term), in.toBool(v)))
			}
		}
		if bv, ok := acc.(bool); ok {
			if bv {
				return te
			}
			return fe
		}
		if in.branch(acc.(*Term)) {
			return te
		}
		return fe
	}
}
