package ex

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"verif/engine/alg"
	"verif/engine/smt"
)

// Most is the largest of some numbers, not yet decided which. Comparisons
// with it are comparisons with each; any other use decides.
type Most struct {
	xs []Value
	v  Value
}

func sameNum(x, y Value) bool {
	switch a := x.(type) {
	case float64:
		b, ok := y.(float64)
		return ok && a == b
	case *alg.Num:
		b, ok := y.(*alg.Num)
		return ok && (a == b || a.Key() == b.Key())
	case *Most:
		return x == y
	}
	return false
}

func (c *Ctx) nonNegative(v Value) bool {
	switch x := v.(type) {
	case float64:
		return x >= 0
	case *alg.Num:
		return c.nonNegMono(x)
	case *Most:
		for _, y := range x.xs {
			if c.nonNegative(y) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) most(a, b Value) Value {
	var xs []Value
	var add func(v Value)
	add = func(v Value) {
		if m, ok := v.(*Most); ok {
			if m.v != nil {
				add(m.v)
				return
			}
			for _, x := range m.xs {
				add(x)
			}
			return
		}
		for _, x := range xs {
			if sameNum(x, v) {
				return
			}
		}
		xs = append(xs, v)
	}
	add(a)
	add(b)
	// a lower bound of the rest says nothing
	for i, x := range xs {
		if f, ok := x.(float64); ok && f <= 0 && len(xs) > 1 {
			for j, y := range xs {
				if i != j && c.nonNegative(y) {
					xs = append(append([]Value{}, xs[:i]...), xs[i+1:]...)
					break
				}
			}
			break
		}
	}
	if len(xs) == 1 {
		return xs[0]
	}
	return &Most{xs: xs}
}

func (c *Ctx) force(m *Most) Value {
	if m.v == nil {
		r := m.xs[0]
		for _, x := range m.xs[1:] {
			if c.truth(c.fcmp(token.GTR, x, r)) {
				r = x
			}
		}
		m.v = r
	}
	return m.v
}

// plain decides which number a maximum is.
func (c *Ctx) plain(v Value) Value {
	if m, ok := v.(*Most); ok {
		return c.force(m)
	}
	return v
}

// mapMost applies an increasing function.
func (c *Ctx) mapMost(m *Most, f func(Value) Value) Value {
	if m.v != nil {
		return f(m.v)
	}
	var r Value
	for i, x := range m.xs {
		if i == 0 {
			r = f(x)
		} else {
			r = c.most(r, f(x))
		}
	}
	return r
}

func flip(op token.Token) token.Token {
	switch op {
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	}
	return op
}

// mostCmp compares a maximum with y.
func (c *Ctx) mostCmp(op token.Token, m *Most, y Value) Value {
	if m.v != nil {
		return c.fcmp(op, m.v, y)
	}
	each := func(op token.Token) []*smt.Term {
		var ts []*smt.Term
		for _, x := range m.xs {
			ts = append(ts, c.boolTerm(c.fcmp(op, x, y)))
		}
		return ts
	}
	switch op {
	case token.GTR, token.GEQ:
		return c.boolVal(c.T.Or(each(op)...))
	case token.LSS, token.LEQ:
		return c.boolVal(c.T.And(each(op)...))
	}
	var t *smt.Term
	all := true
	for _, x := range m.xs {
		all = all && c.nonNegative(x)
	}
	if f, ok := y.(float64); ok && f == 0 && all {
		t = c.T.And(each(token.EQL)...)
	} else {
		t = c.T.And(c.T.And(each(token.LEQ)...), c.T.Or(each(token.GEQ)...))
	}
	if op == token.NEQ {
		t = c.T.Not(t)
	}
	return c.boolVal(t)
}

// maximum recognises "if x > m { m = x }" and joins both ways into one path.
// It sets the variables of the joint block and returns it.
func (c *Ctx) maximum(fr *frame, b *block, cur int, in *ssa.If) (int, bool) {
	cmp, ok := in.Cond.(*ssa.BinOp)
	if !ok || c.Mode != Real || !isFloat(cmp.X.Type()) {
		return 0, false
	}
	then, join := in.Block().Succs[0], in.Block().Succs[1]
	if then == join || len(then.Preds) != 1 || len(then.Succs) != 1 || then.Succs[0] != join || cmp.Block() != in.Block() {
		return 0, false
	}
	var at *inst
	for i := range b.ins {
		if b.ins[i].in == ssa.Instruction(cmp) {
			at = &b.ins[i]
		}
	}
	if at == nil {
		return 0, false
	}
	big, small := c.get(fr, &at.ops[0]), c.get(fr, &at.ops[1])
	switch cmp.Op {
	case token.GTR, token.GEQ:
	case token.LSS, token.LEQ:
		big, small = small, big
	default:
		return 0, false
	}
	tb, jb := &fr.fi.blocks[then.Index], &fr.fi.blocks[join.Index]
	if jb.phis == 0 || tb.phis > 0 {
		return 0, false
	}
	for i := range tb.ins {
		switch x := tb.ins[i].in.(type) {
		case *ssa.Jump, *ssa.IndexAddr, *ssa.FieldAddr:
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return 0, false
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f == nil || f.String() != "math.Abs" {
				return 0, false
			}
		default:
			return 0, false
		}
	}
	if !c.speculate(fr, tb) {
		return 0, false
	}
	vals := make([]Value, jb.phis)
	found := false
	for i := range vals {
		ops := jb.ins[i].ops
		va, vb := c.get(fr, &ops[jb.preds[cur]]), c.get(fr, &ops[jb.preds[then.Index]])
		switch {
		case isFloat(jb.ins[i].in.(ssa.Value).Type()):
			switch {
			case sameNum(va, vb):
				vals[i] = va
			case sameNum(vb, big) && sameNum(va, small):
				vals[i] = c.most(va, vb)
				found = true
			default:
				return 0, false
			}
		default:
			if !simple(jb.ins[i].in.(ssa.Value).Type()) || va != vb {
				return 0, false
			}
			vals[i] = va
		}
	}
	if !found {
		return 0, false
	}
	for i, v := range vals {
		fr.regs[jb.ins[i].dst] = v
	}
	return join.Index, true
}

// simple types have comparable values.
func simple(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Basic, *types.Pointer:
		return true
	}
	return false
}

// speculate runs a block without effects.
func (c *Ctx) speculate(fr *frame, b *block) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, tp := r.(targetPanic); !tp {
				panic(r)
			}
			ok = false
		}
	}()
	for i := range b.ins {
		if _, jump := b.ins[i].in.(*ssa.Jump); !jump {
			c.step(fr, &b.ins[i])
		}
	}
	return true
}
