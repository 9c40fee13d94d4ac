package ex

import (
	"go/token"
	"math"
	"math/big"

	"verif/engine/alg"
	"verif/engine/smt"
)

// sized is a value that is zero or lies, but for its sign, between lo and hi.
type sized struct {
	v      *alg.Num
	lo, hi *big.Rat
}

// size records such a value as an assumption.
func (c *Ctx) size(v Value, lo, hi float64) {
	if c.Mode != Real {
		panic(unsupported("Size outside real mode"))
	}
	if f, ok := v.(float64); ok {
		if a := math.Abs(f); a > hi || a != 0 && a < lo {
			panic(infeasible{})
		}
		return
	}
	le := func(x, y Value) *smt.Term { return c.boolTerm(c.fcmp(token.LEQ, x, y)) }
	c.assume(le(v, hi))
	c.assume(le(-hi, v))
	if lo > 0 {
		zero := c.boolTerm(c.fcmp(token.EQL, v, 0.0))
		c.assume(c.T.Or(zero, le(lo, v), le(v, -lo)))
	}
	x, _ := c.num(v)
	c.sized = append(c.sized, sized{x, new(big.Rat).SetFloat64(lo), new(big.Rat).SetFloat64(hi)})
	c.sizeMap = nil
}

// sizeKey identifies a value up to a constant factor.
func (c *Ctx) sizeKey(x *alg.Num) string {
	n := x.N
	if len(n.T) == 1 && len(x.D) == 0 {
		// the absolute value of a polynomial
		arg, k := -1, 0
		for a, e := range n.T[0].M {
			if e != 0 {
				arg = a
				k += int(e)
			}
		}
		if k == 1 && c.F.Arg[arg] != nil {
			n = c.F.Arg[arg]
		}
	}
	k := (&alg.Num{C: new(big.Rat).SetInt64(1), N: n, D: x.D}).Key()
	if m := (&alg.Num{C: new(big.Rat).SetInt64(1), N: n.Neg(), D: x.D}).Key(); m < k {
		k = m
	}
	return k
}

// magnitude gives the bounds of |x| unless it is zero.
func (c *Ctx) magnitude(x *alg.Num) (lo, hi *big.Rat, ok bool) {
	if q, ok := x.Rat(); ok {
		if q.Sign() == 0 {
			return nil, nil, false
		}
		q = new(big.Rat).Abs(q)
		return q, q, true
	}
	if c.sizeMap == nil || c.sizeAge != len(c.subst) {
		c.sizeMap = map[string]int{}
		c.sizeAge = len(c.subst)
		for i := range c.sized {
			y, ok := c.applySubst(c.sized[i].v)
			if !ok {
				continue
			}
			if _, ok := y.Rat(); ok {
				continue
			}
			c.sized[i].v = y
			k := c.sizeKey(y)
			if j, ok := c.sizeMap[k]; !ok || c.sized[j].lo.Sign() == 0 {
				c.sizeMap[k] = i
			}
		}
	}
	i, ok := c.sizeMap[c.sizeKey(x)]
	if !ok {
		return nil, nil, false
	}
	s := c.sized[i]
	f := new(big.Rat).Quo(x.C, s.v.C)
	f.Abs(f)
	return new(big.Rat).Mul(s.lo, f), new(big.Rat).Mul(s.hi, f), true
}

// knownNonNegative decides without a query.
func (c *Ctx) knownNonNegative(x *alg.Num) bool {
	if q, ok := x.Rat(); ok {
		return q.Sign() >= 0
	}
	if c.nonNegMono(x) {
		return true
	}
	sum := len(x.D) == 0 && x.C.Sign() > 0
	for i := range x.N.T {
		one := alg.Poly{T: x.N.T[i : i+1]}
		sum = sum && x.N.T[i].C.Sign() > 0 && c.nonNegMono(&alg.Num{C: x.C, N: &one})
	}
	if sum {
		return true
	}
	p := c.F.OddPart(x, c.positiveFactor)
	if c.sos(p) {
		return true
	}
	pt, nt := c.posTerm(p), c.posTerm(p.Neg())
	return c.pcSet[pt.ID] || c.pcSet[c.T.Not(nt).ID] || pt == c.T.True || nt == c.T.False
}

// upper bounds |x|.
func (c *Ctx) upper(x *alg.Num) *big.Rat {
	if x.IsZero() {
		return new(big.Rat)
	}
	if _, hi, ok := c.magnitude(x); ok {
		return hi
	}
	if r := c.upperAtoms(x); r != nil {
		return r
	}
	// a sum of two values of known magnitude
	for _, y := range c.sized {
		for s := int64(-1); s < 2; s += 2 {
			z := c.F.AddN(x, c.F.MulN(y.v, alg.FromRat(new(big.Rat).SetInt64(s))))
			if z.IsZero() {
				return y.hi
			}
			hi := c.upperAtoms(z)
			if _, h, ok := c.magnitude(z); ok {
				hi = h
			}
			if hi != nil {
				return new(big.Rat).Add(hi, y.hi)
			}
		}
	}
	return nil
}

// upperAtoms bounds |x| term by term.
func (c *Ctx) upperAtoms(x *alg.Num) *big.Rat {
	if len(x.D) > 0 || len(x.N.T) > 12 {
		return nil
	}
	sum := new(big.Rat)
	for _, t := range x.N.T {
		p := new(big.Rat).SetInt(new(big.Int).Abs(t.C))
		for a, e := range t.M {
			for ; e > 0; e-- {
				_, hi, ok := c.magnitude(&alg.Num{C: new(big.Rat).SetInt64(1), N: alg.AtomPoly(a)})
				if !ok {
					return nil
				}
				p.Mul(p, hi)
			}
		}
		sum.Add(sum, p)
	}
	return sum.Mul(sum, new(big.Rat).Abs(x.C))
}

// sizeCmp compares values of very different size.
func (c *Ctx) sizeCmp(op token.Token, a, b *alg.Num) (*smt.Term, bool) {
	if len(c.sized) == 0 {
		return nil, false
	}
	above := func(a, b *alg.Num) bool {
		lo, _, ok := c.magnitude(a)
		if !ok {
			return false
		}
		hi := c.upper(b)
		return hi != nil && lo.Cmp(hi) > 0
	}
	switch {
	case above(a, b):
	case above(b, a):
		a, b = b, a
		op = flip(op)
	default:
		return nil, false
	}
	// |a| > |b| unless a is zero
	if !c.knownNonNegative(a) {
		return nil, false
	}
	az, bz := c.zeroOf(a), c.zeroOf(b)
	if v, ok := c.known(az); ok && !v {
		return c.T.BoolC(op == token.GTR || op == token.GEQ), true
	}
	if !c.knownNonNegative(b) {
		return nil, false
	}
	switch op {
	case token.GTR:
		return c.T.Not(az), true
	case token.GEQ:
		return c.T.Or(c.T.Not(az), bz), true
	case token.LSS:
		return c.T.And(az, c.T.Not(bz)), true
	case token.LEQ:
		return az, true
	}
	return nil, false
}

func (c *Ctx) zeroOf(x *alg.Num) *smt.Term {
	if _, ok := x.Rat(); ok {
		return c.T.BoolC(x.IsZero())
	}
	return c.zeroTerm(x.N)
}
