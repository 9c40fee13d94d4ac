package ex

import (
	"go/token"
	"math"
	"math/big"

	"verif/engine/alg"
)

// applySubst rewrites x by the equalities the path has established.
func (c *Ctx) applySubst(x *alg.Num) (*alg.Num, bool) {
	touched := func(p *alg.Poly) bool {
		for i := range p.T {
			for a := range c.subst {
				if p.T[i].M[a] != 0 {
					return true
				}
			}
		}
		return false
	}
	t := touched(x.N)
	for _, d := range x.D {
		t = t || touched(d.P)
	}
	if !t {
		return x, true
	}
	if c.substDepth > 20 {
		panic(unsupported("substitution depth"))
	}
	k := x.Key()
	if v, ok := c.substMemo[k]; ok {
		return v, v != nil
	}
	c.substDepth++
	defer func() { c.substDepth-- }()
	v := c.substPoly(x.N)
	v = c.fbin(token.MUL, v, demote(alg.FromRat(x.C)))
	for _, d := range x.D {
		dv := c.substPoly(d.P)
		for i := 0; i < d.E; i++ {
			v = c.fbin(token.QUO, v, dv)
		}
	}
	if f, ok := v.(float64); ok && (math.IsNaN(f) || math.IsInf(f, 0)) {
		return nil, false
	}
	n, ok := c.num(v)
	c.substMemo[k] = n
	return n, ok
}

func (c *Ctx) substPoly(p *alg.Poly) Value {
	// group the untouched terms
	var keep []alg.Term
	sum := Value(0.0)
	for i := range p.T {
		t := p.T[i]
		var reps []Value
		for a := range c.subst {
			for k := 0; k < int(t.M[a]); k++ {
				reps = append(reps, c.subst[a])
			}
		}
		if len(reps) == 0 {
			keep = append(keep, t)
			continue
		}
		m := t.M
		for a := range c.subst {
			m[a] = 0
		}
		v := Value(demote(alg.FromPoly(&alg.Poly{T: []alg.Term{{M: m, C: t.C}}})))
		for _, r := range reps {
			v = c.fbin(token.MUL, v, r)
		}
		sum = c.fbin(token.ADD, sum, v)
	}
	if len(keep) > 0 {
		sum = c.fbin(token.ADD, sum, demote(alg.FromPoly(&alg.Poly{T: keep})))
	}
	return sum
}

// learnZero records p = 0 as a substitution when some variable can be isolated.
func (c *Ctx) learnZero(p *alg.Poly) {
	if c.Mode != Real {
		return
	}
	// re-express p under the substitutions known so far
	n, ok := c.num(demote(alg.FromPoly(p)))
	if !ok || n.IsZero() {
		return
	}
	p = n.N
	if c.F.HasAlgebraic(p) {
		return
	}
	best := -1
	for a := range c.F.Names {
		if c.F.Kind[a] != 'v' {
			continue
		}
		// linear with constant coefficient, or a pure power
		lin, other := 0, 0
		for i := range p.T {
			e := p.T[i].M[a]
			if e == 0 {
				continue
			}
			solo := true
			for b, f := range p.T[i].M {
				if b != a && f != 0 {
					solo = false
				}
			}
			if e == 1 && solo {
				lin++
			} else if solo && len(p.T) == 1 {
				lin++
			} else {
				other++
			}
		}
		if lin == 1 && other == 0 {
			best = a
			break
		}
	}
	if best < 0 {
		return
	}
	rest := &alg.Poly{}
	var coef *big.Int
	for i := range p.T {
		if p.T[i].M[best] != 0 {
			coef = p.T[i].C
		} else {
			rest.T = append(rest.T, p.T[i])
		}
	}
	r := alg.FromPoly(rest.Neg())
	val := Value(demote(c.F.MulN(r, alg.FromRat(new(big.Rat).SetFrac(big.NewInt(1), coef)))))
	c.setSubst(best, val)
	// roots and absolute values depending on it
	for a := 0; a < len(c.F.Names); a++ {
		if _, done := c.subst[a]; done || c.F.Kind[a] == 'v' {
			continue
		}
		dep := map[int]bool{}
		if c.F.Kind[a] == 's' {
			c.F.Sq[a].Atoms(dep)
		} else {
			c.F.Arg[a].Atoms(dep)
		}
		hit := false
		for b := range dep {
			if _, ok := c.subst[b]; ok {
				hit = true
			}
		}
		if !hit {
			continue
		}
		if c.F.Kind[a] == 's' {
			v := c.substPoly(c.F.Sq[a])
			if f, ok := v.(float64); ok {
				c.setSubst(a, c.fsqrt(f))
			} else {
				nn, _ := c.num(v)
				c.setSubst(a, c.sqrtNum(nn))
			}
		} else {
			c.setSubst(a, c.fabs(c.substPoly(c.F.Arg[a])))
		}
	}
}

func (c *Ctx) setSubst(a int, v Value) {
	if n, ok := v.(*alg.Num); ok {
		// ignore self-references
		if len(n.N.T) == 1 && n.N.T[0].M[a] != 0 {
			return
		}
	}
	c.subst[a] = v
	c.substMemo = map[string]*alg.Num{}
	// normalise the other right-hand sides
	for b, w := range c.subst {
		if b == a {
			continue
		}
		if n, ok := w.(*alg.Num); ok {
			if m, ok := c.applySubst(n); ok {
				c.subst[b] = demote(m)
			}
		}
	}
}
