package ex

import (
	"go/token"
	"math"
	"math/big"

	"verif/engine/alg"
	"verif/engine/smt"
)

// sample gives an operation that cannot be kept symbolic some values to go on
// with, one per path. The path left over is inconclusive.
func (c *Ctx) sample(v Value, what string) float64 {
	if f, ok := v.(float64); ok {
		return f
	}
	v = c.plain(v)
	for _, k := range []float64{3, 0.7, -1.3, 0, 1, 120.1, -2, 1e-3} {
		if f, ok := v.(float64); ok {
			return f
		}
		if c.truth(c.fcmp(token.EQL, v, k)) {
			return k
		}
	}
	panic(unsupported(what))
}

// rounded is math.Floor, Ceil, Trunc, Round or RoundToEven.
func (c *Ctx) rounded(name string, v Value) (Value, bool) {
	if t, ok := v.(*smt.Term); ok && c.Mode == FP {
		m, ok := map[string]string{"Floor": "RTN", "Ceil": "RTP", "Trunc": "RTZ", "Round": "RNA", "RoundToEven": "RNE"}[name]
		if !ok {
			return nil, false
		}
		return c.T.App(smt.FP, "fp.roundToIntegral "+m, t), true
	}
	var f func(float64) float64
	switch name {
	case "Floor":
		f = math.Floor
	case "Ceil":
		f = math.Ceil
	case "Trunc":
		f = math.Trunc
	default:
		return nil, false
	}
	v = c.plain(v)
	for _, k := range []float64{0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5} {
		if x, ok := v.(float64); ok {
			return f(x), true
		}
		if c.truth(c.fcmp(token.EQL, v, k)) {
			return k, true
		}
		if c.truth(c.fcmp(token.GTR, v, k)) && c.truth(c.fcmp(token.LSS, v, k+1)) {
			return f(k + 0.5), true
		}
	}
	return nil, false
}

// single rounds to float32.
func (c *Ctx) single(v Value) Value {
	v = c.plain(v)
	switch x := v.(type) {
	case float64:
		return float64(float32(x))
	case *smt.Term:
		return c.T.App(smt.FP, "(_ to_fp 11 53) RNE", c.T.App(smt.FP32, "(_ to_fp 8 24) RNE", x))
	}
	for _, k := range []float64{120.1, 0.7, -1.3} {
		if c.truth(c.fcmp(token.EQL, v, k)) {
			return float64(float32(k))
		}
	}
	panic(unsupported("symbolic float32"))
}

// probe looks at a path that was given up: the real code is run on a model of
// its condition. This finds failures; it never makes a path count as explored.
func (c *Ctx) probe() {
	c.E.mu.Lock()
	skip := c.I.dead || c.I.Probed >= 6 || c.E.Replay == nil
	c.I.Probed++
	k := c.I.Probed
	c.E.mu.Unlock()
	if skip {
		return
	}
	base := c.pc
	if c.Mode == Real {
		for _, t := range c.pc {
			if t.Op == "poly=" {
				return
			}
		}
		base = c.robust(8, 32)
	}
	base = c.pins(base, k)
	r, m := c.solve(base, true, c.E.FeasReal)
	if r != smt.Sat {
		return
	}
	cand := c.candidate(m, "a path given up")
	if c.Mode != FP {
		cand.Loose = 1e4
	}
	ok, detail := c.E.Replay(cand, false)
	if !ok {
		return
	}
	if c.E.Accept(cand, detail) {
		c.E.stop.Store(true)
	}
	c.E.mu.Lock()
	c.I.dead = true
	c.E.cond.Broadcast()
	c.E.mu.Unlock()
}

// pins fixes inputs one by one, as far as base allows.
func (c *Ctx) pins(base []*smt.Term, k int) []*smt.Term {
	base = append([]*smt.Term{}, base...)
	n := 0
	for _, name := range sorted(c.inputs) {
		n++
		if n > 24 {
			break
		}
		x := []float64{1.5, -2, 3, 0.25, -0.7, 2.3, 5, -1.1}[(n*3+k*5)%8]
		var t *smt.Term
		switch c.Mode {
		case FP:
			t = c.boolTerm(c.fcmp(token.EQL, c.T.FPVar(name), x))
		case Real:
			q := new(big.Rat)
			q.SetFloat64(x)
			v := alg.AtomPoly(c.F.Var(name))
			t = c.T.PolyZero(alg.Sub(v.Scale(q.Denom()), alg.ConstPoly(q.Num())))
		default:
			t = c.boolTerm(c.fcmp(token.EQL, &smt.Lin{K: map[int]float64{c.T.LinVar(name): 1}}, x))
		}
		c.checkTime()
		if r, _ := c.solve(append(append([]*smt.Term{}, base...), t), false, 200); r == smt.Sat {
			base = append(base, t)
		}
	}
	return base
}

// pinned looks for a counterexample with some inputs fixed, where the solver
// has no answer for all of them.
func (c *Ctx) pinned(neg []*smt.Term, msg string) bool {
	c.E.mu.Lock()
	skip := c.I.dead || c.I.Pinned >= 6
	c.I.Pinned++
	k := c.I.Pinned
	c.E.mu.Unlock()
	return !skip && c.hunt([][]*smt.Term{append(c.pins(nil, k), neg...), append(c.pins(c.pc, k+1), neg...)}, msg, false)
}
