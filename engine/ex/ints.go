package ex

import (
	"math"

	"verif/engine/smt"
)

// Intervals of machine integers implied by the path condition.

type interval struct{ lo, hi int64 }

func (c *Ctx) span(t *smt.Term) interval {
	if t.Op == "bv" {
		return interval{int64(t.U), int64(t.U)}
	}
	r := interval{math.MinInt64, math.MaxInt64}
	if v, ok := c.spans[t.ID]; ok {
		r = v
	}
	if len(t.Args) == 2 && (t.Op == "bvadd" || t.Op == "bvsub") {
		a, b := c.span(t.Args[0]), c.span(t.Args[1])
		const m = int64(1) << 61
		if a.lo > -m && a.hi < m && b.lo > -m && b.hi < m {
			q := interval{a.lo + b.lo, a.hi + b.hi}
			if t.Op == "bvsub" {
				q = interval{a.lo - b.hi, a.hi - b.lo}
			}
			if q.lo > r.lo {
				r.lo = q.lo
			}
			if q.hi < r.hi {
				r.hi = q.hi
			}
		}
	}
	return r
}

// learnInt refines intervals with a literal of the path condition.
func (c *Ctx) learnInt(t *smt.Term, val bool) {
	if len(t.Args) != 2 || t.Args[0].S != smt.BV64 {
		return
	}
	a, b := t.Args[0], t.Args[1]
	p, q := c.span(a), c.span(b)
	switch t.Op {
	case "bvslt":
		if val {
			if q.hi > math.MinInt64 && q.hi-1 < p.hi {
				p.hi = q.hi - 1
			}
			if p.lo < math.MaxInt64 && p.lo+1 > q.lo {
				q.lo = p.lo + 1
			}
		} else { // b <= a
			if q.lo > p.lo {
				p.lo = q.lo
			}
			if p.hi < q.hi {
				q.hi = p.hi
			}
		}
	case "=":
		if val {
			if q.lo > p.lo {
				p.lo = q.lo
			}
			if q.hi < p.hi {
				p.hi = q.hi
			}
			q = p
		} else {
			if q.lo == q.hi {
				if p.lo == q.lo && p.lo < math.MaxInt64 {
					p.lo++
				}
				if p.hi == q.hi && p.hi > math.MinInt64 {
					p.hi--
				}
			}
			if p.lo == p.hi {
				if q.lo == p.lo && q.lo < math.MaxInt64 {
					q.lo++
				}
				if q.hi == p.hi && q.hi > math.MinInt64 {
					q.hi--
				}
			}
		}
	default:
		return
	}
	c.narrow(a, p)
	c.narrow(b, q)
}

func (c *Ctx) narrow(t *smt.Term, p interval) {
	if t.Op == "bv" || p.lo == math.MinInt64 && p.hi == math.MaxInt64 {
		return
	}
	if p.lo > p.hi { // contradictory: leave it to the solver
		return
	}
	c.spans[t.ID] = p
	if p.lo == p.hi {
		c.fixed[t.ID] = int(p.lo)
	}
}

// knownInt decides a comparison of integers by intervals.
func (c *Ctx) knownInt(t *smt.Term) (val, ok bool) {
	if len(t.Args) != 2 || t.Args[0].S != smt.BV64 || t.Op != "bvslt" && t.Op != "=" {
		return
	}
	p, q := c.span(t.Args[0]), c.span(t.Args[1])
	if t.Op == "=" {
		switch {
		case p.lo == p.hi && q.lo == q.hi && p.lo == q.lo:
			return true, true
		case p.hi < q.lo || q.hi < p.lo:
			return false, true
		}
		return
	}
	switch {
	case p.hi < q.lo:
		return true, true
	case p.lo >= q.hi:
		return false, true
	}
	return
}

// reduce replaces an integer the path condition fixes by its value.
func (c *Ctx) reduce(v Value) Value {
	t, ok := v.(*smt.Term)
	if !ok || t.S != smt.BV64 {
		return v
	}
	if k, ok := c.fixed[t.ID]; ok {
		return int64(k)
	}
	if len(t.Args) == 0 || len(c.fixed) == 0 {
		return v
	}
	if p := c.span(t); p.lo == p.hi {
		c.fixed[t.ID] = int(p.lo)
		return p.lo
	}
	return v
}

// narrowInt enumerates the values of an integer an operation cannot keep
// symbolic. Where the values are too many it tries the bounds and then gives
// the path up.
func (c *Ctx) narrowInt(v Value) int64 {
	v = c.reduce(v)
	t, ok := v.(*smt.Term)
	if !ok {
		return v.(int64)
	}
	p := c.span(t)
	if p.lo >= -(1<<40) && p.hi <= 1<<40 && p.hi-p.lo <= 256 {
		return int64(c.concretize(t, int(p.lo), int(p.hi)))
	}
	for _, k := range []int64{p.lo, p.hi, -1, 0, 1} {
		if k > -(1<<40) && k < 1<<40 && k >= p.lo && k <= p.hi {
			if c.Branch(c.eqTerm(t, c.T.BV(uint64(k)))) {
				c.fixed[t.ID] = int(k)
				return k
			}
		}
	}
	panic(unsupported("arithmetic on an unbounded symbolic integer"))
}
