package ex

import (
	"fmt"
	"go/token"
	"math"

	"verif/engine/alg"
	"verif/engine/smt"
)

// In real mode a symbolic value has no bit pattern of its own. The pattern is
// kept abstract until an integer operation looks at it; then the path decides
// whether the value is zero, which sign it has and whether it equals the value
// it meets, and the pattern becomes one that is far from every other one:
// "within k units in the last place" reads as "equal".

func (c *Ctx) bitsOf(n *alg.Num) Value {
	k := n.Key()
	id, ok := c.bitsID[k]
	if !ok {
		id = len(c.bitsID)
		c.bitsID[k] = id
	}
	t := c.T.IntVar(fmt.Sprintf("!bits%d", id))
	c.bits[t.ID] = n
	return t
}

func (c *Ctx) spellBits(x, y Value) (Value, Value) {
	nx, okx := c.bitsNum(x)
	ny, oky := c.bitsNum(y)
	if okx && oky {
		ix, iy := c.bitsID[nx.Key()], c.bitsID[ny.Key()]
		if ix != iy && c.truth(c.fcmp(token.EQL, nx, ny)) {
			if iy < ix {
				nx = ny
			}
			ny = nx
		}
		return c.spell(nx), c.spell(ny)
	}
	if okx {
		return c.spellNext(nx, y), y
	}
	if oky {
		return x, c.spellNext(ny, x)
	}
	return x, y
}

func (c *Ctx) bitsNum(v Value) (*alg.Num, bool) {
	t, ok := v.(*smt.Term)
	if !ok {
		return nil, false
	}
	n, ok := c.bits[t.ID]
	return n, ok
}

// spellNext spells n next to the integer k.
func (c *Ctx) spellNext(n *alg.Num, k Value) Value {
	if i, ok := k.(int64); ok {
		f := math.Float64frombits(uint64(i))
		if a := math.Abs(f); a >= 0x1p-1022 && a <= math.MaxFloat64 && c.truth(c.fcmp(token.EQL, n, f)) {
			return i
		}
	}
	return c.spell(n)
}

func (c *Ctx) spell(n *alg.Num) Value {
	if c.truth(c.fcmp(token.EQL, n, 0.0)) {
		return int64(0)
	}
	r := int64(0x3ff0000012345678) + int64(c.bitsID[n.Key()])<<32
	if c.truth(c.fcmp(token.LSS, n, 0.0)) {
		r |= math.MinInt64
	}
	return r
}
