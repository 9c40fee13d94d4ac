package ex

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"

	"verif/engine/alg"
	"verif/engine/smt"
)

// Mode selects the meaning of float64.
type Mode int

// Modes.
const (
	FP Mode = iota
	Real
	Lin
)

func (m Mode) String() string { return [...]string{"fp", "real", "lin"}[m] }

func basic(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func isFloat(t types.Type) bool {
	b := basic(t)
	return b != nil && b.Info()&types.IsFloat != 0
}

func isUnsigned(t types.Type) bool {
	b := basic(t)
	return b != nil && b.Info()&types.IsUnsigned != 0
}

func width(t types.Type) int {
	switch basic(t).Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func norm(t types.Type, v int64) int64 {
	switch basic(t).Kind() {
	case types.Int8:
		return int64(int8(v))
	case types.Uint8:
		return int64(uint8(v))
	case types.Int16:
		return int64(int16(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Int32:
		return int64(int32(v))
	case types.Uint32:
		return int64(uint32(v))
	}
	return v
}

func (c *Ctx) bv(v Value) *smt.Term {
	switch x := v.(type) {
	case int64:
		return c.T.BV(uint64(x))
	case *smt.Term:
		if x.S == smt.BV64 {
			return x
		}
	}
	panic(unsupported(fmt.Sprintf("integer operand %T", v)))
}

func (c *Ctx) eqTerm(a, b *smt.Term) *smt.Term {
	if a == b {
		return c.T.True
	}
	if a.Op == "bv" && b.Op == "bv" {
		return c.T.BoolC(a.U == b.U)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.T.App(smt.Bool, "=", a, b)
}

func (c *Ctx) bvCmp(op token.Token, a, b *smt.Term, signed bool) *smt.Term {
	if a.Op == "bv" && b.Op == "bv" {
		if signed {
			return c.T.BoolC(cmpInt(op, int64(a.U), int64(b.U)))
		}
		return c.T.BoolC(cmpUint(op, a.U, b.U))
	}
	p := "bvu"
	if signed {
		p = "bvs"
	}
	switch op {
	case token.LSS:
		return c.T.App(smt.Bool, p+"lt", a, b)
	case token.GTR:
		return c.T.App(smt.Bool, p+"lt", b, a)
	case token.LEQ:
		return c.T.Not(c.T.App(smt.Bool, p+"lt", b, a))
	case token.GEQ:
		return c.T.Not(c.T.App(smt.Bool, p+"lt", a, b))
	case token.EQL:
		return c.eqTerm(a, b)
	case token.NEQ:
		return c.T.Not(c.eqTerm(a, b))
	}
	panic("bvCmp")
}

func cmpInt(op token.Token, a, b int64) bool {
	switch op {
	case token.LSS:
		return a < b
	case token.GTR:
		return a > b
	case token.LEQ:
		return a <= b
	case token.GEQ:
		return a >= b
	case token.EQL:
		return a == b
	}
	return a != b
}

func cmpUint(op token.Token, a, b uint64) bool {
	switch op {
	case token.LSS:
		return a < b
	case token.GTR:
		return a > b
	case token.LEQ:
		return a <= b
	case token.GEQ:
		return a >= b
	case token.EQL:
		return a == b
	}
	return a != b
}

func cmpF(op token.Token, a, b float64) bool {
	switch op {
	case token.LSS:
		return a < b
	case token.GTR:
		return a > b
	case token.LEQ:
		return a <= b
	case token.GEQ:
		return a >= b
	case token.EQL:
		return a == b
	}
	return a != b
}

func isCmp(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

func (c *Ctx) boolVal(t *smt.Term) Value {
	switch t.Op {
	case "true":
		return true
	case "false":
		return false
	}
	return t
}

func (c *Ctx) boolTerm(v Value) *smt.Term {
	switch x := v.(type) {
	case bool:
		return c.T.BoolC(x)
	case *smt.Term:
		return x
	}
	panic(unsupported("boolean operand"))
}

func (c *Ctx) binop(op token.Token, t types.Type, x, y Value, ty types.Type) Value {
	b := basic(t)
	if b == nil || b.Kind() == types.UnsafePointer || b.Kind() == types.UntypedNil {
		switch op {
		case token.EQL:
			return c.eqVal(x, y)
		case token.NEQ:
			return c.notVal(c.eqVal(x, y))
		}
		panic(unsupported("operator on " + t.String()))
	}
	switch {
	case b.Info()&types.IsFloat != 0:
		if b.Kind() == types.Float32 {
			// the rounding of the rounded double result is that of the exact one
			if isCmp(op) {
				return c.fcmp(op, x, y)
			}
			return c.single(c.fbin(op, x, y))
		}
		if isCmp(op) {
			return c.fcmp(op, x, y)
		}
		return c.fbin(op, x, y)
	case b.Info()&types.IsInteger != 0:
		return c.intop(op, t, x, y, ty)
	case b.Info()&types.IsString != 0:
		xs, ok1 := x.(string)
		ys, ok2 := y.(string)
		if !ok1 || !ok2 {
			if op == token.ADD {
				return Opaque{describe(x) + describe(y)}
			}
			panic(unsupported("comparison of opaque strings"))
		}
		switch op {
		case token.ADD:
			return xs + ys
		case token.EQL:
			return xs == ys
		case token.NEQ:
			return xs != ys
		case token.LSS:
			return xs < ys
		case token.LEQ:
			return xs <= ys
		case token.GTR:
			return xs > ys
		case token.GEQ:
			return xs >= ys
		}
	case b.Info()&types.IsBoolean != 0:
		xb, ok1 := x.(bool)
		yb, ok2 := y.(bool)
		if ok1 && ok2 {
			if op == token.EQL {
				return xb == yb
			}
			return xb != yb
		}
		e := c.eqTerm(c.boolTerm(x), c.boolTerm(y))
		if op == token.NEQ {
			e = c.T.Not(e)
		}
		return c.boolVal(e)
	case b.Info()&types.IsComplex != 0:
		return c.complexOp(op, x.(Complex), y.(Complex))
	}
	panic(unsupported("operator " + op.String() + " on " + t.String()))
}

func (c *Ctx) notVal(v Value) Value {
	if b, ok := v.(bool); ok {
		return !b
	}
	return c.boolVal(c.T.Not(v.(*smt.Term)))
}

// eqVal compares non-basic values.
func (c *Ctx) eqVal(x, y Value) Value {
	switch a := x.(type) {
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return false
		}
		if a.T == nil || b.T == nil {
			return a.T == nil && b.T == nil
		}
		if !types.Identical(a.T, b.T) {
			return false
		}
		if basic(a.T) != nil {
			return c.binop(token.EQL, a.T, a.V, b.V, a.T)
		}
		if !types.Comparable(a.T) {
			c.rtPanic("comparing uncomparable type %s", a.T)
		}
		return c.eqVal(a.V, b.V)
	case *Value:
		b, ok := y.(*Value)
		return ok && a == b
	case NilPtr:
		_, ok := y.(NilPtr)
		return ok
	case Slice:
		return a == nil && y.(Slice) == nil
	case NilFunc:
		_, ok := y.(NilFunc)
		return ok
	case *Map:
		return a == y.(*Map)
	case int64, float64, string, bool:
		if x == y {
			return true
		}
		if _, ok := y.(*smt.Term); !ok {
			return x == y
		}
	case Struct:
		b := y.(Struct)
		for i := range a {
			if !c.truth(c.eqAny(a[i], b[i])) {
				return false
			}
		}
		return true
	case Array:
		b := y.(Array)
		for i := range a {
			if !c.truth(c.eqAny(a[i], b[i])) {
				return false
			}
		}
		return true
	}
	if _, ok := y.(NilFunc); ok {
		return false
	}
	return c.eqAny(x, y)
}

func (c *Ctx) eqAny(x, y Value) Value {
	switch x.(type) {
	case float64, *alg.Num, *smt.Lin:
		return c.fcmp(token.EQL, x, y)
	case int64:
		if _, ok := y.(int64); ok {
			return x == y
		}
		return c.boolVal(c.eqTerm(c.bv(x), c.bv(y)))
	case *smt.Term:
		if x.(*smt.Term).S == smt.FP {
			return c.fcmp(token.EQL, x, y)
		}
		if x.(*smt.Term).S == smt.Bool {
			return c.boolVal(c.eqTerm(x.(*smt.Term), c.boolTerm(y)))
		}
		return c.boolVal(c.eqTerm(c.bv(x), c.bv(y)))
	case *ssaFuncMarker:
		return false
	}
	if _, ok := y.(NilFunc); ok {
		return false
	}
	switch x.(type) {
	case Iface, *Value, NilPtr, Slice, Struct, Array, *Map, string, bool, NilFunc:
		return c.eqVal(x, y)
	}
	panic(unsupported(fmt.Sprintf("equality of %T", x)))
}

type ssaFuncMarker struct{}

func (c *Ctx) intop(op token.Token, t types.Type, x, y Value, ty types.Type) Value {
	if len(c.bits) > 0 {
		x, y = c.spellBits(x, y)
	}
	x, y = c.reduce(x), c.reduce(y)
	switch op {
	case token.QUO, token.REM, token.SHL, token.SHR:
		x, y = c.narrowInt(x), c.narrowInt(y)
	case token.MUL:
		_, ok1 := x.(int64)
		_, ok2 := y.(int64)
		if !ok1 && !ok2 {
			x, y = c.narrowInt(x), c.narrowInt(y)
		}
	}
	xi, ok1 := x.(int64)
	yi, ok2 := y.(int64)
	uns := isUnsigned(t)
	if ok1 && ok2 {
		if isCmp(op) {
			if uns {
				return cmpUint(op, uint64(xi), uint64(yi))
			}
			return cmpInt(op, xi, yi)
		}
		var r int64
		switch op {
		case token.ADD:
			r = xi + yi
		case token.SUB:
			r = xi - yi
		case token.MUL:
			r = xi * yi
		case token.QUO, token.REM:
			if yi == 0 {
				c.rtPanic("integer divide by zero")
			}
			if uns {
				if op == token.QUO {
					r = int64(uint64(xi) / uint64(yi))
				} else {
					r = int64(uint64(xi) % uint64(yi))
				}
			} else if yi == -1 {
				if op == token.QUO {
					r = -xi
				}
			} else if op == token.QUO {
				r = xi / yi
			} else {
				r = xi % yi
			}
		case token.AND:
			r = xi & yi
		case token.OR:
			r = xi | yi
		case token.XOR:
			r = xi ^ yi
		case token.AND_NOT:
			r = xi &^ yi
		case token.SHL, token.SHR:
			if !isUnsigned(ty) && yi < 0 {
				c.rtPanic("negative shift amount")
			}
			s := uint64(yi)
			if op == token.SHL {
				if s < 64 {
					r = xi << s
				}
			} else if uns {
				if s < 64 {
					r = int64(uint64(xi) >> s)
				}
			} else {
				if s > 63 {
					s = 63
				}
				r = xi >> s
			}
		default:
			panic(unsupported("integer operator " + op.String()))
		}
		return norm(t, r)
	}
	if width(t) != 64 {
		panic(unsupported("symbolic integer narrower than 64 bits"))
	}
	a, b := c.bv(x), c.bv(y)
	if isCmp(op) {
		r := c.bvCmp(op, a, b, !uns)
		if v, ok := c.known(r); ok {
			return v
		}
		return c.boolVal(r)
	}
	switch op {
	case token.ADD:
		if b.Op == "bv" && b.U == 0 {
			return x
		}
		if a.Op == "bv" && a.U == 0 {
			return y
		}
		return c.T.App(smt.BV64, "bvadd", a, b)
	case token.SUB:
		if b.Op == "bv" && b.U == 0 {
			return x
		}
		return c.T.App(smt.BV64, "bvsub", a, b)
	case token.MUL:
		if b.Op == "bv" && b.U == 1 {
			return x
		}
		if a.Op == "bv" && a.U == 1 {
			return y
		}
		return c.T.App(smt.BV64, "bvmul", a, b)
	case token.AND:
		return c.T.App(smt.BV64, "bvand", a, b)
	case token.OR:
		return c.T.App(smt.BV64, "bvor", a, b)
	case token.XOR:
		return c.T.App(smt.BV64, "bvxor", a, b)
	case token.QUO, token.REM:
		if c.Branch(c.eqTerm(b, c.T.BV(0))) {
			c.rtPanic("integer divide by zero")
		}
		o := map[bool]string{true: "bvudiv", false: "bvsdiv"}[uns]
		if op == token.REM {
			o = map[bool]string{true: "bvurem", false: "bvsrem"}[uns]
		}
		return c.T.App(smt.BV64, o, a, b)
	case token.SHL, token.SHR:
		o := "bvshl"
		if op == token.SHR {
			o = "bvashr"
			if uns {
				o = "bvlshr"
			}
		}
		return c.T.App(smt.BV64, o, a, b)
	case token.AND_NOT:
		return c.T.App(smt.BV64, "bvand", a, c.T.App(smt.BV64, "bvnot", b))
	}
	panic(unsupported("symbolic integer operator " + op.String()))
}

func (c *Ctx) unop(op token.Token, t types.Type, v Value) Value {
	switch op {
	case token.NOT:
		return c.notVal(v)
	case token.SUB:
		if isFloat(t) {
			return c.fneg(v)
		}
		if z, ok := v.(Complex); ok {
			return Complex{c.fneg(z.Re), c.fneg(z.Im)}
		}
		if i, ok := v.(int64); ok {
			return norm(t, -i)
		}
		return c.T.App(smt.BV64, "bvneg", c.bv(v))
	case token.XOR:
		if i, ok := v.(int64); ok {
			return norm(t, ^i)
		}
		return c.T.App(smt.BV64, "bvnot", c.bv(v))
	}
	panic(unsupported("unary " + op.String()))
}

func (c *Ctx) convert(from, to types.Type, v Value) Value {
	fb, tb := basic(from), basic(to)
	if fb == nil || tb == nil {
		// []byte(string), string([]byte)
		if fb != nil && fb.Info()&types.IsString != 0 {
			if sl, ok := to.Underlying().(*types.Slice); ok && basic(sl.Elem()) != nil && width(sl.Elem()) == 8 {
				if s, ok := v.(string); ok {
					r := make(Slice, len(s))
					for i := range r {
						r[i] = int64(s[i])
					}
					return r
				}
			}
		}
		if tb != nil && tb.Info()&types.IsString != 0 {
			if s, ok := v.(Slice); ok {
				b := make([]byte, len(s))
				for i := range s {
					k, ok := s[i].(int64)
					if !ok {
						return Opaque{"bytes"}
					}
					b[i] = byte(k)
				}
				return string(b)
			}
		}
		panic(unsupported("conversion " + from.String() + " to " + to.String()))
	}
	switch {
	case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		if i, ok := v.(int64); ok {
			return norm(to, i)
		}
		if width(to) != 64 || width(from) != 64 {
			panic(unsupported("symbolic integer conversion"))
		}
		return v
	case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		if i, ok := v.(int64); ok {
			if isUnsigned(from) {
				return float64(uint64(i))
			}
			return float64(i)
		}
		v = c.reduce(v)
		if t, ok := v.(*smt.Term); ok && c.Mode == FP {
			if p := c.span(t); p.hi-p.lo > 256 || p.hi-p.lo < 0 {
				op := "(_ to_fp 11 53) RNE"
				if isUnsigned(from) {
					op = "(_ to_fp_unsigned 11 53) RNE"
				}
				return c.T.App(smt.FP, op, t)
			}
		}
		i := c.narrowInt(v)
		if isUnsigned(from) {
			return float64(uint64(i))
		}
		return float64(i)
	case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		if f, ok := v.(float64); ok {
			if isUnsigned(to) && width(to) == 64 {
				return int64(uint64(f))
			}
			return norm(to, int64(f))
		}
		if t, ok := v.(*smt.Term); ok && width(to) == 64 && !isUnsigned(to) {
			// out of range gives the smallest integer (amd64)
			lo, hi := c.fcmp(token.GEQ, t, -9.223372036854775808e18), c.fcmp(token.LSS, t, 9.223372036854775808e18)
			if !c.truth(lo) || !c.truth(hi) {
				return int64(math.MinInt64)
			}
			return c.T.App(smt.BV64, "(_ fp.to_sbv 64) RTZ", t)
		}
		if t, ok := c.rounded("Trunc", v); ok {
			return norm(to, int64(t.(float64)))
		}
		return norm(to, int64(c.sample(v, "symbolic float to integer")))
	case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		if f, ok := v.(float64); ok {
			if tb.Kind() == types.Float32 {
				return float64(float32(f))
			}
			return f
		}
		if tb.Kind() == types.Float32 {
			return c.single(v)
		}
		return v
	case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		if i, ok := v.(int64); ok {
			return string(rune(i))
		}
	case fb.Info()&types.IsComplex != 0 && tb.Info()&types.IsComplex != 0:
		return v
	}
	panic(unsupported("conversion " + from.String() + " to " + to.String()))
}

// ---- floats ----

func (c *Ctx) fp(v Value) *smt.Term {
	switch x := v.(type) {
	case float64:
		return c.T.F(x)
	case *smt.Term:
		if x.S == smt.FP {
			return x
		}
	}
	panic(unsupported(fmt.Sprintf("float operand %T in fp mode", v)))
}

func (c *Ctx) lin(v Value) (*smt.Lin, bool) {
	switch x := v.(type) {
	case float64:
		return &smt.Lin{C: x}, true
	case *smt.Lin:
		return x, true
	}
	return nil, false
}

// num converts a finite value to a rational function.
func (c *Ctx) num(v Value) (*alg.Num, bool) {
	switch x := v.(type) {
	case float64:
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return nil, false
		}
		return alg.FromRat(new(big.Rat).SetFloat64(x)), true
	case *Most:
		return c.num(c.force(x))
	case *alg.Num:
		if len(c.subst) == 0 {
			return x, true
		}
		n, ok := c.applySubst(x)
		if !ok {
			// a divisor the path took for nonzero vanishes under its equations
			if r, _ := c.query(nil, false, c.feasMS()); r == smt.Unsat {
				panic(infeasible{})
			}
			panic(unsupported("value undefined under the equations of the path"))
		}
		return n, true
	}
	panic(unsupported(fmt.Sprintf("float operand %T in real mode", v)))
}

// demote turns exactly representable constants back into floats.
func demote(x *alg.Num) Value {
	if q, ok := x.Rat(); ok {
		if f, exact := q.Float64(); exact {
			return f
		}
	}
	return x
}

func exactBin(op token.Token, x, y float64) (float64, bool) {
	switch op {
	case token.ADD, token.SUB:
		if op == token.SUB {
			y = -y
		}
		s := x + y
		if math.IsInf(s, 0) || math.IsNaN(s) {
			return s, math.IsInf(x, 0) || math.IsInf(y, 0) || math.IsNaN(x) || math.IsNaN(y)
		}
		bb := s - x
		err := (x - (s - bb)) + (y - bb)
		return s, err == 0
	case token.MUL:
		p := x * y
		if math.IsInf(p, 0) || math.IsNaN(p) {
			return p, math.IsInf(x, 0) || math.IsInf(y, 0) || math.IsNaN(x) || math.IsNaN(y)
		}
		if p == 0 {
			return p, x == 0 || y == 0
		}
		return p, math.Abs(p) > 1e-290 && math.FMA(x, y, -p) == 0
	case token.QUO:
		q := x / y
		if y == 0 || math.IsInf(q, 0) || math.IsNaN(q) {
			return q, y == 0 || math.IsInf(x, 0) || math.IsInf(y, 0) || math.IsNaN(x) || math.IsNaN(y)
		}
		if q == 0 {
			return q, x == 0 || math.IsInf(y, 0)
		}
		return q, math.Abs(x) > 1e-290 && math.FMA(q, y, -x) == 0
	}
	return 0, false
}

func rawBin(op token.Token, x, y float64) float64 {
	switch op {
	case token.ADD:
		return x + y
	case token.SUB:
		return x - y
	case token.MUL:
		return x * y
	}
	return x / y
}

func (c *Ctx) fbin(op token.Token, x, y Value) Value {
	xf, ok1 := x.(float64)
	yf, ok2 := y.(float64)
	if ok1 && ok2 {
		if c.Mode == Real {
			if r, ok := exactBin(op, xf, yf); ok {
				return r
			}
		} else {
			return rawBin(op, xf, yf)
		}
	}
	switch c.Mode {
	case FP:
		if ok1 && math.IsNaN(xf) || ok2 && math.IsNaN(yf) {
			return math.NaN()
		}
		a, b := c.fp(x), c.fp(y)
		switch op {
		case token.ADD:
			if a.ID > b.ID {
				a, b = b, a
			}
			return c.T.App(smt.FP, "fp.add RNE", a, b)
		case token.SUB:
			return c.T.App(smt.FP, "fp.sub RNE", a, b)
		case token.MUL:
			if a.ID > b.ID {
				a, b = b, a
			}
			return c.T.App(smt.FP, "fp.mul RNE", a, b)
		case token.QUO:
			return c.T.App(smt.FP, "fp.div RNE", a, b)
		}
	case Lin:
		a, oka := c.lin(x)
		b, okb := c.lin(y)
		if !oka || !okb {
			panic(unsupported("lin operand"))
		}
		switch op {
		case token.ADD, token.SUB:
			s := 1.0
			if op == token.SUB {
				s = -1
			}
			r := &smt.Lin{C: a.C + s*b.C, K: map[int]float64{}}
			for k, v := range a.K {
				r.K[k] = v
			}
			for k, v := range b.K {
				w := r.K[k] + s*v
				if w == 0 {
					delete(r.K, k)
				} else {
					r.K[k] = w
				}
			}
			return linVal(r)
		case token.MUL:
			if len(a.K) == 0 {
				a, b = b, a
			}
			if len(b.K) != 0 {
				return c.fbin(op, x, c.sample(y, "product of symbolic values in lin mode"))
			}
			r := &smt.Lin{C: a.C * b.C, K: map[int]float64{}}
			if a.C == 0 && !math.IsInf(b.C, 0) && !math.IsNaN(b.C) {
				r.C = 0
			}
			for k, v := range a.K {
				if w := v * b.C; w != 0 {
					r.K[k] = w
				}
			}
			return linVal(r)
		case token.QUO:
			if len(b.K) != 0 {
				return c.fbin(op, x, c.sample(y, "division by a symbolic value in lin mode"))
			}
			r := &smt.Lin{C: a.C / b.C, K: map[int]float64{}}
			for k, v := range a.K {
				r.K[k] = v / b.C
			}
			return linVal(r)
		}
	case Real:
		return c.realBin(op, x, y)
	}
	panic(unsupported("float operator " + op.String()))
}

func linVal(r *smt.Lin) Value {
	if len(r.K) == 0 {
		return r.C
	}
	for _, v := range r.K {
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return math.NaN() // a non-finite coefficient: no meaningful value
		}
	}
	if math.IsNaN(r.C) || math.IsInf(r.C, 0) {
		return r.C
	}
	return r
}

func (c *Ctx) realBin(op token.Token, x, y Value) Value {
	if m, ok := x.(*Most); ok {
		if f, ok := y.(float64); ok && f > 0 && !math.IsInf(f, 0) && (op == token.MUL || op == token.QUO) {
			return c.mapMost(m, func(v Value) Value { return c.fbin(op, v, f) })
		}
	}
	if m, ok := y.(*Most); ok && op == token.MUL {
		if f, ok := x.(float64); ok && f > 0 && !math.IsInf(f, 0) {
			return c.mapMost(m, func(v Value) Value { return c.fbin(op, f, v) })
		}
	}
	x, y = c.plain(x), c.plain(y)
	a, okx := c.num(x)
	b, oky := c.num(y)
	if !okx || !oky {
		// a special value is involved
		xs, isx := x.(float64)
		ys, isy := y.(float64)
		if isx && isy {
			return rawBin(op, xs, ys)
		}
		// replace the symbolic side by a representative of its sign
		rep := func(v Value) float64 {
			if f, ok := v.(float64); ok {
				return f
			}
			if c.truth(c.fcmp(token.GTR, v, 0.0)) {
				return 1
			}
			if c.truth(c.fcmp(token.LSS, v, 0.0)) {
				return -1
			}
			return 0
		}
		if op == token.ADD || op == token.SUB {
			if isx {
				return rawBin(op, xs, 1)
			}
			return rawBin(op, 1, ys)
		}
		return rawBin(op, rep(x), rep(y))
	}
	switch op {
	case token.ADD:
		return demote(c.F.AddN(a, b))
	case token.SUB:
		return demote(c.F.SubN(a, b))
	case token.MUL:
		return demote(c.F.MulN(a, b))
	case token.QUO:
		if b.IsZero() {
			return c.divZero(x)
		}
		if _, ok := b.Rat(); !ok {
			if c.Branch(c.zeroTerm(b.N)) {
				if c.E.Verbose && os.Getenv("VP_DEBUG") != "" {
					fmt.Printf("%s: zero divisor %s under\n", c.I.ID(), clip(c.F.SMT(b.N), 600))
					for _, t := range c.pc {
						pr := smt.NewPrinter(c.T, c.F.Ring)
						s, _ := pr.Script([]*smt.Term{t})
						fmt.Printf("   %s\n", clip(s, 900))
					}
				}
				return c.divZero(x)
			}
		}
		return demote(c.F.MulN(a, c.F.Inv(b)))
	}
	panic("realBin")
}

// divZero is x / +0.
func (c *Ctx) divZero(x Value) Value {
	c.note("division by zero")
	if c.truth(c.fcmp(token.GTR, x, 0.0)) {
		return math.Inf(1)
	}
	if c.truth(c.fcmp(token.LSS, x, 0.0)) {
		return math.Inf(-1)
	}
	return math.NaN()
}

func (c *Ctx) fneg(v Value) Value {
	v = c.plain(v)
	switch x := v.(type) {
	case float64:
		if c.Mode == Real && x == 0 {
			return 0.0
		}
		return -x
	case *smt.Term:
		return c.T.App(smt.FP, "fp.neg", x)
	case *alg.Num:
		return c.F.Neg(x)
	case *smt.Lin:
		return c.fbin(token.SUB, 0.0, x)
	}
	panic(unsupported("negation"))
}

// zeroTerm is "p = 0", split over the factors that are easily found.
func (c *Ctx) zeroTerm(p *alg.Poly) *smt.Term {
	if p.IsConst() {
		return c.T.BoolC(p.IsZero())
	}
	if t, ok := c.zeroMemo[p.Key()]; ok {
		return t
	}
	var ts []*smt.Term
	if c.sos(p) && len(p.T) > 1 {
		for i := range p.T {
			m := &alg.Poly{T: []alg.Term{{M: p.T[i].M, C: big.NewInt(1)}}}
			ts = append(ts, c.zeroTerm(m))
		}
		t := c.T.And(ts...)
		c.zeroMemo[p.Key()] = t
		return t
	}
	rest := p
	for a := range c.F.Names {
		m := uint8(255)
		for i := range rest.T {
			if e := rest.T[i].M[a]; e < m {
				m = e
			}
		}
		if m == 0 || m == 255 {
			continue
		}
		ap := alg.AtomPoly(a)
		for k := uint8(0); k < m; k++ {
			rest = c.F.TryDiv(rest, ap)
		}
		switch c.F.Kind[a] {
		case 's':
			ts = append(ts, c.zeroTerm(c.F.Sq[a]))
		case 'a':
			if fs, ok := c.argFac[a]; ok {
				for _, f := range fs {
					ts = append(ts, c.zeroTerm(f))
				}
			} else {
				ts = append(ts, c.zeroTerm(c.F.Arg[a]))
			}
		default:
			ts = append(ts, c.T.PolyZero(ap))
		}
	}
	if !rest.IsConst() {
		if !c.F.HasAlgebraic(rest) {
			ct := rest.Content()
			if s := c.F.Sqrt(rest.DivInt(ct)); s != nil {
				ts = append(ts, c.zeroTerm(s))
				rest = alg.One
			}
		}
		if !rest.IsConst() {
			ts = append(ts, c.T.PolyZero(rest))
		}
	}
	t := c.T.Or(ts...)
	c.zeroMemo[p.Key()] = t
	return t
}

// sos reports that every monomial is an even power with positive coefficient
// (roots and absolute values count as positive).
func (c *Ctx) sos(p *alg.Poly) bool {
	for i := range p.T {
		if p.T[i].C.Sign() < 0 {
			return false
		}
		for a, e := range p.T[i].M {
			if e&1 == 1 && c.F.Sq[a] == nil {
				return false
			}
		}
	}
	return true
}

// positiveFactor reports that a nonzero factor is positive.
func (c *Ctx) positiveFactor(p *alg.Poly) bool {
	if c.sos(p) {
		return true
	}
	return c.pcSet[c.T.PolyPos(p).ID]
}

func (c *Ctx) posTerm(p *alg.Poly) *smt.Term {
	if p.IsConst() {
		return c.T.BoolC(p.ConstVal().Sign() > 0)
	}
	// drop factors of known sign: even monomial powers and roots
	var nz []*smt.Term
	for a := range c.F.Names {
		m := uint8(255)
		for i := range p.T {
			if e := p.T[i].M[a]; e < m {
				m = e
			}
		}
		if m == 0 || m == 255 {
			continue
		}
		ap := alg.AtomPoly(a)
		drop := m &^ 1
		if c.F.Sq[a] != nil {
			drop = m
		}
		for k := uint8(0); k < drop; k++ {
			p = c.F.TryDiv(p, ap)
		}
		if drop > 0 {
			nz = append(nz, c.T.Not(c.zeroTerm(ap)))
		}
	}
	var t *smt.Term
	switch {
	case p.IsConst():
		t = c.T.BoolC(p.ConstVal().Sign() > 0)
	case c.sos(p):
		t = c.T.Not(c.zeroTerm(p))
	case c.sos(p.Neg()):
		t = c.T.False
	default:
		t = nil
		if !c.F.HasAlgebraic(p) {
			ct := p.Content()
			if s := c.F.Sqrt(p.DivInt(new(big.Int).Abs(ct))); s != nil {
				t = c.T.Not(c.zeroTerm(s))
			} else if s := c.F.Sqrt(p.Neg().DivInt(new(big.Int).Abs(ct))); s != nil {
				t = c.T.False
			}
		}
		if t == nil {
			t = c.T.PolyPos(p)
		}
	}
	return c.T.And(append(nz, t)...)
}

func (c *Ctx) fcmp(op token.Token, x, y Value) Value {
	xf, ok1 := x.(float64)
	yf, ok2 := y.(float64)
	if ok1 && ok2 {
		return cmpF(op, xf, yf)
	}
	switch c.Mode {
	case FP:
		if ok1 && math.IsNaN(xf) || ok2 && math.IsNaN(yf) {
			return op == token.NEQ
		}
		a, b := c.fp(x), c.fp(y)
		var t *smt.Term
		if (op == token.EQL || op == token.NEQ) && a.ID > b.ID {
			a, b = b, a
		}
		switch op {
		case token.EQL, token.NEQ:
			if a == b {
				t = c.T.Not(c.T.App(smt.Bool, "fp.isNaN", a))
			} else {
				t = c.T.App(smt.Bool, "fp.eq", a, b)
			}
			if op == token.NEQ {
				t = c.T.Not(t)
			}
		case token.LSS:
			t = c.T.App(smt.Bool, "fp.lt", a, b)
		case token.GTR:
			t = c.T.App(smt.Bool, "fp.lt", b, a)
		case token.LEQ:
			t = c.T.App(smt.Bool, "fp.leq", a, b)
		case token.GEQ:
			t = c.T.App(smt.Bool, "fp.leq", b, a)
		}
		return c.boolVal(t)
	case Lin:
		if (ok1 && (math.IsNaN(xf) || math.IsInf(xf, 0))) || (ok2 && (math.IsNaN(yf) || math.IsInf(yf, 0))) {
			if ok1 {
				return cmpF(op, xf, 0)
			}
			return cmpF(op, 0, yf)
		}
		d := c.fbin(token.SUB, y, x) // y - x
		if f, ok := d.(float64); ok {
			return cmpF(op, 0, f)
		}
		l := d.(*smt.Lin)
		switch op {
		case token.EQL:
			return c.boolVal(c.T.LinZero(l))
		case token.NEQ:
			return c.boolVal(c.T.Not(c.T.LinZero(l)))
		case token.LSS:
			return c.boolVal(c.T.LinPos(l))
		case token.GEQ:
			return c.boolVal(c.T.Not(c.T.LinPos(l)))
		}
		n := c.fneg(l).(*smt.Lin)
		if op == token.GTR {
			return c.boolVal(c.T.LinPos(n))
		}
		return c.boolVal(c.T.Not(c.T.LinPos(n)))
	}
	// reals
	if m, ok := x.(*Most); ok {
		return c.mostCmp(op, m, y)
	}
	if m, ok := y.(*Most); ok {
		return c.mostCmp(flip(op), m, x)
	}
	if (ok1 && (math.IsNaN(xf) || math.IsInf(xf, 0))) || (ok2 && (math.IsNaN(yf) || math.IsInf(yf, 0))) {
		if ok1 {
			return cmpF(op, xf, 0)
		}
		return cmpF(op, 0, yf)
	}
	a, _ := c.num(x)
	b, _ := c.num(y)
	if op != token.EQL && op != token.NEQ {
		if t, ok := c.sizeCmp(op, a, b); ok {
			return c.boolVal(t)
		}
		if t, ok := c.absCmp(op, a, b); ok {
			c.nonZero(op, a, b, t)
			return c.boolVal(t)
		}
	}
	d := c.F.SubN(b, a) // y - x
	if q, ok := d.Rat(); ok {
		return cmpInt(op, 0, int64(q.Sign()))
	}
	pos := func(n *alg.Num) *smt.Term { return c.posTerm(c.F.OddPart(n, c.positiveFactor)) }
	var t *smt.Term
	switch op {
	case token.EQL:
		t = c.zeroTerm(d.N)
	case token.NEQ:
		t = c.T.Not(c.zeroTerm(d.N))
	case token.LSS:
		t = pos(d)
	case token.GTR:
		t = pos(c.F.Neg(d))
	case token.LEQ:
		t = c.T.Not(pos(c.F.Neg(d)))
	case token.GEQ:
		t = c.T.Not(pos(d))
	}
	if op != token.EQL && op != token.NEQ {
		c.nonZero(op, a, b, t)
	}
	return c.boolVal(t)
}

// nonZero notes that a number that reaches a positive one is not zero; t is
// the comparison of a and b.
func (c *Ctx) nonZero(op token.Token, a, b *alg.Num, t *smt.Term) {
	if t == c.T.True || t == c.T.False {
		return
	}
	positive := func(x *alg.Num) bool {
		if q, ok := x.Rat(); ok {
			return q.Sign() > 0
		}
		return c.pcSet[c.posTerm(c.F.OddPart(x, c.positiveFactor)).ID]
	}
	lemma := func(t *smt.Term, big, small *alg.Num, strict bool) {
		if _, ok := big.Rat(); ok {
			return
		}
		if positive(small) || strict && c.nonNegMono(small) {
			c.lemmas[t.ID] = append(c.lemmas[t.ID], c.T.Not(c.zeroTerm(big.N)))
		}
	}
	switch op {
	case token.LSS:
		lemma(t, b, a, true)
		lemma(c.T.Not(t), a, b, false)
	case token.LEQ:
		lemma(t, b, a, false)
		lemma(c.T.Not(t), a, b, true)
	case token.GTR:
		lemma(t, a, b, true)
		lemma(c.T.Not(t), b, a, false)
	case token.GEQ:
		lemma(t, a, b, false)
		lemma(c.T.Not(t), b, a, true)
	}
}

// singleAtomAbs recognises c*|p|/prod(positive) and roots.
func (c *Ctx) nonNegMono(x *alg.Num) bool {
	if x.C.Sign() < 0 || len(x.N.T) != 1 {
		return false
	}
	alge := false
	for a, e := range x.N.T[0].M {
		if e == 0 {
			continue
		}
		if c.F.Sq[a] == nil && e&1 == 1 {
			return false
		}
		if c.F.Sq[a] != nil {
			alge = true
		}
	}
	for _, d := range x.D {
		if d.E&1 == 1 && !c.positiveFactor(d.P) {
			return false
		}
	}
	return alge
}

// absCmp compares non-negative monomials in roots and absolute values by
// squaring.
func (c *Ctx) absCmp(op token.Token, a, b *alg.Num) (*smt.Term, bool) {
	na, nb := c.nonNegMono(a), c.nonNegMono(b)
	qa, ca := a.Rat()
	qb, cb := b.Rat()
	if !(na && nb) && !(na && cb) && !(ca && nb) {
		return nil, false
	}
	if cb && qb.Sign() < 0 {
		return c.T.BoolC(op == token.GTR || op == token.GEQ), true
	}
	if ca && qa.Sign() < 0 {
		return c.T.BoolC(op == token.LSS || op == token.LEQ), true
	}
	a2, b2 := c.F.MulN(a, a), c.F.MulN(b, b)
	v := c.fcmp(op, demote(a2), demote(b2))
	return c.boolTerm(v), true
}

func (c *Ctx) fabs(v Value) Value {
	v = c.plain(v)
	switch x := v.(type) {
	case float64:
		return math.Abs(x)
	case *smt.Term:
		return c.T.App(smt.FP, "fp.abs", x)
	case *smt.Lin:
		if c.truth(c.fcmp(token.LSS, x, 0.0)) {
			return c.fneg(x)
		}
		return x
	case *alg.Num:
		// known sign?
		p := c.F.OddPart(x, c.positiveFactor)
		if c.sos(p) {
			return x
		}
		if c.sos(p.Neg()) {
			return c.F.Neg(x)
		}
		pt := c.posTerm(p)
		nt := c.posTerm(p.Neg())
		if c.pcSet[pt.ID] || c.pcSet[c.T.Not(nt).ID] || pt == c.T.True || nt == c.T.False {
			return x
		}
		if c.pcSet[nt.ID] || c.pcSet[c.T.Not(pt).ID] || nt == c.T.True || pt == c.T.False {
			return c.F.Neg(x)
		}
		// |C| * |N * odd| / prod even
		n := x.N
		var d []alg.Fac
		for _, f := range x.D {
			e := f.E
			if e&1 == 1 && !c.positiveFactor(f.P) {
				n = c.F.Mul(n, f.P)
				e++
			}
			d = append(d, alg.Fac{P: f.P, E: e})
		}
		ct := n.Content()
		n = n.DivInt(ct)
		cf := new(big.Rat).Abs(x.C)
		cf.Mul(cf, new(big.Rat).SetInt(new(big.Int).Abs(ct)))
		atom := c.F.AbsAtom(n)
		if _, ok := c.argFac[atom]; !ok && len(x.D) > 0 {
			fs := []*alg.Poly{x.N}
			for _, f := range x.D {
				if f.E&1 == 1 && !c.positiveFactor(f.P) {
					fs = append(fs, f.P)
				}
			}
			c.argFac[atom] = fs
		}
		an := alg.AtomPoly(atom)
		return &alg.Num{C: cf, N: an, D: d}
	}
	panic(unsupported("abs"))
}

func (c *Ctx) fsqrt(v Value) Value {
	v = c.plain(v)
	switch x := v.(type) {
	case float64:
		s := math.Sqrt(x)
		if c.Mode != Real || math.IsNaN(s) || math.IsInf(s, 0) || math.FMA(s, s, -x) == 0 {
			return s
		}
		n, _ := c.num(x)
		return c.sqrtNum(n)
	case *smt.Term:
		return c.T.App(smt.FP, "fp.sqrt RNE", x)
	case *alg.Num:
		if c.truth(c.fcmp(token.LSS, x, 0.0)) {
			return math.NaN()
		}
		return c.sqrtNum(x)
	}
	return math.Sqrt(c.sample(v, "sqrt"))
}

// sqrtNum is the root of x, already known to be >= 0.
func (c *Ctx) sqrtNum(x *alg.Num) Value {
	if x.IsZero() {
		return 0.0
	}
	// x = p/q * N / prod f^e; root = sqrt(p*q*N*prod odd f) / (q * prod |f|^ceil(e/2))
	p, q := x.C.Num(), x.C.Denom()
	k := new(big.Int).Mul(p, q)
	out := new(big.Rat).SetFrac(big.NewInt(1), q)
	inner := x.N
	den := Value(1.0)
	for _, f := range x.D {
		e := f.E
		if e&1 == 1 {
			inner = c.F.Mul(inner, f.P)
			e++
		}
		if h := e / 2; h > 0 {
			fv := Value(demote(alg.FromPoly(f.P)))
			if h&1 == 1 && !c.positiveFactor(f.P) {
				fv = c.signAbs(fv)
			}
			for i := 0; i < h; i++ {
				den = c.fbin(token.MUL, den, fv)
			}
		}
	}
	ct := inner.Content()
	inner = inner.DivInt(ct)
	k.Mul(k, ct)
	if k.Sign() < 0 {
		inner = inner.Neg()
		k.Neg(k)
	}
	// square part of k
	sq, sf := squarePart(k)
	out.Mul(out, new(big.Rat).SetInt(sq))
	res := Value(demote(alg.FromRat(out)))
	// factors of inner of even multiplicity
	if !inner.IsConst() && !c.F.HasAlgebraic(inner) {
		// monomial content
		for a := range c.F.Names {
			m := uint8(255)
			for i := range inner.T {
				if e := inner.T[i].M[a]; e < m {
					m = e
				}
			}
			if m == 255 || m < 2 {
				continue
			}
			ap := alg.AtomPoly(a)
			for i := uint8(0); i < m&^1; i++ {
				inner = c.F.TryDiv(inner, ap)
			}
			av := Value(alg.FromPoly(ap))
			if (m/2)&1 == 1 {
				av = c.signAbs(av)
			}
			for i := uint8(0); i < m/2; i++ {
				res = c.fbin(token.MUL, res, av)
			}
		}
		if s := c.F.Sqrt(inner); s != nil && !s.IsConst() {
			res = c.fbin(token.MUL, res, c.signAbs(alg.FromPoly(s)))
			inner = alg.One
		}
	}
	if inner.IsConst() {
		inner = alg.One
		if sf.Cmp(big.NewInt(1)) != 0 {
			r := alg.FromPoly(alg.AtomPoly(c.F.Root(alg.ConstPoly(sf))))
			res = c.fbin(token.MUL, res, r)
		}
	} else {
		r := alg.FromPoly(alg.AtomPoly(c.F.Root(inner.Scale(sf))))
		res = c.fbin(token.MUL, res, r)
	}
	return c.fbin(token.QUO, res, den)
}

// signAbs is |v| by case split (cheap when the path decides it).
func (c *Ctx) signAbs(v Value) Value {
	v = c.plain(v)
	if f, ok := v.(float64); ok {
		return math.Abs(f)
	}
	a := c.fabs(v)
	if n, ok := a.(*alg.Num); ok && len(n.N.T) == 1 {
		alge := false
		for i, e := range n.N.T[0].M {
			if e != 0 && c.F.Kind[i] == 'a' {
				alge = true
			}
		}
		if !alge {
			return a
		}
		if c.truth(c.fcmp(token.LSS, v, 0.0)) {
			return c.fneg(v)
		}
		return v
	}
	return a
}

func squarePart(k *big.Int) (sq, sf *big.Int) {
	sq, sf = big.NewInt(1), new(big.Int).Set(k)
	r := new(big.Int).Sqrt(sf)
	if new(big.Int).Mul(r, r).Cmp(sf) == 0 {
		return r, big.NewInt(1)
	}
	for _, p := range []int64{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37} {
		pp := big.NewInt(p * p)
		for {
			var q, rem big.Int
			q.QuoRem(sf, pp, &rem)
			if rem.Sign() != 0 {
				break
			}
			sf.Set(&q)
			sq.Mul(sq, big.NewInt(p))
		}
	}
	r.Sqrt(sf)
	if new(big.Int).Mul(r, r).Cmp(sf) == 0 {
		return sq.Mul(sq, r), big.NewInt(1)
	}
	return sq, sf
}

func (c *Ctx) fmax(x, y Value) Value { return c.fminmax(x, y, token.GTR, math.Max) }
func (c *Ctx) fmin(x, y Value) Value { return c.fminmax(x, y, token.LSS, math.Min) }

func (c *Ctx) fminmax(x, y Value, op token.Token, native func(float64, float64) float64) Value {
	xf, ok1 := x.(float64)
	yf, ok2 := y.(float64)
	if ok1 && ok2 {
		return native(xf, yf)
	}
	if c.Mode == FP {
		// infinities win, then NaN, then zeros by sign, then order
		a, b := c.fp(x), c.fp(y)
		t := c.T
		isNaN := func(v *smt.Term) *smt.Term { return t.App(smt.Bool, "fp.isNaN", v) }
		inf := t.F(math.Inf(1))
		sel := "fp.lt"
		first, second := b, a // max: x > y is y < x
		if op == token.LSS {
			inf = t.F(math.Inf(-1))
			first, second = a, b
		}
		bothZero := t.And(t.App(smt.Bool, "fp.isZero", a), t.App(smt.Bool, "fp.isZero", b))
		neg := t.App(smt.Bool, "fp.isNegative", a)
		zsel := t.App(smt.FP, "ite", neg, b, a) // max: the non-negative one
		if op == token.LSS {
			zsel = t.App(smt.FP, "ite", neg, a, b)
		}
		r := t.App(smt.FP, "ite", t.App(smt.Bool, sel, first, second), a, b)
		r = t.App(smt.FP, "ite", bothZero, zsel, r)
		r = t.App(smt.FP, "ite", t.Or(isNaN(a), isNaN(b)), t.F(math.NaN()), r)
		r = t.App(smt.FP, "ite", t.Or(c.eqTerm(a, inf), c.eqTerm(b, inf)), inf, r)
		return r
	}
	if ok1 && math.IsNaN(xf) || ok2 && math.IsNaN(yf) {
		return math.NaN()
	}
	if op == token.GTR && c.Mode == Real && (!ok1 || !math.IsInf(xf, 0)) && (!ok2 || !math.IsInf(yf, 0)) {
		return c.most(x, y)
	}
	if c.truth(c.fcmp(op, x, y)) {
		return x
	}
	return y
}

func (c *Ctx) isNaN(v Value) Value {
	v = c.plain(v)
	switch x := v.(type) {
	case float64:
		return math.IsNaN(x)
	case *smt.Term:
		return c.boolVal(c.T.App(smt.Bool, "fp.isNaN", x))
	}
	return false
}

func (c *Ctx) isInf(v Value, sign int64) Value {
	v = c.plain(v)
	switch x := v.(type) {
	case float64:
		return math.IsInf(x, int(sign))
	case *smt.Term:
		pos := c.eqTerm(x, c.T.F(math.Inf(1)))
		neg := c.eqTerm(x, c.T.F(math.Inf(-1)))
		switch {
		case sign > 0:
			return c.boolVal(pos)
		case sign < 0:
			return c.boolVal(neg)
		}
		return c.boolVal(c.T.Or(pos, neg))
	}
	return false
}

func (c *Ctx) complexOp(op token.Token, x, y Complex) Value {
	a, ok1 := x.Re.(float64)
	b, ok2 := x.Im.(float64)
	p, ok3 := y.Re.(float64)
	q, ok4 := y.Im.(float64)
	if ok1 && ok2 && ok3 && ok4 && c.Mode != Real {
		u, v := complex(a, b), complex(p, q)
		var r complex128
		switch op {
		case token.ADD:
			r = u + v
		case token.SUB:
			r = u - v
		case token.MUL:
			r = u * v
		case token.QUO:
			r = u / v
		case token.EQL:
			return u == v
		case token.NEQ:
			return u != v
		}
		return Complex{real(r), imag(r)}
	}
	add := func(s, t Value) Value { return c.fbin(token.ADD, s, t) }
	sub := func(s, t Value) Value { return c.fbin(token.SUB, s, t) }
	mul := func(s, t Value) Value { return c.fbin(token.MUL, s, t) }
	switch op {
	case token.ADD:
		return Complex{add(x.Re, y.Re), add(x.Im, y.Im)}
	case token.SUB:
		return Complex{sub(x.Re, y.Re), sub(x.Im, y.Im)}
	case token.MUL:
		return Complex{sub(mul(x.Re, y.Re), mul(x.Im, y.Im)), add(mul(x.Re, y.Im), mul(x.Im, y.Re))}
	case token.QUO:
		if c.Mode == FP {
			panic(unsupported("symbolic complex division in fp mode"))
		}
		d := add(mul(y.Re, y.Re), mul(y.Im, y.Im))
		re := add(mul(x.Re, y.Re), mul(x.Im, y.Im))
		im := sub(mul(x.Im, y.Re), mul(x.Re, y.Im))
		return Complex{c.fbin(token.QUO, re, d), c.fbin(token.QUO, im, d)}
	case token.EQL, token.NEQ:
		e := c.T.And(c.boolTerm(c.fcmp(token.EQL, x.Re, y.Re)), c.boolTerm(c.fcmp(token.EQL, x.Im, y.Im)))
		if op == token.NEQ {
			e = c.T.Not(e)
		}
		return c.boolVal(e)
	}
	panic(unsupported("complex operator"))
}
