package ex

import (
	"fmt"
	"go/token"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/engine/alg"
	"verif/engine/smt"
)

type intrinsicFn func(*Ctx, []Value) Value

func (c *Ctx) intrinsic(fn *ssa.Function) (intrinsicFn, bool) {
	if fn.Pkg == nil && fn.Object() == nil {
		return nil, false
	}
	if fn.Pkg != nil && (fn.Pkg == c.P.Lin || fn.Pkg == c.P.H) {
		return nil, false
	}
	if f, ok := intrinsics[fn.String()]; ok {
		return f, true
	}
	if fn.Pkg != nil {
		switch p := fn.Pkg.Pkg.Path(); {
		case strings.HasPrefix(fn.String(), "math."):
			if f, ok := nativeMath1[fn.Name()]; ok {
				return func(c *Ctx, a []Value) Value {
					if x, ok := a[0].(float64); ok {
						return f(x)
					}
					if v, ok := c.rounded(fn.Name(), a[0]); ok {
						return v
					}
					return f(c.sample(a[0], "math."+fn.Name()+" of a symbolic value"))
				}, true
			}
		case p == "fmt" || p == "os" || p == "log":
			return func(c *Ctx, a []Value) Value {
				if fn.Signature.Results().Len() == 1 {
					return Opaque{p + "." + fn.Name()}
				}
				return zero(fn.Signature.Results())
			}, true
		}
	}
	return nil, false
}

var nativeMath1 = map[string]func(float64) float64{
	"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10,
	"Exp": math.Exp, "Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Cbrt": math.Cbrt, "Round": math.Round,
	"RoundToEven": math.RoundToEven, "Log1p": math.Log1p, "Expm1": math.Expm1, "Exp2": math.Exp2, "Atan": math.Atan,
	"Asin": math.Asin, "Acos": math.Acos, "Sinh": math.Sinh, "Cosh": math.Cosh, "Tanh": math.Tanh, "Gamma": math.Gamma,
	"Logb": math.Logb,
}

func str(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported("opaque string argument"))
	}
	return s
}

func (c *Ctx) input(name string) Value {
	switch name {
	case "as", "let", "par", "exists", "forall", "match", "_", "!":
		panic(unsupported("input called " + name)) // words of SMT-LIB
	}
	c.inputs[name] = true
	switch c.Mode {
	case FP:
		return c.T.FPVar(name)
	case Real:
		return alg.FromPoly(alg.AtomPoly(c.F.Var(name)))
	}
	return &smt.Lin{K: map[int]float64{c.T.LinVar(name): 1}}
}

func (c *Ctx) hypot(x, y Value) Value {
	xf, ok1 := x.(float64)
	yf, ok2 := y.(float64)
	if ok1 && ok2 && c.Mode != Real {
		return math.Hypot(xf, yf)
	}
	if c.Mode == FP {
		if ok1 && math.IsNaN(xf) || ok2 && math.IsNaN(yf) {
			// infinite if the other one is, else NaN
			o := x
			if ok1 && math.IsNaN(xf) {
				o = y
			}
			if c.truth(c.fcmp(token.EQL, c.fabs(o), math.Inf(1))) {
				return math.Inf(1)
			}
			return math.NaN()
		}
		// any value that is not negative, the same for the same arguments
		v := c.T.FPVar(fmt.Sprintf("!hypot%d_%d", c.fp(x).ID, c.fp(y).ID))
		c.assume(c.T.Not(c.T.App(smt.Bool, "fp.lt", v, c.fp(0.0))))
		return v
	}
	if c.Mode != Real {
		return math.Hypot(c.sample(x, "symbolic Hypot"), c.sample(y, "symbolic Hypot"))
	}
	return c.fsqrt(c.fbin(token.ADD, c.fbin(token.MUL, x, x), c.fbin(token.MUL, y, y)))
}

var intrinsics map[string]intrinsicFn

func init() {
	const s = "verif/engine/sym."
	intrinsics = map[string]intrinsicFn{
		"math.Abs":   func(c *Ctx, a []Value) Value { return c.fabs(a[0]) },
		"math.Sqrt":  func(c *Ctx, a []Value) Value { return c.fsqrt(a[0]) },
		"math.sqrt":  func(c *Ctx, a []Value) Value { return c.fsqrt(a[0]) },
		"math.Max":   func(c *Ctx, a []Value) Value { return c.fmax(a[0], a[1]) },
		"math.Min":   func(c *Ctx, a []Value) Value { return c.fmin(a[0], a[1]) },
		"math.Hypot": func(c *Ctx, a []Value) Value { return c.hypot(a[0], a[1]) },
		"math.IsNaN": func(c *Ctx, a []Value) Value { return c.isNaN(a[0]) },
		"math.IsInf": func(c *Ctx, a []Value) Value { return c.isInf(a[0], a[1].(int64)) },
		"math.Inf":   func(c *Ctx, a []Value) Value { return math.Inf(int(a[0].(int64))) },
		"math.NaN":   func(c *Ctx, a []Value) Value { return math.NaN() },
		"math.Float64bits": func(c *Ctx, a []Value) Value {
			switch x := a[0].(type) {
			case float64:
				return int64(math.Float64bits(x))
			case *smt.Term:
				if x.Op == "fpvar" {
					return c.T.IntVar(x.Name)
				}
				// a fresh bit pattern whose value is x
				n := c.T.IntVar(fmt.Sprintf("!bits%d", x.ID))
				c.assume(c.eqTerm(c.T.App(smt.FP, "(_ to_fp 11 53)", n), x))
				return n
			}
			if n, ok := a[0].(*alg.Num); ok && c.Mode == Real {
				return c.bitsOf(n)
			}
			panic(unsupported("Float64bits"))
		},
		"math.Float64frombits": func(c *Ctx, a []Value) Value {
			switch x := a[0].(type) {
			case int64:
				return math.Float64frombits(uint64(x))
			case *smt.Term:
				if n, ok := c.bits[x.ID]; ok {
					return n
				}
				if c.Mode == FP {
					return c.T.App(smt.FP, "(_ to_fp 11 53)", x)
				}
			}
			panic(unsupported("Float64frombits"))
		},
		"math.Signbit": func(c *Ctx, a []Value) Value {
			switch x := a[0].(type) {
			case float64:
				return math.Signbit(x)
			case *smt.Term:
				return c.boolVal(c.T.App(smt.Bool, "fp.isNegative", x))
			}
			return c.fcmp(token.LSS, a[0], 0.0)
		},
		"math.Copysign": func(c *Ctx, a []Value) Value {
			x, ok1 := a[0].(float64)
			y, ok2 := a[1].(float64)
			if ok1 && ok2 {
				return math.Copysign(x, y)
			}
			m := c.fabs(a[0])
			if c.truth(c.fcmp(token.LSS, a[1], 0.0)) {
				return c.fneg(m)
			}
			return m
		},
		"math.Pow": func(c *Ctx, a []Value) Value {
			if y, ok := a[1].(float64); ok {
				if x, ok := a[0].(float64); ok && c.Mode != Real {
					return math.Pow(x, y)
				}
				if y == math.Trunc(y) && math.Abs(y) <= 64 {
					r := Value(1.0)
					for i := 0; i < int(math.Abs(y)); i++ {
						r = c.fbin(token.MUL, r, a[0])
					}
					if y < 0 {
						r = c.fbin(token.QUO, 1.0, r)
					}
					return r
				}
				if y == 0.5 {
					return c.fsqrt(a[0])
				}
			}
			return math.Pow(c.sample(a[0], "Pow"), c.sample(a[1], "Pow"))
		},
		"math.Mod": func(c *Ctx, a []Value) Value {
			x, ok1 := a[0].(float64)
			y, ok2 := a[1].(float64)
			if ok1 && ok2 {
				return math.Mod(x, y)
			}
			return math.Mod(c.sample(a[0], "Mod"), c.sample(a[1], "Mod"))
		},
		"math.FMA": func(c *Ctx, a []Value) Value {
			if c.Mode == Real || c.Mode == Lin {
				return c.fbin(token.ADD, c.fbin(token.MUL, a[0], a[1]), a[2])
			}
			x, ok1 := a[0].(float64)
			y, ok2 := a[1].(float64)
			z, ok3 := a[2].(float64)
			if ok1 && ok2 && ok3 {
				return math.FMA(x, y, z)
			}
			return c.T.App(smt.FP, "fp.fma RNE", c.fp(a[0]), c.fp(a[1]), c.fp(a[2]))
		},
		"fmt.Sprintf": func(c *Ctx, a []Value) Value {
			var args []interface{}
			for _, v := range a[1].(Slice) {
				i, ok := v.(Iface)
				if !ok {
					return Opaque{"sprintf"}
				}
				switch x := i.V.(type) {
				case int64, float64, string, bool:
					args = append(args, x)
				default:
					return Opaque{"sprintf"}
				}
			}
			f, ok := a[0].(string)
			if !ok {
				return Opaque{"sprintf"}
			}
			return fmt.Sprintf(f, args...)
		},
		"fmt.Sprint":   func(c *Ctx, a []Value) Value { return Opaque{"sprint"} },
		"fmt.Sprintln": func(c *Ctx, a []Value) Value { return Opaque{"sprintln"} },
		"fmt.Errorf":   func(c *Ctx, a []Value) Value { panic(unsupported("fmt.Errorf")) },
		"strconv.FormatInt": func(c *Ctx, a []Value) Value {
			x, ok := a[0].(int64)
			if !ok {
				panic(unsupported("FormatInt of a symbolic value"))
			}
			return strconv.FormatInt(x, int(a[1].(int64)))
		},
		"strconv.Itoa": func(c *Ctx, a []Value) Value {
			x, ok := a[0].(int64)
			if !ok {
				return Opaque{"itoa"}
			}
			return strconv.Itoa(int(x))
		},

		s + "F64": func(c *Ctx, a []Value) Value { return c.input(str(a[0])) },
		s + "F64s": func(c *Ctx, a []Value) Value {
			n := int(a[1].(int64))
			r := make(Slice, n)
			for i := range r {
				r[i] = c.input(fmt.Sprintf("%s_%d", str(a[0]), i))
			}
			return r
		},
		s + "Mat": func(c *Ctx, a []Value) Value {
			m, n := int(a[1].(int64)), int(a[2].(int64))
			r := make(Slice, m)
			for i := range r {
				row := make(Slice, n)
				for j := range row {
					row[j] = c.input(fmt.Sprintf("%s_%d_%d", str(a[0]), i, j))
				}
				r[i] = row
			}
			return r
		},
		s + "Int": func(c *Ctx, a []Value) Value {
			c.intInputs[str(a[0])] = true
			return c.T.IntVar(str(a[0]))
		},
		s + "IntIn": func(c *Ctx, a []Value) Value {
			n := str(a[0])
			c.intInputs[n] = true
			t := c.T.IntVar(n)
			lo, hi := int(a[1].(int64)), int(a[2].(int64))
			c.assume(c.T.And(c.bvCmp(token.GEQ, t, c.T.BV(uint64(int64(lo))), true), c.bvCmp(token.LEQ, t, c.T.BV(uint64(int64(hi))), true)))
			return int64(c.concretize(t, lo, hi))
		},
		s + "Assume": func(c *Ctx, a []Value) Value {
			if b, ok := a[0].(bool); ok {
				if !b {
					panic(infeasible{})
				}
				return nil
			}
			c.assume(a[0].(*smt.Term))
			if c.pos >= len(c.prefix) && !c.boxed(a[0].(*smt.Term)) { // replayed prefixes are known feasible
				if r, _ := c.query(nil, false, c.feasMS()); r == smt.Unsat {
					panic(infeasible{})
				}
			}
			return nil
		},
		s + "Size": func(c *Ctx, a []Value) Value {
			c.size(a[0], a[1].(float64), a[2].(float64))
			return nil
		},
		s + "Within": func(c *Ctx, a []Value) Value {
			c.size(a[0], 0, a[1].(float64))
			return nil
		},
		s + "Either": func(c *Ctx, a []Value) Value {
			return c.boolVal(c.T.Or(c.boolTerm(a[0]), c.boolTerm(a[1])))
		},
		s + "Assert": func(c *Ctx, a []Value) Value {
			c.oblige(c.boolTerm(a[0]), str(a[1]))
			return nil
		},
		s + "Same": func(c *Ctx, a []Value) Value {
			x, ok1 := a[0].(float64)
			y, ok2 := a[1].(float64)
			if ok1 && ok2 {
				c.oblige(c.T.BoolC(math.Float64bits(x) == math.Float64bits(y) || math.IsNaN(x) && math.IsNaN(y)), str(a[2]))
				return nil
			}
			if c.Mode == FP {
				p, q := c.fp(a[0]), c.fp(a[1])
				if p == q {
					c.pair(p)
				}
				c.oblige(c.eqTerm(p, q), str(a[2]))
				return nil
			}
			c.oblige(c.boolTerm(c.fcmp(token.EQL, a[0], a[1])), str(a[2]))
			return nil
		},
		s + "Near": func(c *Ctx, a []Value) Value {
			c.near(a[0], a[1], a[2].(float64), str(a[3]))
			return nil
		},
		s + "AtMost": func(c *Ctx, a []Value) Value {
			tol := a[2].(float64)
			if c.Mode == FP {
				panic(unsupported("AtMost in fp mode"))
			}
			x, ok1 := a[0].(float64)
			y, ok2 := a[1].(float64)
			if ok1 && ok2 {
				c.oblige(c.T.BoolC(x <= y+tol*math.Max(1, math.Max(math.Abs(x), math.Abs(y)))), str(a[3]))
				return nil
			}
			c.oblige(c.boolTerm(c.fcmp(token.LEQ, c.fbin(token.SUB, a[0], tol), a[1])), str(a[3]))
			return nil
		},
		s + "Positive": func(c *Ctx, a []Value) Value {
			c.oblige(c.boolTerm(c.fcmp(token.GTR, a[0], 0.0)), str(a[1]))
			return nil
		},
		s + "Panics": func(c *Ctx, a []Value) Value { return c.catch(a[0]) },
		s + "Cover":  func(c *Ctx, a []Value) Value { c.covers = append(c.covers, str(a[0])); return nil },
		s + "Real": func(c *Ctx, a []Value) Value {
			switch x := a[0].(type) {
			case float64:
				return !math.IsNaN(x) && !math.IsInf(x, 0)
			case *smt.Term:
				return c.boolVal(c.T.Not(c.T.Or(c.T.App(smt.Bool, "fp.isNaN", x), c.T.App(smt.Bool, "fp.isInfinite", x))))
			}
			return true
		},
	}
}

func (c *Ctx) near(x, y Value, tol float64, msg string) {
	xf, ok1 := x.(float64)
	yf, ok2 := y.(float64)
	if ok1 && ok2 {
		c.oblige(c.T.BoolC(math.Abs(xf-yf) <= tol*math.Max(1, math.Max(math.Abs(xf), math.Abs(yf)))), msg)
		return
	}
	switch c.Mode {
	case FP:
		panic(unsupported("Near in fp mode"))
	case Real:
		if ok1 && !finite(xf) || ok2 && !finite(yf) {
			c.oblige(c.T.False, msg)
			return
		}
		a, ok1 := c.num(x)
		b, ok2 := c.num(y)
		if !ok1 || !ok2 {
			c.oblige(c.T.False, msg)
			return
		}
		d := c.F.SubN(a, b)
		if d.IsZero() {
			c.normalised++
			c.I.Asserted.Store(true)
			if len(a.N.T) > 0 && !(len(a.N.T) == 1 && a.N.IsConst()) {
				c.idents = append(c.idents, ident{a, b})
			}
			return
		}
		c.I.Asserted.Store(true)
		c.obl = append(c.obl, obligation{msg: msg, diff: d, tol: tol})
	case Lin:
		d := c.fbin(token.SUB, x, y)
		c.oblige(c.T.And(c.boolTerm(c.fcmp(token.LEQ, d, tol)), c.boolTerm(c.fcmp(token.GEQ, d, -tol))), msg)
	}
}

func finite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }

func (c *Ctx) catch(f Value) (ret Value) {
	depth, df := c.depth, len(c.deferFrames)
	defer func() {
		if r := recover(); r != nil {
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			c.depth = depth
			c.deferFrames = c.deferFrames[:df]
			ret = Tuple{true, tp.v}
		}
	}()
	c.invoke(f, nil)
	return Tuple{false, Iface{}}
}

// boxed reports that t is a bound on one variable, that the path says nothing
// else about that variable than bounds, and that these bounds leave room.
func (c *Ctx) boxed(t *smt.Term) bool {
	if c.Mode != Lin {
		return false
	}
	v := c.vars(t)
	if len(v) != 1 {
		return false
	}
	lo, hi := math.Inf(-1), math.Inf(1)
	for _, q := range c.pc {
		w := c.vars(q)
		has := false
		for _, x := range w {
			has = has || x == v[0]
		}
		if !has {
			continue
		}
		if len(w) != 1 {
			return false
		}
		neg := q.Op == "not"
		if neg {
			q = q.Args[0]
		}
		if q.Op != "lin>" || len(q.L.K) != 1 {
			return false
		}
		for _, k := range q.L.K {
			// C + k*x > 0
			b := -q.L.C / k
			if (k > 0) != neg {
				lo = math.Max(lo, b)
			} else {
				hi = math.Min(hi, b)
			}
		}
	}
	return lo < hi
}
