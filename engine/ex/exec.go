package ex

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"verif/engine/smt"
)

type targetPanic struct{ v Value }
type runtimeErr struct{ msg string }

type frame struct {
	fi        *fnInfo
	regs      []Value
	defers    []func()
	ret       Value
	panicking *targetPanic
	recovered bool
}

func (c *Ctx) get(fr *frame, o *opnd) Value {
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	if o.slot == -2 {
		return c.global(o.val.(*ssa.Global))
	}
	return o.val
}

func (c *Ctx) global(g *ssa.Global) *Value {
	if p, ok := c.globals[g]; ok {
		return p
	}
	v := zero(g.Type().Underlying().(*types.Pointer).Elem())
	p := &v
	c.globals[g] = p
	return p
}

func (c *Ctx) rtPanic(format string, args ...interface{}) {
	panic(targetPanic{Iface{c.runtimeErrType(), runtimeErr{fmt.Sprintf(format, args...)}}})
}

func (c *Ctx) runtimeErrType() types.Type { return types.Universe.Lookup("error").Type() }

// call invokes fn with evaluated arguments.
func (c *Ctx) call(fn *ssa.Function, args []Value, env []Value) Value {
	if f, ok := c.intrinsic(fn); ok {
		return f(c, args)
	}
	if fn.Name() == "init" && fn.Pkg != nil && fn.Synthetic != "" && fn.Signature.Recv() == nil {
		switch fn.Pkg {
		case c.P.H, c.P.Lin:
		default:
			return nil
		}
	}
	fi := c.P.info(fn)
	if len(fi.blocks) == 0 {
		panic(unsupported("no body for " + fn.String()))
	}
	c.depth++
	if c.depth > 2000 {
		panic(unsupported("call depth"))
	}
	defer func() { c.depth-- }()
	if fn.Pkg == c.P.Lin && !c.seen[fi] {
		c.seen[fi] = true
	}
	fr := &frame{fi: fi, regs: make([]Value, fi.nregs)}
	for i, s := range fi.params {
		fr.regs[s] = args[i]
	}
	for i, s := range fi.frees {
		fr.regs[s] = env[i]
	}
	if fn.Recover != nil {
		return c.runWithRecover(fr)
	}
	c.run(fr, 0)
	return fr.ret
}

func (c *Ctx) runWithRecover(fr *frame) (ret Value) {
	defer func() {
		if r := recover(); r != nil {
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			fr.panicking = &tp
			c.runDefers(fr)
			if fr.panicking != nil {
				panic(*fr.panicking)
			}
			c.run(fr, fr.fi.fn.Recover.Index)
			ret = fr.ret
		}
	}()
	c.run(fr, 0)
	return fr.ret
}

func (c *Ctx) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		c.deferFrames = append(c.deferFrames, fr)
		d()
		c.deferFrames = c.deferFrames[:len(c.deferFrames)-1]
	}
}

func (c *Ctx) run(fr *frame, start int) {
	prev := -1
	cur := start
	fi := fr.fi
	var phiTmp [16]Value
	joined := false // the variables of the block are set
	for {
		b := &fi.blocks[cur]
		if b.phis > 0 && !joined {
			k := b.preds[prev]
			tmp := phiTmp[:0]
			for i := 0; i < b.phis; i++ {
				tmp = append(tmp, c.get(fr, &b.ins[i].ops[k]))
			}
			for i := 0; i < b.phis; i++ {
				fr.regs[b.ins[i].dst] = tmp[i]
			}
		}
		joined = false
		c.steps += len(b.ins)
		if c.steps > c.MaxSteps {
			panic(stepLimit{})
		}
		if c.steps-c.timed > 2000 {
			c.timed = c.steps
			c.checkTime()
		}
		next := -1
		for i := b.phis; i < len(b.ins); i++ {
			x := &b.ins[i]
			c.at = x.in
			switch in := x.in.(type) {
			case *ssa.If:
				cond := c.get(fr, &x.ops[0])
				var t bool
				if bb, ok := cond.(bool); ok {
					t = bb
				} else if j, ok := c.maximum(fr, b, cur, in); ok {
					next, joined = j, true
					break
				} else {
					t = c.Branch(cond.(*smt.Term))
				}
				if t {
					next = in.Block().Succs[0].Index
				} else {
					next = in.Block().Succs[1].Index
				}
			case *ssa.Jump:
				next = in.Block().Succs[0].Index
			case *ssa.Return:
				switch len(x.ops) {
				case 0:
					fr.ret = nil
				case 1:
					fr.ret = c.get(fr, &x.ops[0])
				default:
					t := make(Tuple, len(x.ops))
					for k := range x.ops {
						t[k] = c.get(fr, &x.ops[k])
					}
					fr.ret = t
				}
				return
			case *ssa.Panic:
				panic(targetPanic{c.get(fr, &x.ops[0])})
			default:
				c.step(fr, x)
			}
		}
		if next < 0 {
			panic(unsupported("block without terminator in " + fi.name))
		}
		prev, cur = cur, next
	}
}

func (c *Ctx) deref(p Value) *Value {
	q, ok := p.(*Value)
	if !ok {
		c.rtPanic("invalid memory address or nil pointer dereference")
	}
	return q
}

// index turns an index value into a concrete one, forking as needed.
func (c *Ctx) index(v Value, n int) int {
	if i, ok := v.(int64); ok {
		if i < 0 || i >= int64(n) {
			c.rtPanic("index out of range [%d] with length %d", i, n)
		}
		return int(i)
	}
	v = c.reduce(v)
	if _, ok := v.(int64); ok {
		return c.index(v, n)
	}
	t := v.(*smt.Term)
	in := c.T.And(c.bvCmp(token.GEQ, t, c.T.BV(0), true), c.bvCmp(token.LSS, t, c.T.BV(uint64(n)), true))
	if !c.Branch(in) {
		c.rtPanic("index out of range [symbolic] with length %d", n)
	}
	return c.concretize(t, 0, n-1)
}

func (c *Ctx) concretize(t *smt.Term, lo, hi int) int {
	if k, ok := c.fixed[t.ID]; ok {
		return k
	}
	if p := c.span(t); p.lo >= int64(lo) && p.hi <= int64(hi) {
		lo, hi = int(p.lo), int(p.hi)
	}
	for hi-lo > 8 {
		mid := lo + (hi-lo)/2
		if c.Branch(c.bvCmp(token.LEQ, t, c.T.BV(uint64(int64(mid))), true)) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	for k := lo; k < hi; k++ {
		if c.Branch(c.eqTerm(t, c.T.BV(uint64(int64(k))))) {
			c.fixed[t.ID] = k
			return k
		}
	}
	// last value: must hold
	if !c.Branch(c.eqTerm(t, c.T.BV(uint64(int64(hi))))) {
		panic(unsupported("integer outside the enumerated range"))
	}
	c.fixed[t.ID] = hi
	return hi
}

func (c *Ctx) intArg(v Value, lo, hi int) int {
	v = c.reduce(v)
	switch x := v.(type) {
	case int64:
		return int(x)
	case *smt.Term:
		in := c.T.And(c.bvCmp(token.GEQ, x, c.T.BV(uint64(int64(lo))), true), c.bvCmp(token.LEQ, x, c.T.BV(uint64(int64(hi))), true))
		if !c.Branch(in) {
			return hi + 1
		}
		return c.concretize(x, lo, hi)
	}
	panic(unsupported("integer argument"))
}

func (c *Ctx) step(fr *frame, x *inst) {
	switch in := x.in.(type) {
	case *ssa.BinOp:
		fr.regs[x.dst] = c.binop(in.Op, in.X.Type(), c.get(fr, &x.ops[0]), c.get(fr, &x.ops[1]), in.Y.Type())
	case *ssa.UnOp:
		v := c.get(fr, &x.ops[0])
		if in.Op == token.MUL {
			fr.regs[x.dst] = copyVal(*c.deref(v))
		} else {
			fr.regs[x.dst] = c.unop(in.Op, in.X.Type(), v)
		}
	case *ssa.IndexAddr:
		base := c.get(fr, &x.ops[0])
		idx := c.get(fr, &x.ops[1])
		switch s := base.(type) {
		case Slice:
			fr.regs[x.dst] = &s[c.index(idx, len(s))]
		case *Value:
			a := (*s).(Array)
			fr.regs[x.dst] = &a[c.index(idx, len(a))]
		default:
			c.rtPanic("nil pointer dereference")
		}
	case *ssa.FieldAddr:
		p := c.deref(c.get(fr, &x.ops[0]))
		fr.regs[x.dst] = &(*p).(Struct)[in.Field]
	case *ssa.Field:
		fr.regs[x.dst] = copyVal(c.get(fr, &x.ops[0]).(Struct)[in.Field])
	case *ssa.Index:
		switch s := c.get(fr, &x.ops[0]).(type) {
		case Array:
			fr.regs[x.dst] = copyVal(s[c.index(c.get(fr, &x.ops[1]), len(s))])
		case string:
			fr.regs[x.dst] = int64(s[c.index(c.get(fr, &x.ops[1]), len(s))])
		default:
			panic(unsupported("index of opaque value"))
		}
	case *ssa.Store:
		p := c.deref(c.get(fr, &x.ops[0]))
		*p = copyVal(c.get(fr, &x.ops[1]))
	case *ssa.Alloc:
		v := zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[x.dst] = &v
	case *ssa.Call:
		fr.regs[x.dst] = c.callCommon(fr, &in.Call, x)
	case *ssa.Defer:
		fn, args := c.prepareCall(fr, &in.Call, x)
		fr.defers = append(fr.defers, func() { c.invoke(fn, args) })
	case *ssa.RunDefers:
		c.runDefers(fr)
	case *ssa.Extract:
		fr.regs[x.dst] = c.get(fr, &x.ops[0]).(Tuple)[in.Index]
	case *ssa.MakeSlice:
		n := c.sizeArg(c.get(fr, &x.ops[0]))
		cp := c.sizeArg(c.get(fr, &x.ops[1]))
		if cp < n {
			cp = n
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := make(Slice, cp)
		for i := range s {
			s[i] = zero(et)
		}
		fr.regs[x.dst] = s[:n]
	case *ssa.Slice:
		fr.regs[x.dst] = c.slice(fr, in, x)
	case *ssa.MakeInterface:
		fr.regs[x.dst] = Iface{in.X.Type(), copyVal(c.get(fr, &x.ops[0]))}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.regs[x.dst] = c.get(fr, &x.ops[0])
	case *ssa.Convert:
		fr.regs[x.dst] = c.convert(in.X.Type(), in.Type(), c.get(fr, &x.ops[0]))
	case *ssa.TypeAssert:
		fr.regs[x.dst] = c.typeAssert(in, c.get(fr, &x.ops[0]).(Iface))
	case *ssa.MakeClosure:
		env := make([]Value, len(x.ops)-1)
		for k := range env {
			env[k] = c.get(fr, &x.ops[k+1])
		}
		fr.regs[x.dst] = &Closure{in.Fn.(*ssa.Function), env}
	case *ssa.MakeMap:
		fr.regs[x.dst] = &Map{M: map[interface{}]Value{}}
	case *ssa.MapUpdate:
		m := c.get(fr, &x.ops[0]).(*Map)
		if m == nil {
			c.rtPanic("assignment to entry in nil map")
		}
		k := c.mapKey(c.get(fr, &x.ops[1]))
		if _, ok := m.M[k]; !ok {
			m.Keys = append(m.Keys, k)
		}
		m.M[k] = copyVal(c.get(fr, &x.ops[2]))
	case *ssa.Lookup:
		switch m := c.get(fr, &x.ops[0]).(type) {
		case string:
			fr.regs[x.dst] = int64(m[c.index(c.get(fr, &x.ops[1]), len(m))])
		case *Map:
			k := c.mapKey(c.get(fr, &x.ops[1]))
			var v Value
			ok := false
			if m != nil {
				v, ok = m.M[k]
			}
			if !ok {
				v = zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				fr.regs[x.dst] = Tuple{v, ok}
			} else {
				fr.regs[x.dst] = v
			}
		default:
			panic(unsupported("lookup"))
		}
	case *ssa.Range:
		switch m := c.get(fr, &x.ops[0]).(type) {
		case string:
			fr.regs[x.dst] = &strIter{m, 0}
		case *Map:
			fr.regs[x.dst] = &mapIter{m, 0}
		default:
			panic(unsupported("range"))
		}
	case *ssa.Next:
		switch it := c.get(fr, &x.ops[0]).(type) {
		case *strIter:
			if it.i >= len(it.s) {
				fr.regs[x.dst] = Tuple{false, int64(0), int64(0)}
			} else {
				for j, r := range it.s[it.i:] {
					_ = j
					fr.regs[x.dst] = Tuple{true, int64(it.i), int64(r)}
					it.i += len(string(r))
					break
				}
			}
		case *mapIter:
			if it.m == nil || it.i >= len(it.m.Keys) {
				fr.regs[x.dst] = Tuple{false, nil, nil}
			} else {
				k := it.m.Keys[it.i]
				it.i++
				fr.regs[x.dst] = Tuple{true, k, it.m.M[k]}
			}
		}
	default:
		panic(unsupported(fmt.Sprintf("instruction %T in %s", x.in, fr.fi.name)))
	}
}

func (c *Ctx) mapKey(v Value) interface{} {
	switch v.(type) {
	case int64, string, bool, float64:
		return v
	}
	panic(unsupported("map key"))
}

const maxAlloc = 1 << 22

func (c *Ctx) sizeArg(v Value) int {
	n := 0
	switch x := c.reduce(v).(type) {
	case int64:
		n = int(x)
	case *smt.Term:
		if c.Branch(c.bvCmp(token.LSS, x, c.T.BV(0), true)) {
			c.rtPanic("makeslice: len out of range")
		}
		n = int(c.narrowInt(x))
	}
	if n < 0 {
		c.rtPanic("makeslice: len out of range")
	}
	if n > maxAlloc {
		panic(unsupported("allocation too large"))
	}
	return n
}

func (c *Ctx) slice(fr *frame, in *ssa.Slice, x *inst) Value {
	base := c.get(fr, &x.ops[0])
	// operands appear in order X, Low, High, Max, with absent ones present as nil
	ops := x.ops
	getOp := func(i int, v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		val := c.get(fr, &ops[i])
		if n, ok := val.(int64); ok {
			return int(n)
		}
		if n, ok := c.reduce(val).(int64); ok {
			return int(n)
		}
		t := val.(*smt.Term)
		if c.Branch(c.bvCmp(token.LSS, t, c.T.BV(0), true)) {
			return -1
		}
		return c.intArg(t, 0, 128)
	}
	switch s := base.(type) {
	case string:
		lo := getOp(1, in.Low, 0)
		hi := getOp(2, in.High, len(s))
		if lo < 0 || hi < lo || hi > len(s) {
			c.rtPanic("slice bounds out of range")
		}
		return s[lo:hi]
	case *Value:
		a := Slice((*s).(Array))
		return c.reslice(a, getOp(1, in.Low, 0), getOp(2, in.High, len(a)), getOp(3, in.Max, len(a)))
	case Slice:
		return c.reslice(s, getOp(1, in.Low, 0), getOp(2, in.High, len(s)), getOp(3, in.Max, cap(s)))
	}
	panic(unsupported(fmt.Sprintf("slice of %T", base)))
}

func (c *Ctx) reslice(s Slice, lo, hi, max int) Value {
	if lo < 0 || hi < lo || max < hi || max > cap(s) {
		c.rtPanic("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, max, cap(s))
	}
	if s == nil {
		return s
	}
	return s[lo:hi:max]
}

func (c *Ctx) typeAssert(in *ssa.TypeAssert, v Iface) Value {
	ok := false
	var res Value
	if v.T != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if _, isRt := v.V.(runtimeErr); isRt {
				ok = it.NumMethods() == 0 || it.NumMethods() == 1 && it.Method(0).Name() == "Error"
			} else {
				ok = types.Implements(v.T, it)
			}
			res = v
		} else if types.Identical(v.T, in.AssertedType) {
			if _, isRt := v.V.(runtimeErr); !isRt {
				ok = true
				res = copyVal(v.V)
			}
		}
	}
	if !ok {
		if !in.CommaOk {
			c.rtPanic("interface conversion: %v is not %v", v.T, in.AssertedType)
		}
		return Tuple{zero(in.AssertedType), false}
	}
	if in.CommaOk {
		return Tuple{res, true}
	}
	return res
}

func (c *Ctx) prepareCall(fr *frame, call *ssa.CallCommon, x *inst) (Value, []Value) {
	// operands: Value, then Args
	var args []Value
	if call.IsInvoke() {
		recv := c.get(fr, &x.ops[0]).(Iface)
		if recv.T == nil {
			c.rtPanic("nil pointer dereference (method %s of nil interface)", call.Method.Name())
		}
		if rt, ok := recv.V.(runtimeErr); ok {
			return func(c *Ctx, a []Value) Value { return "runtime error: " + rt.msg }, nil
		}
		fn := c.P.lookupMethod(recv.T, call.Method)
		args = append(args, copyVal(recv.V))
		for i := 1; i < len(x.ops); i++ {
			args = append(args, copyVal(c.get(fr, &x.ops[i])))
		}
		return fn, args
	}
	fn := c.get(fr, &x.ops[0])
	for i := 1; i < len(x.ops); i++ {
		args = append(args, copyVal(c.get(fr, &x.ops[i])))
	}
	if b, ok := fn.(*ssa.Builtin); ok {
		var ts []types.Type
		for _, a := range call.Args {
			ts = append(ts, a.Type())
		}
		bb, tt := b, ts
		return func(c *Ctx, a []Value) Value { return c.builtin(fr, bb, tt, a) }, args
	}
	return fn, args
}

func (c *Ctx) callCommon(fr *frame, call *ssa.CallCommon, x *inst) Value {
	fn, args := c.prepareCall(fr, call, x)
	return c.invoke(fn, args)
}

func (c *Ctx) invoke(fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		return c.call(f, args, nil)
	case *Closure:
		return c.call(f.Fn, args, f.Env)
	case func(*Ctx, []Value) Value:
		return f(c, args)
	}
	c.rtPanic("nil function call")
	return nil
}

type methKey struct {
	t types.Type
	n string
}

func (p *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if f, ok := p.method.Load(k); ok {
		return f.(*ssa.Function)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	f := p.Prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		panic(unsupported("method " + m.Name() + " of " + t.String()))
	}
	p.method.Store(k, f)
	return f
}

func (c *Ctx) builtin(fr *frame, b *ssa.Builtin, ts []types.Type, a []Value) Value {
	switch b.Name() {
	case "len":
		switch s := a[0].(type) {
		case Slice:
			return int64(len(s))
		case string:
			return int64(len(s))
		case Array:
			return int64(len(s))
		case *Value:
			return int64(len((*s).(Array)))
		case *Map:
			if s == nil {
				return int64(0)
			}
			return int64(len(s.M))
		}
	case "cap":
		switch s := a[0].(type) {
		case Slice:
			return int64(cap(s))
		case Array:
			return int64(len(s))
		}
	case "append":
		s := a[0].(Slice)
		switch t := a[1].(type) {
		case Slice:
			for _, v := range t {
				s = append(s, copyVal(v))
			}
			if len(t) == 0 {
				return s
			}
		case string:
			for i := 0; i < len(t); i++ {
				s = append(s, int64(t[i]))
			}
		}
		// clear spare capacity so that re-slicing reads zero values
		full := s[:cap(s)]
		et := ts[0].Underlying().(*types.Slice).Elem()
		for i := len(s); i < cap(s); i++ {
			if full[i] == nil {
				full[i] = zero(et)
			}
		}
		return s
	case "copy":
		d := a[0].(Slice)
		switch s := a[1].(type) {
		case Slice:
			n := copy(d, s)
			for i := 0; i < n; i++ {
				d[i] = copyVal(d[i])
			}
			return int64(n)
		case string:
			n := 0
			for i := 0; i < len(d) && i < len(s); i++ {
				d[i] = int64(s[i])
				n++
			}
			return int64(n)
		}
	case "panic":
		panic(targetPanic{a[0]})
	case "recover":
		// the frame running defers is the innermost
		if n := len(c.deferFrames); n > 0 {
			f := c.deferFrames[n-1]
			if f.panicking != nil {
				v := f.panicking.v
				f.panicking = nil
				return v
			}
		}
		return Iface{}
	case "real":
		return a[0].(Complex).Re
	case "imag":
		return a[0].(Complex).Im
	case "complex":
		return Complex{a[0], a[1]}
	case "delete":
		m := a[0].(*Map)
		k := c.mapKey(a[1])
		if m != nil {
			if _, ok := m.M[k]; ok {
				delete(m.M, k)
				for i := range m.Keys {
					if m.Keys[i] == k {
						m.Keys = append(m.Keys[:i:i], m.Keys[i+1:]...)
						break
					}
				}
			}
		}
		return nil
	case "clear":
		switch s := a[0].(type) {
		case Slice:
			et := ts[0].Underlying().(*types.Slice).Elem()
			for i := range s {
				s[i] = zero(et)
			}
		case *Map:
			if s != nil {
				s.M = map[interface{}]Value{}
				s.Keys = nil
			}
		}
		return nil
	case "min", "max":
		r := a[0]
		op := token.LSS
		if b.Name() == "max" {
			op = token.GTR
		}
		for _, v := range a[1:] {
			if isFloat(ts[0]) {
				if b.Name() == "min" {
					r = c.fmin(r, v)
				} else {
					r = c.fmax(r, v)
				}
				continue
			}
			if c.truth(c.binop(op, ts[0], v, r, ts[0])) {
				r = v
			}
		}
		return r
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if _, ok := a[0].(NilPtr); ok {
			c.rtPanic("nil pointer dereference")
		}
		return a[0]
	}
	panic(unsupported("builtin " + b.Name()))
}

func (c *Ctx) truth(v Value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	return c.Branch(v.(*smt.Term))
}
