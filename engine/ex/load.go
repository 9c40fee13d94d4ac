// Package ex executes Go SSA symbolically.
package ex

import (
	"fmt"
	"go/constant"
	"go/types"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded SSA program.
type Program struct {
	Prog   *ssa.Program
	H      *ssa.Package // harnesses
	Lin    *ssa.Package // code under test
	infos  sync.Map     // *ssa.Function -> *fnInfo
	mu     sync.Mutex
	method sync.Map
}

// Load type-checks and builds the harness package and everything below it.
func Load(dir, harness, target string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	pkgs, err := packages.Load(cfg, harness)
	if err != nil {
		return nil, err
	}
	if packages.PrintErrors(pkgs) > 0 {
		return nil, fmt.Errorf("packages contain errors")
	}
	prog, ssapkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{Prog: prog, H: ssapkgs[0]}
	for _, q := range prog.AllPackages() {
		switch q.Pkg.Path() {
		case target:
			p.Lin = q
			q.Build()
		case "math", "strconv", "errors", "sort":
			q.Build()
		}
	}
	p.H.Build()
	if p.Lin == nil {
		return nil, fmt.Errorf("package %s not found", target)
	}
	return p, nil
}

type opnd struct {
	slot int   // >= 0: register; -1: constant; -2: global
	val  Value // constant, function, or *ssa.Global
}

type inst struct {
	in  ssa.Instruction
	dst int
	ops []opnd
}

type block struct {
	ins   []inst
	phis  int
	preds map[int]int
}

type fnInfo struct {
	fn     *ssa.Function
	nregs  int
	blocks []block
	params []int
	frees  []int
	name   string
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	if x, ok := p.infos.Load(fn); ok {
		return x.(*fnInfo)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if x, ok := p.infos.Load(fn); ok {
		return x.(*fnInfo)
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	fi := &fnInfo{fn: fn, name: fn.String()}
	slots := map[ssa.Value]int{}
	alloc := func(v ssa.Value) int {
		s := fi.nregs
		slots[v] = s
		fi.nregs++
		return s
	}
	for _, q := range fn.Params {
		fi.params = append(fi.params, alloc(q))
	}
	for _, q := range fn.FreeVars {
		fi.frees = append(fi.frees, alloc(q))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	for _, b := range fn.Blocks {
		bl := block{preds: map[int]int{}}
		for i, q := range b.Preds {
			bl.preds[q.Index] = i
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			x := inst{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				x.dst = slots[v]
			}
			if _, ok := in.(*ssa.Phi); ok {
				bl.phis++
			}
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					x.ops = append(x.ops, opnd{slot: -1})
					continue
				}
				switch v := (*op).(type) {
				case *ssa.Const:
					x.ops = append(x.ops, opnd{slot: -1, val: constValue(v)})
				case *ssa.Global:
					x.ops = append(x.ops, opnd{slot: -2, val: v})
				case *ssa.Function:
					x.ops = append(x.ops, opnd{slot: -1, val: v})
				case *ssa.Builtin:
					x.ops = append(x.ops, opnd{slot: -1, val: v})
				default:
					x.ops = append(x.ops, opnd{slot: slots[v]})
				}
			}
			bl.ins = append(bl.ins, x)
		}
		fi.blocks = append(fi.blocks, bl)
	}
	p.infos.Store(fn, fi)
	return fi
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		if tp, ok := c.Type().Underlying().(*types.Interface); ok {
			_ = tp
		}
		panic(unsupported("constant of type " + c.Type().String()))
	}
	switch {
	case t.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case t.Info()&types.IsString != 0:
		return constant.StringVal(c.Value)
	case t.Info()&types.IsUnsigned != 0:
		return int64(c.Uint64())
	case t.Info()&types.IsInteger != 0:
		return c.Int64()
	case t.Info()&types.IsFloat != 0:
		f := c.Float64()
		if t.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case t.Info()&types.IsComplex != 0:
		z := c.Complex128()
		return Complex{real(z), imag(z)}
	}
	panic(unsupported("constant of type " + c.Type().String()))
}
