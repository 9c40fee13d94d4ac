package ex

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"verif/engine/smt"
)

// Value is a machine value. Concrete: bool, int64 (every integer kind),
// float64, string. Symbolic: *smt.Term, *alg.Num, *smt.Lin.
type Value = interface{}

// Compound values.
type (
	Slice   []Value
	Array   []Value
	Struct  []Value
	Tuple   []Value
	Complex struct{ Re, Im Value }
	Iface   struct {
		T types.Type
		V Value
	}
	Closure struct {
		Fn  *ssa.Function
		Env []Value
	}
	Opaque  struct{ S string }
	NilFunc struct{}
	NilPtr  struct{}
	Map     struct {
		M    map[interface{}]Value
		Keys []interface{}
	}
	mapIter struct {
		m *Map
		i int
	}
	strIter struct {
		s string
		i int
	}
)

type unsupportedT struct{ what string }

func unsupported(s string) unsupportedT { return unsupportedT{s} }

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return Complex{float64(0), float64(0)}
		case u.Kind() == types.UnsafePointer:
			return NilPtr{}
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
	case *types.Pointer:
		return NilPtr{}
	case *types.Slice:
		return Slice(nil)
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = zero(u.Elem())
		}
		return a
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return NilFunc{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return NilPtr{}
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return r
	}
	panic(unsupported("zero of " + t.String()))
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	}
	return v
}

func describe(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.T == nil {
			return "nil"
		}
		return x.T.String() + "(" + describe(x.V) + ")"
	case Struct:
		s := "{"
		for i, f := range x {
			if i > 0 {
				s += " "
			}
			s += describe(f)
		}
		return s + "}"
	case *Value:
		return "&" + describe(*x)
	case *smt.Term:
		return "<sym>"
	case Opaque:
		return x.S
	}
	return fmt.Sprint(v)
}
