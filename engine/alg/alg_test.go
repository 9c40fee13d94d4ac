package alg

import (
	"math/big"
	"testing"
)

func TestField(t *testing.T) {
	f := NewField()
	x := FromPoly(AtomPoly(f.Var("x")))
	y := FromPoly(AtomPoly(f.Var("y")))
	s := f.AddN(f.Inv(x), f.Inv(y)) // (x+y)/(xy)
	p := f.MulN(s, f.MulN(x, y))    // x+y
	if !f.SubN(p, f.AddN(x, y)).IsZero() {
		t.Fatal(p.Key())
	}
	q := f.MulN(f.AddN(x, y), f.AddN(x, y))
	if r := f.Sqrt(q.N); r == nil || !r.Equal(f.AddN(x, y).N) {
		t.Fatal("sqrt")
	}
	// root
	ss := f.AddN(f.MulN(x, x), f.MulN(y, y))
	r := FromPoly(AtomPoly(f.Root(ss.N)))
	if !f.SubN(f.MulN(r, r), ss).IsZero() {
		t.Fatal("root")
	}
	i := f.Inv(f.AddN(r, x))
	one := f.MulN(i, f.AddN(r, x))
	if v, ok := one.Rat(); !ok || v.Cmp(big.NewRat(1, 1)) != 0 {
		t.Fatal(one.Key(), i.Key())
	}
	// (x^3-y^3)/(x-y)
	c := f.SubN(f.MulN(x, f.MulN(x, x)), f.MulN(y, f.MulN(y, y)))
	d := f.MulN(c, f.Inv(f.SubN(x, y)))
	if len(d.D) != 0 {
		t.Fatal("cancel")
	}
	e := f.SubN(d, f.AddN(f.AddN(f.MulN(x, x), f.MulN(x, y)), f.MulN(y, y)))
	if !e.IsZero() {
		t.Fatal("cancel2")
	}
}
