package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p11() []Harness {
	src := []int{dense, foreign}
	return []Harness{
		{Prop: "P11", Name: "V11Arith", Mode: "fp", F: V11Arith, Quick: cross(src, []int{0, 1, 2, 3, 4}, sizes(0, 9, 12, 15, 16, 17, 33)), Thorough: cross(src, []int{0, 1, 2, 3, 4}, []int{60}), Bound: "all entries of both vectors symbolic"},
		{Prop: "P11", Name: "V11Map", Mode: "fp", F: V11Map, Quick: cross(sizes(0, 9, 12, 15, 16, 17, 33)), Thorough: l(a(60)), Bound: "all entries and the scalar symbolic"},
		{Prop: "P11", Name: "V11Append", Mode: "fp", F: V11Append, Quick: cross(src, sizes(0, 5, 8), sizes(0, 5, 8)), Thorough: cross(src, []int{20}, []int{31}), Bound: "all entries symbolic, every listed pair of lengths"},
		{Prop: "P11", Name: "V11Sub", Mode: "fp", F: V11Sub, Quick: cross(src, sizes(1, 8)), Thorough: cross(src, []int{12}), Bound: "every range, a view on the same array too; all entries symbolic"},
		{Prop: "P11", Name: "V11Entry", Mode: "fp", F: V11Entry, Quick: cross(sizes(1, 9, 16)), Thorough: l(a(30)), Bound: "every position; all entries and values symbolic"},
		{Prop: "P11", Name: "V11Iterate", Mode: "fp", F: V11Iterate, Quick: cross(sizes(0, 17, 33)), Thorough: l(a(100)), Bound: "all entries symbolic"},
		{Prop: "P11", Name: "V11Self", Mode: "fp", F: V11Self, Quick: cross(sizes(1, 8)), Bound: "both operands the same vector"},
	}
}

// V11Arith: binary operations returning a vector, and the in-place combination.
func V11Arith(g []int) {
	srep, op, n := g[0], g[1], g[2]
	x, y := sym.F64s("a", n), sym.F64s("b", n)
	v, w := mkv(dense, clonev(x)), mkv(srep, clonev(y))
	want := make([]float64, n)
	p, q := sym.F64("p"), sym.F64("q")
	for i := range want {
		switch op {
		case 0:
			want[i] = x[i] + y[i]
		case 1:
			want[i] = x[i] - y[i]
		case 2:
			want[i] = x[i] * y[i]
		case 3:
			want[i] = x[i] / y[i]
		default:
			want[i] = p*x[i] + q*y[i]
		}
	}
	f := func() linear.RealVector {
		switch op {
		case 0:
			return v.Add(w)
		case 1:
			return v.Subtract(w)
		case 2:
			return v.EBEMultiply(w)
		case 3:
			return v.EBEDivide(w)
		}
		c := v.Copy()
		c.Combine(p, q, w)
		return c
	}
	r := f()
	samev(r, want, "result")
	samev(v, x, "left operand")
	samev(w, y, "right operand")
	scribblev(v)
	scribblev(w)
	samev(r, want, "result after the operands changed")
	v, w = mkv(dense, clonev(x)), mkv(srep, clonev(y))
	scribblev(f())
	samev(v, x, "left operand after the result changed")
	samev(w, y, "right operand after the result changed")
}

// V11Map: in-place maps.
func V11Map(g []int) {
	n := g[0]
	x := sym.F64s("a", n)
	d := sym.F64("d")
	for k := 0; k < 7; k++ {
		v := mkv(dense, clonev(x))
		want := make([]float64, n)
		for i := range want {
			switch k {
			case 0:
				want[i] = x[i] + d
			case 1:
				want[i] = x[i] - d
			case 2:
				want[i] = x[i] * d
			case 3:
				want[i] = x[i] / d
			case 4:
				want[i] = x[i]*x[i] + d
			case 5:
				want[i] = d
			case 6:
				want[i] = x[i]
			}
		}
		switch k {
		case 0:
			v.MapAdd(d)
		case 1:
			v.MapSubtract(d)
		case 2:
			v.MapMultiply(d)
		case 3:
			v.MapDivide(d)
		case 4:
			v.Map(func(t float64) float64 { return t*t + d })
		case 5:
			v.Set(d)
		case 6:
			v.Map(func(t float64) float64 { return t })
		}
		samev(v, want, "mapped vector")
	}
}

// V11Append: appending and concatenation.
func V11Append(g []int) {
	srep, n, k := g[0], g[1], g[2]
	x, y := sym.F64s("a", n), sym.F64s("b", k)
	d := sym.F64("d")
	v, w := mkv(dense, clonev(x)), mkv(srep, clonev(y))
	both := append(clonev(x), y...)
	one := append(clonev(x), d)
	p := v.AppendVector(w)
	q := v.Append(d)
	r, err := linear.NewArrayRealVectorFromTwoRealVector(v, w)
	sym.Assert(err == nil, "concatenation refused")
	samev(p, both, "appended vector")
	samev(q, one, "appended value")
	samev(r, both, "concatenation")
	t, err := linear.NewArrayRealVectorFromTwoRealVector(w, v)
	sym.Assert(err == nil, "concatenation refused")
	samev(t, append(clonev(y), x...), "concatenation the other way")
	if srep == dense {
		s, err := linear.NewArrayRealVectorFromTwoArrayRealVector(v.(*linear.ArrayRealVector), w.(*linear.ArrayRealVector))
		sym.Assert(err == nil, "concatenation refused")
		samev(s, both, "concatenation of array vectors")
		scribblev(s)
	}
	samev(v, x, "left operand")
	samev(w, y, "right operand")
	scribblev(v)
	scribblev(w)
	samev(p, both, "appended vector after the operands changed")
	samev(q, one, "appended value after the operand changed")
	samev(r, both, "concatenation after the operands changed")
	v, w = mkv(dense, clonev(x)), mkv(srep, clonev(y))
	p, q = v.AppendVector(w), v.Append(d)
	scribblev(p)
	scribblev(q)
	samev(v, x, "left operand after the result changed")
	samev(w, y, "right operand after the result changed")
	// two results of the same receiver are independent
	v = mkv(dense, clonev(x))
	q = v.Append(d)
	u := v.Append(d + 1)
	z := q.Append(4)
	z2 := q.Append(5)
	samev(q, one, "first appended value after the second")
	samev(u, append(clonev(x), d+1), "second appended value")
	samev(z, append(clonev(one), 4), "appended to an appended vector")
	samev(z2, append(clonev(one), 5), "appended again to the same vector")
	p = q.AppendVector(w)
	p2 := q.AppendVector(v)
	samev(p, append(clonev(one), y...), "vector appended to an appended vector")
	samev(p2, append(clonev(one), x...), "another vector appended to the same vector")
}

// V11Sub: reading and writing ranges.
func V11Sub(g []int) {
	srep, n := g[0], g[1]
	x := sym.F64s("a", n)
	v := mkv(dense, clonev(x))
	lo := sym.IntIn("lo", 0, n-1)
	k := sym.IntIn("k", 1, n-lo)
	s := v.SubVector(lo, k)
	samev(s, x[lo:lo+k], "subvector")
	scribblev(s)
	samev(v, x, "source after the subvector changed")
	s = v.SubVector(lo, k)
	old := clonev(x[lo : lo+k])
	scribblev(v)
	samev(s, old, "subvector after the source changed")
	y := sym.F64s("b", k)
	want := clonev(x)
	copy(want[lo:], y)
	v, w := mkv(dense, clonev(x)), mkv(srep, clonev(y))
	v.SetSubVector(lo, w)
	samev(v, want, "vector after a range was set")
	samev(w, y, "source of the range")
	scribblev(w)
	samev(v, want, "vector after the source of the range changed")
	u, t := mkv(dense, clonev(x)), clonev(y)
	u.(*linear.ArrayRealVector).SetSubVectorWithSlice(lo, t)
	samev(u, want, "vector after a range was set from a slice")
	sames(t, y, "source slice")
	t[0] = -77
	samev(u, want, "vector after the source slice changed")
	// the source may be a view on the same array
	at := sym.IntIn("at", 0, n-k)
	share := clonev(x)
	all, _ := linear.NewArrayRealVector(share, false)
	part, _ := linear.NewArrayRealVector(share[at:at+k], false)
	want = clonev(x)
	copy(want[lo:], x[at:at+k])
	all.SetSubVector(lo, part)
	samev(all, want, "vector after a range was set from a view on itself")
}

// V11Entry: single entries and whole copies.
func V11Entry(g []int) {
	n := g[0]
	x := sym.F64s("a", n)
	v := mkv(dense, clonev(x))
	i := sym.IntIn("i", 0, n-1)
	d, e := sym.F64("d"), sym.F64("e")
	sym.Same(v.At(i), x[i], "entry")
	v.SetEntry(i, d)
	want := clonev(x)
	want[i] = d
	samev(v, want, "vector after an entry was set")
	v.AddToEntry(i, e)
	want[i] = d + e
	samev(v, want, "vector after adding to an entry")
	y := sym.F64s("b", n)
	for _, rep := range []int{dense, foreign} {
		u, w := mkv(dense, clonev(x)), mkv(rep, clonev(y))
		u.CopyFrom(w)
		samev(u, y, "copied vector")
		samev(w, y, "source of the copy")
		scribblev(w)
		samev(u, y, "copied vector after the source changed")
	}
	inf, nan := false, hasNaN(x)
	for _, t := range x {
		inf = inf || t > 1.7976931348623157e308 || t < -1.7976931348623157e308
	}
	o := mkv(dense, clonev(x))
	sym.Assert(o.IsNaN() == nan, "wrong verdict on NaN")
	sym.Assert(o.IsInf() == (inf && !nan), "wrong verdict on infinities")
	samev(o, x, "vector after the tests")
}

// V11Iterate: the iterator.
func V11Iterate(g []int) {
	n := g[0]
	x := sym.F64s("a", n)
	v := mkv(dense, clonev(x))
	it := v.Iterator()
	var kept []linear.Entry
	k := 0
	for it.HasNext() {
		e := it.Next()
		sym.Assert(e.Index() == k && k < n, "iteration order")
		if k >= n {
			return
		}
		sym.Same(e.Value(), x[k], "iterated value")
		kept = append(kept, e)
		k++
	}
	for i, e := range kept {
		sym.Assert(e.Index() == i, "entry kept while the iteration went on")
		sym.Same(e.Value(), x[i], "entry kept while the iteration went on")
	}
	sym.Assert(k == n, "iteration ends early")
	samev(v, x, "vector after the iteration")
}

// V11Self: both operands the same object.
func V11Self(g []int) {
	n := g[0]
	x := sym.F64s("a", n)
	v := mkv(dense, clonev(x))
	p, q := sym.F64("p"), sym.F64("q")
	sum, dif, pro, quo, com := make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n)
	for i := range x {
		sum[i], dif[i], pro[i], quo[i] = x[i]+x[i], x[i]-x[i], x[i]*x[i], x[i]/x[i]
		com[i] = p*x[i] + q*x[i]
	}
	samev(v.Add(v), sum, "sum with itself")
	samev(v.Subtract(v), dif, "difference with itself")
	samev(v.EBEMultiply(v), pro, "product with itself")
	samev(v.EBEDivide(v), quo, "quotient with itself")
	samev(v.AppendVector(v), append(clonev(x), x...), "appended to itself")
	samev(v, x, "operand")
	v.Combine(p, q, v)
	samev(v, com, "combined with itself")
}
