package h

import (
	"math"

	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p30() []Harness {
	lib := []int{dense, block, foreign}
	own := []int{dense, block}
	return []Harness{
		{Prop: "P30", Name: "S30Trace", Mode: "lin", F: S30Trace, Quick: append(with(cross(lib), cross(sizes(1, 9, 16, 52, 53, 54, 105))...), with(l(a(diag)), cross(sizes(1, 9, 16, 40))...)...), Thorough: with(cross(own), a(105), a(52), a(157)), Bound: "all entries symbolic, over the reals"},
		{Prop: "P30", Name: "S30Shapes", Mode: "fp", F: S30Shapes, Quick: l(a(dense), a(block), a(foreign), a(diag)), Bound: "every shape 1..4 by 1..4"},
		{Prop: "P30", Name: "S30Frobenius", Mode: "real", F: S30Frobenius, Quick: append(with(cross(lib), a(1, 1), a(2, 3), a(3, 2), a(30, 2), a(1, 5), a(5, 1), a(7, 4), a(53, 1), a(1, 54)), a(diag, 1, 1), a(diag, 2, 2), a(diag, 3, 3), a(diag, 5, 5)), Bound: "all entries symbolic, over the reals"},
		{Prop: "P30", Name: "S30Column", Mode: "real", F: S30Column, Quick: append(with(cross(lib), a(1, 1), a(2, 2), a(3, 1), a(1, 3)), a(diag, 1, 1), a(diag, 2, 2), a(diag, 3, 3)), Thorough: with(cross(own), a(2, 3), a(3, 2)), Bound: "all entries symbolic (every sign pattern and order), over the reals"},
		{Prop: "P30", Name: "S30ColumnLong", Mode: "real", F: S30ColumnLong, Quick: append(with(cross(lib), a(5, 4), a(4, 5), a(1, 7), a(7, 1), a(53, 3), a(3, 53), a(54, 105), a(110, 2), a(2, 110)), a(dense, 1100, 1), a(block, 1, 1100), a(block, 1100, 1), a(foreign, 1100, 2), a(dense, 2, 1100)), Thorough: with(cross(own), a(105, 54), a(157, 53), a(4100, 1), a(1, 4100), a(2200, 2)), Bound: "integer entries of both signs; one column with a symbolic entry, at the ends, the middle and block boundaries"},
		{Prop: "P30", Name: "S30Scale", Mode: "real", F: S30Scale, Quick: append(with(cross(lib), a(2, 2), a(3, 2), a(1, 3)), a(diag, 2, 2)), Bound: "entries of any sign within [-1,1], times 2^-505, 2^-45 or 2^300, over the reals"},
		{Prop: "P30", Name: "S30Outer", Mode: "fp", F: S30Outer, Quick: append(with(cross([]int{dense, foreign}, []int{dense, foreign}), cross(sizes(1, 5), sizes(1, 5))...), a(dense, dense, 64, 64), a(dense, foreign, 64, 65), a(dense, dense, 1, 60)), Thorough: l(a(dense, dense, 105, 106), a(dense, dense, 4100, 1), a(foreign, dense, 1, 4100)), Bound: "all entries symbolic; shapes around the 4096-cell switch"},
	}
}

// S30Trace: trace.
func S30Trace(g []int) {
	rep, n := g[0], g[1]
	x := input(rep, "a", n, n)
	A := mk(rep, clone(x))
	t := 0.
	for i := range x {
		t += x[i][i]
	}
	sym.Near(A.Trace(), t, 1e-9, "trace")
	same(A, x, "matrix")
}

// S30Shapes: shape test and refusal of the trace.
func S30Shapes(g []int) {
	rep := g[0]
	m := sym.IntIn("m", 1, 4)
	n := m
	if rep != diag {
		n = sym.IntIn("n", 1, 4)
	}
	x := input(rep, "a", m, n)
	A := mk(rep, clone(x))
	sym.Assert(linear.IsSquare(A) == (m == n), "shape test")
	sym.Assert(refused(func() { A.Trace() }) == (m != n), "trace is refused exactly for non-square matrices")
	same(A, x, "matrix")
}

// S30Frobenius: Frobenius norm.
func S30Frobenius(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := input(rep, "a", m, n)
	A := mk(rep, clone(x))
	s := 0.
	for i := range x {
		s += dot(x[i], x[i])
	}
	root(linear.MatFrobeniusNorm(A), s, "Frobenius norm")
	same(A, x, "matrix")
}

// S30Column: maximum column sum norm.
func S30Column(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := input(rep, "a", m, n)
	A := mk(rep, clone(x))
	s := make([]float64, n)
	for j := range s {
		for i := range x {
			s[j] += math.Abs(x[i][j])
		}
	}
	largest(linear.MatLInfNorm(A), s, "maximum column sum norm")
	same(A, x, "matrix")
}

// S30ColumnLong: the same across blocks.
func S30ColumnLong(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := numbers(m, n, 0)
	r, c := pick("row", few(m)), pick("column", few(n))
	x[r][c] = sym.F64("u")
	A := mk(rep, clone(x))
	best := 0.
	for j := 0; j < n; j++ {
		s := 0.
		for i := range x {
			s += math.Abs(x[i][j])
		}
		if j == 0 || s > best {
			best = s
		}
	}
	sym.Near(linear.MatLInfNorm(A), best, 1e-9, "maximum column sum norm")
	t := 0.
	for i := range x {
		t += dot(x[i], x[i])
	}
	root(linear.MatFrobeniusNorm(A), t, "Frobenius norm")
	same(A, x, "matrix")
}

// S30Outer: outer product.
func S30Outer(g []int) {
	rep, srep, m, n := g[0], g[1], g[2], g[3]
	x, y := sym.F64s("a", m), sym.F64s("b", n)
	v, w := mkv(rep, clonev(x)), mkv(srep, clonev(y))
	want := zeros(m, n)
	for i := range want {
		for j := range want[i] {
			want[i][j] = x[i] * y[j]
		}
	}
	same(linear.OuterProduct(v, w), want, "outer product")
	samev(v, x, "first argument")
	samev(w, y, "second argument")
}

// S30Scale: the norms of tiny and huge entries.
func S30Scale(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := small(input(rep, "a", m, n))
	f := math.Ldexp(1, pick("scale", []int{-505, -45, 300}))
	A := mk(rep, scaled(x, f))
	s, t, tr := make([]float64, n), 0., 0.
	for i := range x {
		t += dot(x[i], x[i])
		for j := range s {
			s[j] += math.Abs(x[i][j])
		}
		if i < n {
			tr += x[i][i]
		}
	}
	largest(linear.MatLInfNorm(A)/f, s, "maximum column sum norm")
	root(linear.MatFrobeniusNorm(A)/f, t, "Frobenius norm")
	if m == n {
		sym.Near(A.Trace()/f, tr, 1e-9, "trace")
	}
}
