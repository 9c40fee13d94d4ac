package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p09() []Harness {
	lib := []int{dense, block, foreign}
	own := []int{dense, block}
	all := []int{dense, block, diag, foreign}
	return []Harness{
		{Prop: "P09", Name: "Q09Full", Mode: "fp", F: Q09Full, Quick: append(with(cross(own, lib), a(1, 1), a(2, 2), a(2, 3), a(3, 1)), append(with(cross([]int{diag}, lib), a(1, 1), a(2, 2)), with(cross(own, []int{diag}), a(2, 2))...)...), Thorough: append(with(cross(own, lib), a(3, 3)), a(diag, dense, 3, 3), a(diag, block, 3, 3)), Bound: "all entries of both matrices symbolic"},
		{Prop: "P09", Name: "Q09Diag", Mode: "fp", F: Q09Diag, Quick: cross(sizes(1, 8)), Thorough: l(a(12)), Bound: "all diagonal entries of both matrices symbolic"},
		{Prop: "P09", Name: "Q09One", Mode: "fp", F: Q09One, Quick: append(with(cross(own, lib), a(5, 4), a(4, 5), a(1, 9), a(9, 1), a(8, 8), a(53, 3), a(3, 53), a(54, 55), a(110, 2), a(2, 110)), with(cross([]int{diag}, all), a(5, 5), a(7, 7))...), Thorough: with(cross(own, own), a(157, 53), a(105, 106)), Bound: "the matrices differ at most in one symbolic entry; its position at the ends, the middle and block boundaries"},
		{Prop: "P09", Name: "Q09Shape", Mode: "fp", F: Q09Shape, Quick: cross(all, all), Bound: "every pair of shapes 1..3 by 1..3 (square for diagonal)"},
		{Prop: "P09", Name: "Q09Other", Mode: "fp", F: Q09Other, Quick: l(a(dense), a(block), a(diag)), Bound: "comparison with values that are no matrices"},
		{Prop: "P09", Name: "Q09Vector", Mode: "fp", F: Q09Vector, Quick: with(cross([]int{dense, foreign}), a(0), a(1), a(2), a(3)), Thorough: with(cross([]int{dense, foreign}), a(5)), Bound: "all entries of both vectors symbolic, NaN included"},
		{Prop: "P09", Name: "Q09VectorOne", Mode: "fp", F: Q09VectorOne, Quick: cross([]int{dense, foreign}, sizes(4, 20, 33, 64, 65)), Thorough: cross([]int{dense, foreign}, []int{100, 257}), Bound: "vectors that differ in at most one entry, at every position"},
		{Prop: "P09", Name: "Q09VectorOther", Mode: "fp", F: Q09VectorOther, Quick: l(a(2)), Bound: "every pair of lengths up to 4; comparison with values that are no vectors"},
	}
}

func equal(x, y [][]float64) bool {
	for i := range x {
		for j := range x[i] {
			if x[i][j] != y[i][j] {
				return false
			}
		}
	}
	return true
}

func q09(A, B linear.RealMatrix, x, y [][]float64) {
	want := equal(x, y)
	got := A.Equals(B)
	sym.Assert(got == want, "wrong verdict on equality")
	sym.Assert(B.Equals(A) == got, "equality is not symmetric")
	if want {
		sym.Cover("equal")
	} else {
		sym.Cover("different")
	}
	same(A, x, "left operand")
	same(B, y, "right operand")
}

// Q09Full: arbitrary entries.
func Q09Full(g []int) {
	rep, srep, m, n := g[0], g[1], g[2], g[3]
	x, y := input(rep, "a", m, n), input(srep, "b", m, n)
	q09(mk(rep, clone(x)), mk(srep, clone(y)), x, y)
}

// Q09Diag: two diagonal matrices.
func Q09Diag(g []int) {
	n := g[0]
	x, y := input(diag, "a", n, n), input(diag, "b", n, n)
	q09(mk(diag, clone(x)), mk(diag, clone(y)), x, y)
}

// Q09One: at most one differing entry.
func Q09One(g []int) {
	rep, srep, m, n := g[0], g[1], g[2], g[3]
	x := zeros(m, n)
	for i := range x {
		for j := range x[i] {
			if rep != diag || i == j {
				x[i][j] = float64(i*n+j) - 7
			}
		}
	}
	some := few
	if m*n <= 64 {
		some = every
	}
	r := pick("row", some(m))
	c := r
	if srep != diag {
		c = pick("column", some(n))
	}
	if rep != diag || r == c {
		x[r][c] = sym.F64("u")
	}
	y := clone(x)
	y[r][c] = sym.F64("v")
	A, B := mk(rep, clone(x)), mk(srep, clone(y))
	want := x[r][c] == y[r][c]
	sym.Assert(A.Equals(B) == want, "wrong verdict on equality")
	sym.Assert(B.Equals(A) == want, "equality is not symmetric")
	same(A, x, "left operand")
	same(B, y, "right operand")
	if m <= 53 && n <= 53 && x[r][c] == x[r][c] {
		sym.Assert(A.Equals(mk(srep, clone(x))), "a matrix differs from its own entries")
		sym.Assert(A.Equals(A), "a matrix differs from itself")
		sym.Assert(A.Equals(A.Copy()), "a matrix differs from its copy")
	}
}

// Q09Shape: different shapes.
func Q09Shape(g []int) {
	rep, srep := g[0], g[1]
	m := sym.IntIn("m", 1, 3)
	n, q := m, 0
	if rep != diag {
		n = sym.IntIn("n", 1, 3)
	}
	p := sym.IntIn("p", 1, 3)
	q = p
	if srep != diag {
		q = sym.IntIn("q", 1, 3)
	}
	A, B := mk(rep, zeros(m, n)), mk(srep, zeros(p, q))
	sym.Assert(A.Equals(B) == (m == p && n == q), "wrong verdict on matrices of different shapes")
}

// Q09Other: other types.
func Q09Other(g []int) {
	rep := g[0]
	x := input(rep, "a", 1, 1)
	A := mk(rep, x)
	sym.Assert(!A.Equals(nil), "equal to nil")
	sym.Assert(!A.Equals(3.5), "equal to a number")
	sym.Assert(!A.Equals("x"), "equal to a string")
	sym.Assert(!A.Equals(x), "equal to slices")
	sym.Assert(!A.Equals(mkv(dense, x[0])), "equal to a vector")
}

func hasNaN(x []float64) bool {
	for _, v := range x {
		if v != v {
			return true
		}
	}
	return false
}

// Q09Vector: vectors.
func Q09Vector(g []int) {
	srep, n := g[0], g[1]
	x, y := sym.F64s("a", n), sym.F64s("b", n)
	v, w := mkv(dense, clonev(x)), mkv(srep, clonev(y))
	nx, ny := hasNaN(x), hasNaN(y)
	want := true
	if nx || ny {
		want = nx && ny
	} else {
		for i := range x {
			if x[i] != y[i] {
				want = false
				break
			}
		}
	}
	got := v.Equals(w)
	sym.Assert(got == want, "wrong verdict on equality")
	sym.Assert(w.Equals(v) == got, "equality is not symmetric")
	samev(v, x, "left operand")
	samev(w, y, "right operand")
	sym.Assert(v.Equals(v) && v.Equals(v.Copy()), "a vector differs from itself")
	sym.Assert(v.IsNaN() == nx, "wrong verdict on NaN")
}

// Q09VectorOther: lengths and other types.
func Q09VectorOther(g []int) {
	m, n := sym.IntIn("m", 0, 4), sym.IntIn("n", 0, 4)
	v, w := mkv(dense, make([]float64, m)), mkv(dense, make([]float64, n))
	sym.Assert(v.Equals(w) == (m == n), "wrong verdict on vectors of different lengths")
	sym.Assert(v.Equals(mkv(foreign, make([]float64, n))) == (m == n), "wrong verdict on vectors of different lengths")
	sym.Assert(!v.Equals(nil), "equal to nil")
	sym.Assert(!v.Equals(2.5), "equal to a number")
	sym.Assert(!v.Equals("v"), "equal to a string")
	sym.Assert(!v.Equals(make([]float64, m)), "equal to a slice")
	sym.Assert(!v.Equals(mk(dense, zeros(1, m+1))), "equal to a matrix")
}

// Q09VectorOne: vectors with at most one differing entry.
func Q09VectorOne(g []int) {
	srep, n := g[0], g[1]
	x := numbers(1, n, 2)[0]
	k := pick("position", every(n))
	x[k] = sym.F64("u")
	y := clonev(x)
	y[k] = sym.F64("v")
	v, w := mkv(dense, clonev(x)), mkv(srep, clonev(y))
	want := x[k] == y[k] || x[k] != x[k] && y[k] != y[k]
	sym.Assert(v.Equals(w) == want, "wrong verdict on equality")
	sym.Assert(w.Equals(v) == want, "equality is not symmetric")
	sym.Assert(v.IsNaN() == (x[k] != x[k]), "wrong verdict on NaN")
	samev(v, x, "left operand")
	samev(w, y, "right operand")
}
