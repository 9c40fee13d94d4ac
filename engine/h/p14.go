package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p14() []Harness {
	lib := []int{dense, block, foreign}
	return []Harness{
		{Prop: "P14", Name: "L14Vector", Mode: "real", F: L14Vector, Quick: append(with(cross(lib, []int{dense, foreign}), a(1), a(2)), a(dense, dense, 3), a(block, foreign, 3), a(diag, dense, 3)), Thorough: l(a(foreign, foreign, 3), a(block, dense, 3)), Bound: "all entries of matrix and right-hand side symbolic, over the reals"},
		{Prop: "P14", Name: "L14Matrix", Mode: "real", F: L14Matrix, Quick: append(with(cross([]int{dense, block}, lib), a(1, 1), a(2, 1), a(2, 3)), a(dense, diag, 2, 2), a(diag, dense, 3, 2), a(diag, diag, 3, 3)), Thorough: l(a(dense, dense, 3, 1), a(block, block, 3, 2), a(dense, diag, 3, 3)), Bound: "all entries of matrix and right-hand side symbolic, over the reals"},
		{Prop: "P14", Name: "L14Inverse", Mode: "real", F: L14Inverse, Quick: append(with(cross(lib), a(1), a(2)), a(dense, 3), a(diag, 3)), Bound: "all entries symbolic, over the reals"},
		{Prop: "P14", Name: "L14Entries", Mode: "real", F: L14Entries, Quick: l(a(4, 0), a(5, 1)), Thorough: l(a(6, 2), a(5, 4)), Bound: "integer matrices with two symbolic entries in one column (every pivot order they cause); integer right-hand sides"},
		{Prop: "P14", Name: "L14Linear", Mode: "lin", F: L14Linear, Quick: append(with(cross([]int{dense, block}, lib), a(5, 3), a(20, 2), a(54, 1), a(3, 54), a(54, 54), a(5, 70), a(4, 131)), a(dense, dense, 54, 108), a(dense, diag, 20, 20), a(block, diag, 20, 20)), Thorough: with(cross([]int{dense, block}, lib), a(105, 1), a(105, 105)), Bound: "integer matrices with varied pivot orders, all entries of the right-hand side symbolic in [-1,1]"},
		{Prop: "P14", Name: "L14Graded", Mode: "lin", F: L14Graded, Quick: l(a(1), a(2), a(4), a(7)), Thorough: l(a(12)), Bound: "concrete matrices of scales 2^-20 to 2^30; right-hand sides of scales 2^-80 to 2^40, all of every scale"},
		{Prop: "P14", Name: "L14Refused", Mode: "fp", F: L14Refused, Quick: l(a(1), a(2), a(3)), Bound: "right-hand sides of every length 1..5"},
	}
}

// L14Vector: vector right-hand sides.
func L14Vector(g []int) {
	rep, srep, n := g[0], g[1], g[2]
	x, b := input(rep, "a", n, n), sym.F64s("b", n)
	s := lu(mk(rep, clone(x)), false, 0).Solver()
	sym.Assume(s.IsNonSingular())
	B := mkv(srep, clonev(b))
	solved(x, s.SolveVector(B), b, 1e-9)
	samev(B, b, "right-hand side")
}

// solved checks that x*r = b.
func solved(x [][]float64, r linear.RealVector, b []float64, tol float64) {
	sym.Assert(r.Dimension() == len(x[0]), "dimension of the solution")
	for i := range x {
		s := 0.
		for j := range x[i] {
			s += x[i][j] * r.At(j)
		}
		sym.Near(s, b[i], tol, "the solution satisfies the system")
	}
}

func solvedm(x [][]float64, r linear.RealMatrix, b [][]float64, tol float64) {
	sym.Assert(r.RowDimension() == len(x[0]) && r.ColumnDimension() == len(b[0]), "shape of the solution")
	for i := range x {
		for k := range b[0] {
			s := 0.
			for j := range x[i] {
				s += x[i][j] * r.At(j, k)
			}
			sym.Near(s, b[i][k], tol, "the solution satisfies the system")
		}
	}
}

// L14Matrix: matrix right-hand sides.
func L14Matrix(g []int) {
	rep, srep, n, k := g[0], g[1], g[2], g[3]
	x, b := input(rep, "a", n, n), input(srep, "b", n, k)
	s := lu(mk(rep, clone(x)), false, 0).Solver()
	sym.Assume(s.IsNonSingular())
	B := mk(srep, clone(b))
	solvedm(x, s.SolveMatrix(B), b, 1e-9)
	same(B, b, "right-hand side")
}

// L14Inverse: inverse.
func L14Inverse(g []int) {
	rep, n := g[0], g[1]
	x := input(rep, "a", n, n)
	s := lu(mk(rep, clone(x)), false, 0).Solver()
	sym.Assume(s.IsNonSingular())
	r := s.Inverse()
	solvedm(x, r, eye(n), 1e-9)
	solvedm(entries(r), mk(dense, x), eye(n), 1e-9)
}

// L14Entries: larger matrices with some symbolic entries.
func L14Entries(g []int) {
	n, k := g[0], g[1]
	x := numbers(n, n, k)
	for i := range x {
		x[i][(i+k)%n] += 9
	}
	c := sym.IntIn("column", 0, n-1)
	for i := 0; i < 2; i++ {
		x[(i+c)%n][c] = sym.F64("a" + string(rune('0'+i)))
	}
	s := lu(mk(dense, clone(x)), false, 0).Solver()
	sym.Assume(s.IsNonSingular())
	b := numbers(n, 3, 5)
	v := transposed(b)[1]
	solved(x, s.SolveVector(mkv(dense, v)), v, 1e-9)
	solvedm(x, s.SolveMatrix(mk(block, b)), b, 1e-9)
	solvedm(x, s.Inverse(), eye(n), 1e-9)
}

// dominant is a family of well-conditioned integer matrices whose largest
// entries lie on a permutation.
func dominant(n, k int) [][]float64 {
	x := numbers(n, n, k)
	for i := range x {
		for j := range x[i] {
			if n > 10 && (i*j+i+2*j)%5 != 0 {
				x[i][j] = 0
			}
		}
		v := float64(6*n + i%3)
		if i%2 == 1 {
			v = -v
		}
		x[i][(i*k+k)%n] += v
	}
	return x
}

// coprime is a multiplier that permutes 0..n-1.
func coprime(n int) int {
	for k := n/2 + 1; ; k++ {
		x, y := k, n
		for y > 0 {
			x, y = y, x%y
		}
		if x == 1 {
			return k
		}
	}
}

// L14Linear: larger matrices with symbolic right-hand sides.
func L14Linear(g []int) {
	rep, srep, n, k := g[0], g[1], g[2], g[3]
	for _, p := range []int{1, coprime(n)} {
		x, b := dominant(n, p), rhs(srep, n, k)
		s := lu(mk(rep, clone(x)), false, 0).Solver()
		sym.Assert(s.IsNonSingular(), "a regular matrix")
		B := mk(srep, clone(b))
		solvedm(x, s.SolveMatrix(B), b, 1e-9)
		same(B, b, "right-hand side")
		v := transposed(b)[0]
		V := mkv(dense, clonev(v))
		solved(x, s.SolveVector(V), v, 1e-9)
		samev(V, v, "right-hand side")
	}
}

// L14Refused: refusals.
func L14Refused(g []int) {
	n := g[0]
	k := sym.IntIn("k", 1, 5)
	b := input(dense, "b", k, 2)
	v := sym.F64s("v", k)
	for _, rep := range []int{dense, block, foreign} {
		s := lu(mk(dense, dominant(n, 1)), false, 0).Solver()
		sym.Assert(refused(func() { s.SolveMatrix(mk(rep, b)) }) == (n != k), "refused exactly for a wrong number of rows")
		sym.Assert(refused(func() { s.SolveVector(mkv(rep, v)) }) == (n != k), "refused exactly for a wrong dimension")
		sym.Assert(!refused(func() { s.Inverse() }), "inverse of a regular matrix")
		s = lu(mk(rep, zeros(n, n)), false, 0).Solver()
		sym.Assert(refused(func() { s.SolveMatrix(mk(rep, b)) }), "refused for a singular matrix")
		sym.Assert(refused(func() { s.SolveVector(mkv(rep, v)) }), "refused for a singular matrix")
		sym.Assert(refused(func() { s.Inverse() }), "refused for a singular matrix")
	}
}

// L14Graded: systems of every scale.
func L14Graded(g []int) { graded(0, g[0]) }
