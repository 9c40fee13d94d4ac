package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p18() []Harness {
	lib := []int{dense, block, foreign}
	return []Harness{
		{Prop: "P18", Name: "Q18Full", Mode: "real", F: Q18Full, Quick: append(with(cross(lib, []int{dense, foreign}), a(1, 1), a(2, 1), a(2, 2)), a(dense, dense, 4, 1), a(diag, dense, 2, 2), a(diag, foreign, 3, 3), a(diag, dense, 5, 5)), Bound: "all entries of matrix and right-hand side symbolic, over the reals"},
		{Prop: "P18", Name: "Q18Turned", Mode: "real", F: Q18Turned, Quick: l(a(3, 1, 0), a(3, 2, 0), a(3, 3, 0), a(4, 2, 0), a(2, 3, 0), a(3, 2, 1), a(3, 3, 2), a(3, 3, 4), a(4, 3, 4), a(4, 4, 12), a(4, 4, 14)), Thorough: l(a(4, 3, 0), a(4, 4, 0), a(5, 2, 0), a(5, 3, 0), a(4, 4, 8), a(3, 4, 0)), Bound: "matrices written as symbolic reflections times a symbolic triangular matrix, zero pivots included; right-hand sides symbolic"},
		{Prop: "P18", Name: "Q18Linear", Mode: "lin", F: Q18Linear, Quick: append(with(cross([]int{dense, block}, lib), a(5, 5, 3), a(6, 4, 54), a(14, 12, 2), a(1, 1, 53), a(6, 5, 131)), a(dense, diag, 9, 9, 9), a(foreign, dense, 7, 3, 105), a(diag, block, 5, 5, 2), a(dense, dense, 4, 6, 2), a(dense, block, 54, 54, 54), a(block, dense, 54, 53, 105), a(dense, dense, 54, 54, 108)), Thorough: append(with(cross([]int{dense, block}, lib), a(54, 53, 1), a(20, 12, 54)), a(dense, dense, 54, 54, 54), a(dense, foreign, 105, 105, 105)), Bound: "integer matrices, all entries of the right-hand side symbolic in [-1,1]"},
		{Prop: "P18", Name: "Q18Inverse", Mode: "real", F: Q18Inverse, Quick: l(a(dense, 1), a(block, 2), a(foreign, 2), a(dense, 2), a(diag, 3), a(-1, 3)), Thorough: l(a(-1, 4)), Bound: "all entries symbolic (from size 3 on as reflections times a triangular matrix)"},
		{Prop: "P18", Name: "Q18Threshold", Mode: "real", F: Q18Threshold, Quick: l(a(1, 1), a(2, 1), a(2, 2), a(3, 2), a(3, 3)), Bound: "pivots and threshold symbolic"},
		{Prop: "P18", Name: "Q18Graded", Mode: "lin", F: Q18Graded, Quick: l(a(1), a(2), a(4), a(7)), Thorough: l(a(12)), Bound: "concrete matrices of scales 2^-20 to 2^30; right-hand sides of scales 2^-80 to 2^40, all of every scale"},
		{Prop: "P18", Name: "Q18Refused", Mode: "fp", F: Q18Refused, Quick: l(a(1, 1), a(2, 2), a(3, 2), a(4, 3)), Bound: "right-hand sides of every length 1..5"},
	}
}

func qrSolver(A linear.RealMatrix) linear.DecompositionSolver {
	d, err := linear.NewQRDecomposition(A)
	sym.Assert(err == nil, "decomposition of any matrix")
	return d.Solver()
}

// leastm checks that r is a least-squares solution of x*r = b, or a solution
// when x has at least as many columns as rows.
func leastm(x, r, b [][]float64) {
	sym.Assert(len(r) == len(x[0]) && len(r[0]) == len(b[0]), "shape of the solution")
	res := mul(x, r)
	for i := range res {
		for k := range res[i] {
			res[i][k] -= b[i][k]
		}
	}
	msg := "the solution satisfies the system"
	if len(x) > len(x[0]) {
		res = mul(transposed(x), res)
		msg = "the residual is orthogonal to the columns"
	}
	for i := range res {
		for k := range res[i] {
			sym.Near(res[i][k], 0, 1e-9, msg)
		}
	}
}

func leastv(x [][]float64, r linear.RealVector, b []float64) {
	c := zeros(r.Dimension(), 1)
	for i := range c {
		c[i][0] = r.At(i)
	}
	leastm(x, c, column(b))
}

func column(b []float64) [][]float64 {
	c := zeros(len(b), 1)
	for i := range c {
		c[i][0] = b[i]
	}
	return c
}

// Q18Full: all entries symbolic.
func Q18Full(g []int) {
	rep, srep, m, n := g[0], g[1], g[2], g[3]
	x, b := input(rep, "a", m, n), sym.F64s("b", m)
	s := qrSolver(mk(rep, clone(x)))
	if m <= 2 && m == n {
		d := det(x)
		if s.IsNonSingular() {
			sym.Assert(d != 0, "only regular matrices are accepted")
		} else {
			sym.Assert(d == 0, "regular matrices are accepted")
		}
	}
	sym.Assume(s.IsNonSingular())
	B := mkv(srep, clonev(b))
	leastv(x, s.SolveVector(B), b)
	samev(B, b, "right-hand side")
	C := mk(srep, column(b))
	leastm(x, entries(s.SolveMatrix(C)), column(b))
	same(C, column(b), "right-hand side")
}

// Q18Turned: parametrised matrices.
func Q18Turned(g []int) {
	m, n, mask := g[0], g[1], g[2]
	x, b := turned(triangular(m, n), mask), sym.Mat("b", m, 1)
	s := qrSolver(mk(dense, clone(x)))
	if mask != 0 {
		sym.Assert(!s.IsNonSingular(), "dependent columns are reported")
		sym.Assert(refused(func() { s.SolveVector(mkv(dense, transposed(b)[0])) }), "refused for a singular matrix")
		sym.Assert(refused(func() { s.SolveMatrix(mk(dense, b)) }), "refused for a singular matrix")
		sym.Assert(refused(func() { s.Inverse() }), "refused for a singular matrix")
		return
	}
	sym.Assert(s.IsNonSingular(), "independent columns are accepted")
	leastv(x, s.SolveVector(mkv(dense, transposed(b)[0])), transposed(b)[0])
	leastm(x, entries(s.SolveMatrix(mk(dense, b))), b)
}

// Q18Linear: larger matrices with symbolic right-hand sides.
func Q18Linear(g []int) {
	rep, srep, m, n, k := g[0], g[1], g[2], g[3], g[4]
	x, b := rectangle(rep, m, n), rhs(srep, m, k)
	s := qrSolver(mk(rep, clone(x)))
	sym.Assert(s.IsNonSingular(), "independent columns are accepted")
	B := mk(srep, clone(b))
	leastm(x, entries(s.SolveMatrix(B)), b)
	same(B, b, "right-hand side")
	v := transposed(b)[k/2]
	V := mkv(dense, clonev(v))
	leastv(x, s.SolveVector(V), v)
	samev(V, v, "right-hand side")
}

// rectangle is a well-conditioned integer matrix.
func rectangle(rep, m, n int) [][]float64 {
	k := m
	if n > m {
		k = n
	}
	x := dominant(k, 1)[:m]
	for i := range x {
		x[i] = x[i][:n]
		for j := range x[i] {
			if rep == diag && i != j {
				x[i][j] = 0
			}
		}
	}
	if rep == diag {
		for i := range x {
			x[i][i] = float64(i%5 + 2)
		}
	}
	return x
}

// Q18Inverse: the inverse, of tall matrices the left inverse.
func Q18Inverse(g []int) {
	rep, n := g[0], g[1]
	var x [][]float64
	if rep < 0 {
		rep = dense
		x = turned(triangular(n, n), 0)
	} else {
		x = input(rep, "a", n, n)
	}
	s := qrSolver(mk(rep, clone(x)))
	sym.Assume(s.IsNonSingular())
	r := entries(s.Inverse())
	leastm(x, r, eye(n))
	sym.Assert(len(r) == n, "shape of the inverse")
}

// Q18Threshold: a matrix is singular when some diagonal entry of R is at most
// the threshold in magnitude.
func Q18Threshold(g []int) {
	m, n := g[0], g[1]
	r := triangular(m, n)
	t := sym.F64("t")
	sym.Assume(t >= 0)
	x := turned(r, 0)
	d, err := linear.NewQRDecompositionWithThreshold(mk(dense, x), t)
	sym.Assert(err == nil, "decomposition of any matrix")
	low := false
	for k := 0; k < n; k++ {
		if r[k][k] <= t && r[k][k] >= -t {
			low = true
		}
	}
	s := d.Solver()
	sym.Assert(s.IsNonSingular() == !low, "singular exactly when a diagonal entry of R is not above the threshold")
	b := numbers(m, 2, 1)
	v := transposed(b)[0]
	sym.Assert(refused(func() { s.SolveVector(mkv(dense, v)) }) == low, "refused exactly for a singular matrix")
	sym.Assert(refused(func() { s.SolveMatrix(mk(dense, b)) }) == low, "refused exactly for a singular matrix")
}

// Q18Refused: refusals.
func Q18Refused(g []int) {
	m, n := g[0], g[1]
	k := sym.IntIn("k", 1, 5)
	b := input(dense, "b", k, 2)
	v := sym.F64s("v", k)
	for _, rep := range []int{dense, block, foreign} {
		s := qrSolver(mk(dense, rectangle(dense, m, n)))
		p, e := sym.Panics(func() { s.SolveMatrix(mk(rep, b)) })
		sym.Assert(p == (m != k), "refused exactly for a wrong number of rows")
		sym.Assert(!p || status(e) == linear.EDIM, "status of the refusal")
		p, e = sym.Panics(func() { s.SolveVector(mkv(rep, v)) })
		sym.Assert(p == (m != k), "refused exactly for a wrong dimension")
		sym.Assert(!p || status(e) == linear.EDIM, "status of the refusal")
		sym.Assert(!refused(func() { s.Inverse() }), "inverse of a regular matrix")
		s = qrSolver(mk(rep, zeros(m, n)))
		sym.Assert(!s.IsNonSingular(), "a zero matrix is singular")
		if m == k {
			p, e = sym.Panics(func() { s.SolveMatrix(mk(rep, b)) })
			sym.Assert(p && status(e) == linear.ESING, "refused for a singular matrix")
			p, e = sym.Panics(func() { s.SolveVector(mkv(rep, v)) })
			sym.Assert(p && status(e) == linear.ESING, "refused for a singular matrix")
		}
		sym.Assert(refused(func() { s.Inverse() }), "refused for a singular matrix")
	}
}

// Q18Graded: systems of every scale.
func Q18Graded(g []int) { graded(2, g[0]) }
