package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p24() []Harness {
	return []Harness{
		{Prop: "P24", Name: "E24Solve", Mode: "real", F: E24Solve, Quick: l(a(dense, 1), a(foreign, 1), a(dense, 2), a(block, 2), a(foreign, 2), a(dense, 1, 1), a(diag, 1, 1), a(dense, 2, 1), a(block, 1, 3), a(dense, 9, 9, 2), a(dense, 9, 9, 1, 9)), Thorough: l(a(dense, 1, 2), a(dense, 3, 3), a(dense, 1, 1, 1), a(block, 3, 1, 1)), Bound: "direct sums of 1 by 1 and 2 by 2 symmetric matrices with eigenvalues 0 or between 0.001 and 1000 in size; all right-hand sides"},
		{Prop: "P24", Name: "E24Root", Mode: "real", F: E24Root, Quick: l(a(1), a(2), a(1, 1), a(2, 1), a(1, 3), a(9, 9, 3), a(9, 3, 9), a(9, 9, 9, 1)), Thorough: l(a(3, 3), a(1, 1, 1)), Bound: "such matrices"},
		{Prop: "P24", Name: "E24Determinant", Mode: "real", F: E24Determinant, Quick: l(a(1), a(2), a(4), a(1, 1), a(2, 1), a(1, 2), a(1, 1, 1), a(1, 4), a(9, 2), a(9, 9, 5), a(9, 9, 1, 9), a(9, 9, 9, 4)), Thorough: l(a(9, 9, 2), a(9, 2, 9), a(2, 9, 9, 9), a(5, 4), a(3), a(1, 3), a(1, 5, 1), a(5, 5), a(5, 2), a(2, 5), a(4, 5), a(4, 4)), Bound: "block upper triangular matrices of 1 by 1 (1) blocks and 2 by 2 ones with complex (2) and real (3, 4) eigenvalues"},
		{Prop: "P24", Name: "E24Signs", Mode: "lin", F: E24Signs, Quick: l(a(3), a(4), a(6), a(9)), Thorough: l(a(14)), Bound: "integer block upper triangular matrices with a complex pair at every position, every combination of signs of its real part and of the eigenvalue before it"},
		{Prop: "P24", Name: "E24Any", Mode: "lin", F: E24Any, Quick: l(a(1, dense, 1), a(2, block, 3), a(3, foreign, 2), a(4, dense, 3), a(6, block, 54)), Thorough: l(a(9, diag, 9), a(12, dense, 54)), Bound: "concrete symmetric matrices of scales 1e-20 to 1e20; all right-hand sides within [-1,1]"},
		{Prop: "P24", Name: "E24Graded", Mode: "lin", F: E24Graded, Quick: l(a(1), a(2), a(4), a(7)), Thorough: l(a(12)), Bound: "concrete matrices of scales 2^-20 to 2^30; right-hand sides of scales 2^-80 to 2^40, all of every scale"},
		{Prop: "P24", Name: "E24Refused", Mode: "real", F: E24Refused, Quick: l(a(1), a(2), a(3)), Bound: "right-hand sides of every length 1..5; symmetric, singular, non-symmetric and complex cases"},
	}
}

// E24Solve: the solver.
func E24Solve(g []int) {
	rep := g[0]
	x := sum(g[1:])
	n := len(x)
	d, err := linear.NewEigenDecomposition(mk(rep, clone(x)))
	sym.Assert(err == nil, "eigendecomposition of a symmetric matrix")
	_, re := spectrum(d, n)
	zero := false
	for _, v := range re {
		zero = zero || v == 0
	}
	s := d.Solver()
	sym.Assert(s.IsNonSingular() == !zero, "non-singular without a zero eigenvalue")
	b := input(dense, "r", n, 2)
	v := transposed(b)[1]
	B, V := mk(rep%2, clone(b)), mkv(rep, clonev(v))
	p1, e1 := sym.Panics(func() {
		solvedm(x, s.SolveMatrix(B), b, 1e-9)
		same(B, b, "right-hand side")
	})
	p2, e2 := sym.Panics(func() {
		solved(x, s.SolveVector(V), v, 1e-9)
		samev(V, v, "right-hand side")
	})
	p3, e3 := sym.Panics(func() {
		r := s.Inverse()
		solvedm(x, r, eye(n), 1e-9)
		solvedm(entries(r), mk(dense, x), eye(n), 1e-9)
	})
	sym.Assert(p1 == zero && p2 == zero && p3 == zero, "refused exactly for a singular matrix")
	if zero {
		sym.Assert(status(e1) == linear.ESING && status(e2) == linear.ESING && status(e3) == linear.ESING, "status of the refusal")
	}
}

// E24Root: the square root.
func E24Root(g []int) {
	x := sum(g)
	n := len(x)
	d, err := linear.NewEigenDecomposition(mk(dense, clone(x)))
	sym.Assert(err == nil, "eigendecomposition of a symmetric matrix")
	_, re := spectrum(d, n)
	positive := true
	for _, v := range re {
		positive = positive && v > 0
	}
	var S linear.RealMatrix
	p, e := sym.Panics(func() { S = d.SquareRoot() })
	sym.Assert(p == !positive, "refused exactly with an eigenvalue that is not positive")
	if p {
		sym.Assert(status(e) == linear.EUNSUP, "status of the refusal")
		return
	}
	s := entries(S)
	sym.Assert(len(s) == n && len(s[0]) == n, "shape of the square root")
	equals(s, transposed(s), "the square root is symmetric")
	equals(mul(s, s), x, "the square of the square root")
	// the square root with positive eigenvalues
	for i := range s {
		sym.Positive(s[i][i], "the square root is positive definite")
		if i > 0 {
			sym.Positive(s[i-1][i-1]*s[i][i]-s[i-1][i]*s[i][i-1], "the square root is positive definite")
		}
	}
}

// E24Determinant: the determinant.
func E24Determinant(g []int) {
	x := limit(coupled(g))
	d, err := linear.NewEigenDecomposition(mk(dense, clone(x)))
	if err != nil {
		return
	}
	sym.Near(d.Determinant(), det(x), 1e-9, "determinant")
}

// E24Signs: the sign of the determinant.
func E24Signs(g []int) {
	n := g[0]
	x := zeros(n, n)
	want := 1.
	k := pick("position", every(n-1))
	re := float64(pick("real part", []int{-1, 1, 0}))
	s := float64(pick("sign", []int{-1, 1}))
	f := float64(pick("other pair", []int{0, 1}))
	for i := range x {
		for j := i + 1; j < n; j++ {
			x[i][j] = float64((i+2*j)%3 - 1)
		}
		x[i][i] = s * (1.5 + float64(i)/4)
		if i%2 == 1 {
			x[i][i] = 4 - float64(i)/4
		}
	}
	pair := func(k int, re float64) {
		x[k][k], x[k][k+1], x[k+1][k], x[k+1][k+1] = re, 2, -2, re
	}
	pair(k, re)
	if f == 1 && k+4 <= n {
		pair(k+2, -0.5)
	}
	for i := 0; i < n; i++ {
		if i < n-1 && x[i+1][i] != 0 {
			want *= x[i][i]*x[i][i] + 4
			i++
		} else {
			want *= x[i][i]
		}
	}
	d, err := linear.NewEigenDecomposition(mk(dense, clone(x)))
	sym.Assert(err == nil, "eigendecomposition")
	sym.Near(d.Determinant()/want, 1, 1e-6, "determinant")
}

// coupled is a block upper triangular matrix whose blocks alone are symbolic.
func coupled(kinds []int) [][]float64 {
	x := blocks(kinds)
	at := 0
	for b, k := range kinds {
		at++
		if k > 1 && k < 9 {
			at++
			sign(sym.F64("b" + string(rune('0'+b)) + "m"))
		}
		for i := 0; i < at; i++ {
			for j := at; j < len(x); j++ {
				x[i][j] = float64((i+2*j)%3 - 1)
			}
		}
	}
	return x
}

// E24Any: larger matrices.
func E24Any(g []int) {
	n, srep, m := g[0], g[1], g[2]
	b := rhs(srep, n, m)
	for k := 1; k < 6; k++ {
		for _, f := range scales() {
			x := even(n, k, f)
			for i := range x {
				x[i][i] += float64(20*(i%2)-10) * f * float64(n)
			}
			d, err := linear.NewEigenDecomposition(mk(dense, clone(x)))
			sym.Assert(err == nil, "eigendecomposition of a symmetric matrix")
			s := d.Solver()
			sym.Assert(s.IsNonSingular(), "a regular matrix")
			B := mk(srep, clone(b))
			r := s.SolveMatrix(B)
			unit := scaled(x, 1/f)
			solvedm(unit, mk(dense, scaled(entries(r), f)), b, 1e-9)
			same(B, b, "right-hand side")
			v := transposed(b)[m-1]
			V := mkv(dense, clonev(v))
			solvedm(unit, mk(dense, scaled(column(s.SolveVector(V).ToArray()), f)), column(v), 1e-9)
			samev(V, v, "right-hand side")
			solvedm(unit, mk(dense, mul(scaled(entries(s.Inverse()), f), b)), b, 1e-9)
			if n > 4 {
				break
			}
		}
	}
}

// E24Refused: refusals.
func E24Refused(g []int) {
	n := g[0]
	k := sym.IntIn("k", 1, 5)
	b, v := input(dense, "b", k, 2), sym.F64s("v", k)
	for _, rep := range []int{dense, block, foreign} {
		x := zeros(n, n)
		for i := range x {
			x[i][i] = float64(2 - 3*i)
		}
		d, err := linear.NewEigenDecomposition(mk(rep, x))
		sym.Assert(err == nil, "eigendecomposition of a symmetric matrix")
		s := d.Solver()
		p, e := sym.Panics(func() { s.SolveMatrix(mk(rep, b)) })
		sym.Assert(p == (n != k), "refused exactly for a wrong number of rows")
		sym.Assert(!p || status(e) == linear.EDIM, "status of the refusal")
		p, e = sym.Panics(func() { s.SolveVector(mkv(rep, v)) })
		sym.Assert(p == (n != k), "refused exactly for a wrong dimension")
		sym.Assert(!p || status(e) == linear.EDIM, "status of the refusal")
		sym.Assert(!refused(func() { s.Inverse() }), "inverse of a regular matrix")
		d, err = linear.NewEigenDecomposition(mk(rep, zeros(n, n)))
		sym.Assert(err == nil, "eigendecomposition of a symmetric matrix")
		s = d.Solver()
		sym.Assert(!s.IsNonSingular(), "the zero matrix is singular")
		sym.Assert(refused(func() { s.SolveMatrix(mk(rep, b)) }) && refused(func() { s.SolveVector(mkv(rep, v)) }) && refused(func() { s.Inverse() }), "refused for a singular matrix")
		p, e = sym.Panics(func() { d.SquareRoot() })
		sym.Assert(p && status(e) == linear.EUNSUP, "no square root of a matrix that is not positive definite")
	}
	if n < 2 {
		return
	}
	// complex eigenvalues
	x := zeros(n, n)
	x[0][1], x[1][0] = 1, -1
	d, err := linear.NewEigenDecomposition(mk(dense, x))
	sym.Assert(err == nil && d.HasComplexEigenvalues(), "complex eigenvalues")
	p, e := sym.Panics(func() { d.Solver() })
	sym.Assert(p && status(e) == linear.EUNSUP, "no solver with complex eigenvalues")
	p, e = sym.Panics(func() { d.SquareRoot() })
	sym.Assert(p && status(e) == linear.EUNSUP, "no square root of a matrix that is not symmetric")
	x[1][0] = 0
	x[1][1] = 3
	d, err = linear.NewEigenDecomposition(mk(dense, x))
	sym.Assert(err == nil && !d.HasComplexEigenvalues(), "real eigenvalues")
	p, e = sym.Panics(func() { d.SquareRoot() })
	sym.Assert(p && status(e) == linear.EUNSUP, "no square root of a matrix that is not symmetric")
}

// E24Graded: systems of every scale.
func E24Graded(g []int) { graded(4, g[0]) }
