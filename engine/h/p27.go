package h

import (
	"math"

	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p27() []Harness {
	return []Harness{
		{Prop: "P27", Name: "D27Derived", Mode: "real", F: D27Derived, Quick: l(a(dense, 0, 1), a(foreign, 0, 1, 1), a(diag, 0, 1, 1), a(dense, 0, 1, 1, 1), a(dense, 0, 2), a(dense, 1, 3), a(block, -2, 3), a(dense, 0, 6), a(dense, 0, 7, 1), a(dense, -2, 5), a(dense, 2, 1, 1), a(dense, -4, 1, 1), a(dense, 0, 8), a(dense, 0, 5, 5), a(dense, 0, 9, 9, 5), a(dense, 0, 9, 9, 9, 1), a(dense, 0, 9, 9, 7)), Thorough: l(a(dense, 0, 1, 5, 1), a(dense, -2, 8), a(dense, 1, 6, 7), a(block, 0, 8, 1)), Bound: "the matrices of P26: direct sums of upper triangular matrices with entries 0 or between 0.001 and 1000 in size and further rows (1) or transposed (-1); every bound for the covariance"},
		{Prop: "P27", Name: "D27Solve", Mode: "real", F: D27Solve, Quick: l(a(dense, 0, 1), a(foreign, 0, 1, 1), a(diag, 0, 1, 1), a(dense, 0, 1, 1, 1), a(dense, 0, 2), a(dense, 1, 3), a(block, -2, 3), a(dense, 0, 6), a(dense, 0, 7, 1), a(dense, -2, 5), a(dense, 2, 1, 1), a(foreign, -3, 1, 1), a(dense, 0, 8), a(dense, 0, 5, 5), a(dense, -3, 6, 1), a(dense, 0, 9, 9, 5), a(dense, 0, 9, 9, 9, 1), a(dense, 0, 9, 9, 7)), Thorough: l(a(dense, 0, 1, 5, 1), a(dense, -2, 8), a(dense, 1, 6, 7), a(block, 0, 8, 1), a(dense, 0, 2, 1)), Bound: "such matrices; all right-hand sides"},
		{Prop: "P27", Name: "D27Tiny", Mode: "real", F: D27Tiny, Quick: l(a(dense, 2, 2), a(block, 3, 2), a(foreign, 2, 3), a(diag, 3, 3)), Bound: "diagonal matrices with entries of two very different sizes (0.001 to 1000 and 1e-40 to 1e-22)"},
		{Prop: "P27", Name: "D27Spread", Mode: "real", F: D27Spread, Quick: l(a(dense, 2, 2), a(block, 3, 2), a(foreign, 2, 3), a(diag, 3, 3)), Bound: "diagonal matrices with one entry of 2e-12 to 1e-6, the others of 0.001 to 1000"},
		{Prop: "P27", Name: "D27Any", Mode: "lin", F: D27Any, Quick: l(a(1, 1), a(2, 2), a(3, 2), a(2, 3), a(4, 4), a(5, 3), a(3, 5)), Thorough: l(a(6, 6), a(9, 7), a(7, 9)), Bound: "concrete matrices of every rank and of scales 1e-20 to 1e20; all right-hand sides within [-1,1]"},
		{Prop: "P27", Name: "D27Graded", Mode: "lin", F: D27Graded, Quick: l(a(1), a(2), a(4), a(7)), Thorough: l(a(12)), Bound: "concrete matrices of scales 2^-20 to 2^30; right-hand sides of scales 2^-80 to 2^40, all of every scale"},
		{Prop: "P27", Name: "D27Refused", Mode: "lin", F: D27Refused, Quick: l(a(1, 1), a(2, 2), a(3, 2), a(2, 3), a(4, 5)), Bound: "right-hand sides of every length 1..5"},
	}
}

// dimension is the rank of a direct sum of the given kinds.
func dimension(kinds []int, x [][]float64) int {
	r, at := 0, 0
	for _, k := range kinds {
		switch k {
		case 1:
			if x[at][at] != 0 {
				r++
			}
			at++
		case 9:
			r++
			at++
		case 8:
			if x[at][at] != 0 || x[at][at+1] != 0 {
				r++
			}
			if x[at+1][at+2] != 0 || x[at+2][at+2] != 0 {
				r++
			}
			at += 3
		default:
			y := x[at : at+2]
			switch {
			case y[0][at] != 0 && y[1][at+1] != 0:
				r += 2
			case y[0][at] != 0 || y[0][at+1] != 0 || y[1][at+1] != 0:
				r++
			}
			at += 2
		}
	}
	return r
}

// D27Derived: norm, condition, rank and covariance.
func D27Derived(g []int) {
	x := tall(g)
	m, n := len(x), len(x[0])
	y := x
	if g[1] < 0 {
		y = transposed(x)
	}
	rank := dimension(g[2:], y)
	d, err := linear.NewSingularValueDecomposition(mk(g[0], clone(x)))
	sym.Assert(err == nil, "decomposition of a matrix")
	_, s, V := compact(d, m, n)
	p := len(s)
	sym.Assert(d.Rank() == rank, "rank")
	sym.Near(d.Norm(), s[0], 0, "norm")
	if s[p-1] != 0 {
		sym.Near(d.ConditionNumber(), s[0]/s[p-1], 1e-12, "condition number")
	}
	if s[0] != 0 {
		sym.Near(d.InverseConditionNumber(), s[p-1]/s[0], 1e-12, "inverse of the condition number")
	}
	least := sym.F64("least")
	sym.Assume(least > 0)
	k := 0
	for k < p && s[k] >= least {
		k++
	}
	var C linear.RealMatrix
	refused, e := sym.Panics(func() { C = d.Covariance(least) })
	sym.Assert(refused == (k == 0), "covariance refused exactly when no singular value is large enough")
	if k == 0 {
		sym.Assert(status(e) == linear.ENBIG, "status of the refusal")
		return
	}
	c := zeros(n, n)
	for i := range c {
		for j := range c {
			for l := 0; l < k; l++ {
				c[i][j] += V[i][l] * V[j][l] / (s[l] * s[l])
			}
		}
	}
	near(C, c, 1e-9, "covariance")
}

// penrose checks that r is the pseudo-inverse of x.
func penrose(x, r [][]float64, tol float64) {
	sym.Assert(len(r) == len(x[0]) && len(r[0]) == len(x), "shape of the pseudo-inverse")
	xr, rx := mul(x, r), mul(r, x)
	y, z := mul(xr, x), mul(rx, r)
	for i := range x {
		for j := range x[i] {
			sym.Near(y[i][j], x[i][j], tol, "A*R*A is A")
			sym.Near(z[j][i], r[j][i], tol, "R*A*R is R")
		}
	}
	for i := range xr {
		for j := 0; j < i; j++ {
			sym.Near(xr[i][j], xr[j][i], tol, "A*R is symmetric")
		}
	}
	for i := range rx {
		for j := 0; j < i; j++ {
			sym.Near(rx[i][j], rx[j][i], tol, "R*A is symmetric")
		}
	}
}

// D27Solve: the solver.
func D27Solve(g []int) {
	x := tall(g)
	m, n := len(x), len(x[0])
	y := x
	if g[1] < 0 {
		y = transposed(x)
	}
	rank := dimension(g[2:], y)
	d, err := linear.NewSingularValueDecomposition(mk(g[0], clone(x)))
	sym.Assert(err == nil, "decomposition of a matrix")
	s := d.Solver()
	sym.Assert(s.IsNonSingular() == (rank == m && rank == n), "non-singular exactly when square of full rank")
	r := entries(s.Inverse())
	penrose(x, r, 1e-9)
	b := input(dense, "r", m, 2)
	v := transposed(b)[1]
	B, W := mk(g[0]%2, clone(b)), mkv(g[0], clonev(v))
	near(s.SolveMatrix(B), mul(r, b), 1e-9, "solution for a matrix")
	nearv(s.SolveVector(W), transposed(mul(r, column(v)))[0], 1e-9, "solution for a vector")
	same(B, b, "right-hand side")
	samev(W, v, "right-hand side")
}

// D27Any: larger matrices.
func D27Any(g []int) {
	m, n := g[0], g[1]
	b := rhs(dense, m, 2)
	for k := 1; k < 5; k++ {
		for rank := 1; rank <= min(m, n); rank++ {
			unit := mul(whole(some(m, rank, k, 1)), whole(some(rank, n, k+1, 1)))
			rank := n - len(kernel(unit))
			for _, f := range []float64{1, 0x1p-66, 0x1p-30, 0x1p30, 0x1p66} {
				x := scaled(unit, f)
				d, err := linear.NewSingularValueDecomposition(mk(dense, clone(x)))
				sym.Assert(err == nil, "decomposition of a matrix")
				sym.Assert(d.Rank() == rank, "rank")
				s := d.Solver()
				sym.Assert(s.IsNonSingular() == (rank == m && rank == n), "non-singular exactly when square of full rank")
				best(unit, scaled(entries(s.SolveMatrix(mk(dense, clone(b)))), f), b)
				v := transposed(b)[1]
				best(unit, scaled(column(s.SolveVector(mkv(dense, clonev(v))).ToArray()), f), column(v))
				best(unit, scaled(mul(entries(s.Inverse()), b), f), b)
			}
		}
	}
}

// whole drops the fractions.
func whole(x [][]float64) [][]float64 {
	for i := range x {
		for j := range x[i] {
			x[i][j] = math.Trunc(x[i][j])
		}
	}
	return x
}

// best checks that r is the shortest least-squares solution of x*r = b.
func best(x, r, b [][]float64) {
	res := mul(x, r)
	for i := range res {
		for k := range res[i] {
			res[i][k] -= b[i][k]
		}
	}
	t := mul(transposed(x), res)
	for i := range t {
		for k := range t[i] {
			sym.Near(t[i][k], 0, 1e-7, "the residual is orthogonal to the columns")
		}
	}
	// orthogonal to the kernel
	for _, z := range kernel(x) {
		for k := range r[0] {
			q := 0.
			for i := range z {
				q += z[i] * r[i][k]
			}
			sym.Near(q, 0, 1e-7, "the solution is orthogonal to the kernel")
		}
	}
}

// kernel spans the kernel of a concrete matrix.
func kernel(x [][]float64) [][]float64 {
	x = clone(x)
	n := len(x[0])
	var pivot []int
	at := 0
	free := []int{}
	for j := 0; j < n; j++ {
		p := -1
		for i := at; i < len(x); i++ {
			if (x[i][j] > 1e-8 || x[i][j] < -1e-8) && (p < 0 || x[i][j]*x[i][j] > x[p][j]*x[p][j]) {
				p = i
			}
		}
		if p < 0 {
			free = append(free, j)
			continue
		}
		x[p], x[at] = x[at], x[p]
		for i := range x {
			if i != at {
				q := x[i][j] / x[at][j]
				for k := range x[i] {
					x[i][k] -= q * x[at][k]
				}
			}
		}
		pivot = append(pivot, j)
		at++
	}
	var r [][]float64
	for _, j := range free {
		z := make([]float64, n)
		z[j] = 1
		for i, p := range pivot {
			z[p] = -x[i][j] / x[i][p]
		}
		s := math.Sqrt(dot(z, z))
		for i := range z {
			z[i] /= s
		}
		r = append(r, z)
	}
	return r
}

// D27Refused: right-hand sides of the wrong length.
func D27Refused(g []int) {
	m, n := g[0], g[1]
	k := sym.IntIn("k", 1, 5)
	b, v := input(dense, "b", k, 2), sym.F64s("v", k)
	for _, rep := range []int{dense, block, foreign} {
		d, err := linear.NewSingularValueDecomposition(mk(rep, rectangle(rep, m, n)))
		sym.Assert(err == nil, "decomposition of a matrix")
		s := d.Solver()
		p, e := sym.Panics(func() { s.SolveMatrix(mk(rep, b)) })
		sym.Assert(p == (m != k), "refused exactly for a wrong number of rows")
		sym.Assert(!p || status(e) == linear.EDIM, "status of the refusal")
		p, e = sym.Panics(func() { s.SolveVector(mkv(rep, v)) })
		sym.Assert(p == (m != k), "refused exactly for a wrong dimension")
		sym.Assert(!p || status(e) == linear.EDIM, "status of the refusal")
		sym.Assert(!refused(func() { s.Inverse() }), "inverse of any matrix")
		p, e = sym.Panics(func() { d.Covariance(1e9) })
		sym.Assert(p && status(e) == linear.ENBIG, "no singular value is large enough")
	}
}

// D27Tiny: singular values on both sides of the tolerance.
func D27Tiny(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := zeros(m, n)
	p := min(m, n)
	d := sym.F64s("d", p)
	k := sym.IntIn("tiny", 0, p-1)
	for i := range d {
		x[i][i] = d[i]
		sym.Assume(d[i] != 0)
		if i == k {
			sym.Size(d[i], 1e-40, 1e-22)
		} else {
			apart(d[i])
		}
	}
	s, err := linear.NewSingularValueDecomposition(mk(rep, clone(x)))
	sym.Assert(err == nil, "decomposition of a matrix")
	v := s.SingularValues()
	sym.Assert(len(v) == p, "number of singular values")
	tiny := math.Abs(d[k])
	sym.Near(v[p-1]/tiny, 1, 1e-9, "smallest singular value")
	sym.Near(s.Norm(), v[0], 0, "norm")
	sym.Near(s.ConditionNumber()*tiny/v[0], 1, 1e-9, "condition number")
	sym.Near(s.InverseConditionNumber()*v[0]/tiny, 1, 1e-9, "inverse of the condition number")
	sym.Assert(s.Rank() == p-1, "rank")
	c := entries(s.Covariance(tiny / 2))
	for i := range c {
		for j := range c {
			switch {
			case i != j || i >= p:
				sym.Assert(c[i][j] == 0, "covariance off the diagonal")
			default:
				sym.Near(c[i][i]*(d[i]*d[i]), 1, 1e-9, "covariance with all singular values")
			}
		}
	}
	near(s.Covariance(1e-10), leave(c, k), 1e-9, "covariance without the smallest singular value")
	t := s.Solver()
	sym.Assert(!t.IsNonSingular(), "non-singular exactly when square of full rank")
	b := sym.F64s("r", m)
	r := t.SolveVector(mkv(dense, clonev(b))).ToArray()
	for i := range r {
		if i < p && i != k {
			sym.Near(r[i], b[i]/d[i], 1e-9, "solution")
		} else {
			sym.Near(r[i], 0, 1e-9, "solution")
		}
	}
}

// leave is c without the entry in row and column k.
func leave(c [][]float64, k int) [][]float64 {
	r := clone(c)
	r[k][k] = 0
	return r
}

// D27Graded: systems of every scale.
func D27Graded(g []int) { graded(5, g[0]) }

// D27Spread: singular values of very different sizes, all of them above the
// tolerance.
func D27Spread(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := zeros(m, n)
	p := min(m, n)
	d := sym.F64s("d", p)
	k := sym.IntIn("tiny", 0, p-1)
	for i := range d {
		x[i][i] = d[i]
		sym.Assume(d[i] != 0)
		if i == k {
			sym.Size(d[i], 2e-12, 1e-6)
		} else {
			apart(d[i])
		}
	}
	s, err := linear.NewSingularValueDecomposition(mk(rep, clone(x)))
	sym.Assert(err == nil, "decomposition of a matrix")
	v := s.SingularValues()
	tiny := math.Abs(d[k])
	sym.Near(v[p-1]/tiny, 1, 1e-9, "smallest singular value")
	sym.Near(s.ConditionNumber()*tiny/v[0], 1, 1e-9, "condition number")
	sym.Near(s.InverseConditionNumber()*v[0]/tiny, 1, 1e-9, "inverse of the condition number")
	sym.Assert(s.Rank() == p, "rank")
	t := s.Solver()
	sym.Assert(t.IsNonSingular() == (m == n), "non-singular exactly when square of full rank")
	b := sym.F64s("r", m)
	r := t.SolveVector(mkv(dense, clonev(b))).ToArray()
	for i := range r {
		if i < p {
			sym.Near(r[i]*d[i], b[i], 1e-9, "solution")
		} else {
			sym.Near(r[i], 0, 1e-9, "solution")
		}
	}
}
