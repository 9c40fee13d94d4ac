package h

import (
	"math"

	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p15() []Harness {
	lib := []int{dense, block, foreign}
	return []Harness{
		{Prop: "P15", Name: "C15Full", Mode: "real", F: C15Full, Quick: append(with(cross(lib), a(0, 1), a(0, 2), a(1, 2), a(0, 3)), a(diag, 0, 1), a(diag, 0, 3)), Thorough: l(a(dense, 1, 3), a(dense, 0, 4)), Bound: "all symmetric matrices (accepted or not), default or symbolic positivity threshold, over the reals"},
		{Prop: "P15", Name: "C15Entries", Mode: "real", F: C15Entries, Quick: l(a(4, 0), a(4, 1), a(5, 2), a(6, 3)), Thorough: l(a(6, 0), a(7, 1), a(8, 4)), Bound: "integer symmetric matrices with one symbolic diagonal and one symbolic off-diagonal pair, accepted or not"},
		{Prop: "P15", Name: "C15Symmetry", Mode: "real", F: C15Symmetry, Quick: l(a(dense, 0, 2), a(block, 1, 2), a(dense, 0, 3), a(foreign, 1, 3), a(dense, 0, 5)), Bound: "one pair of symbolic entries anywhere in an otherwise symmetric matrix, default or symbolic relative threshold"},
		{Prop: "P15", Name: "C15Solve", Mode: "real", F: C15Solve, Quick: append(with(cross([]int{dense, block}, []int{dense, block, foreign}), a(1, 1), a(2, 1), a(2, 3)), a(dense, diag, 2, 2), a(diag, dense, 3, 2), a(dense, dense, 3, 2)), Thorough: l(a(dense, block, 3, 3), a(block, dense, 4, 1)), Bound: "all symmetric matrices and right-hand sides, over the reals"},
		{Prop: "P15", Name: "C15Linear", Mode: "lin", F: C15Linear, Quick: append(with(cross([]int{dense, block}, lib), a(5, 3), a(20, 2), a(3, 54), a(5, 70), a(4, 131)), a(dense, dense, 54, 1), a(block, foreign, 53, 1), a(dense, diag, 20, 20), a(dense, dense, 14, 108)), Thorough: with(cross([]int{dense, block}, lib), a(60, 3), a(54, 54)), Bound: "integer positive definite matrices, all entries of the right-hand side symbolic in [-1,1]"},
		{Prop: "P15", Name: "C15Graded", Mode: "lin", F: C15Graded, Quick: l(a(1), a(2), a(4), a(7)), Thorough: l(a(12)), Bound: "concrete matrices of scales 2^-20 to 2^30; right-hand sides of scales 2^-80 to 2^40, all of every scale"},
		{Prop: "P15", Name: "C15Shape", Mode: "fp", F: C15Shape, Quick: l(a(dense), a(block), a(foreign)), Bound: "every shape 1..4 by 1..4; right-hand sides of every length 1..5"},
		{Prop: "P15", Name: "C15Scale", Mode: "real", F: C15Scale, Quick: cross(sizes(1, 4), []int{-70, -30, 0, 30, 70}), Thorough: cross([]int{6}, []int{-45, 45}), Bound: "positive diagonals between 1/2 and 2 times a power of ten and one coupled pair, whose determinants lie between 1e-280 and 1e280"},
		large("P15", "C15Large", C15Large, l(a(dense, 66, 1), a(block, 110, 3), a(dense, 130, 2), a(foreign, 70, 4)), l(a(dense, 160, 2), a(block, 210, 4), a(dense, 260, 5))),
	}
}

// symmetric makes a symmetric symbolic matrix.
func symmetric(rep int, name string, n int) [][]float64 {
	x := input(rep, name, n, n)
	for i := range x {
		for j := 0; j < i; j++ {
			x[i][j] = x[j][i]
		}
	}
	return x
}

// definite eliminates without exchanges and tells which pivot is the first
// that is not above the threshold, -1 if there is none.
func definite(x [][]float64, t float64) (int, float64) {
	x = clone(x)
	for k := range x {
		if x[k][k] <= t {
			return k, x[k][k]
		}
		for i := k + 1; i < len(x); i++ {
			f := x[i][k] / x[k][k]
			for j := k; j < len(x); j++ {
				x[i][j] -= x[k][j] * f
			}
		}
	}
	return -1, 0
}

func status(err interface{}) int {
	if e, ok := err.(linear.LinearMathError); ok {
		return e.Status()
	}
	return -1
}

// C15Full: all symmetric matrices.
func C15Full(g []int) {
	rep, custom, n := g[0], g[1] == 1, g[2]
	x := symmetric(rep, "a", n)
	t := 1e-10
	if custom {
		t = sym.F64("t")
		sym.Assume(t >= 0)
	}
	A := mk(rep, clone(x))
	var d *linear.CholeskyDecomposition
	var err error
	if custom {
		d, err = linear.NewCholeskyDecomposition(A, 1e-15, t)
	} else {
		d, err = linear.NewDefaultCholeskyDecomposition(A)
	}
	cholesky(d, err, x, t)
	same(A, x, "decomposed matrix")
}

func cholesky(d *linear.CholeskyDecomposition, err error, x [][]float64, t float64) {
	bad, value := definite(x, t)
	sym.Assert((err == nil) == (bad < 0), "accepted exactly when every pivot is above the threshold")
	sym.Assert((err == nil) == (d != nil), "a refused decomposition is not returned")
	if err != nil {
		sym.Cover("refused")
		sym.Assert(status(err) == linear.ENSMALL, "status of a matrix that is not positive definite")
		e, ok := err.(interface {
			Row() int
			Column() int
			Threshold() float64
			Argument() float64
		})
		sym.Assert(ok, "details of the refusal")
		if ok {
			sym.Assert(e.Row() == bad && e.Column() == bad, "offending pivot")
			sym.Near(e.Argument(), value, 1e-9, "value of the offending pivot")
			sym.Near(e.Threshold(), t, 1e-15, "threshold of the refusal")
		}
		return
	}
	sym.Cover("accepted")
	n := len(x)
	L, T := entries(d.L()), entries(d.LT())
	sym.Assert(len(L) == n && len(L[0]) == n && len(T) == n && len(T[0]) == n, "shape of the factors")
	for i := range x {
		sym.Positive(L[i][i], "diagonal of the factor")
		for j := range x {
			sym.Near(L[i][j], T[j][i], 1e-9, "LT is the transpose of L")
			if j > i {
				sym.Assert(L[i][j] == 0, "L is lower triangular")
			}
			s := 0.
			for k := 0; k <= i && k <= j; k++ {
				s += L[i][k] * T[k][j]
			}
			sym.Near(s, x[i][j], 1e-9, "L*LT is the matrix")
		}
	}
	sym.Near(d.Determinant(), det(x), 1e-9, "determinant")
	sym.Assert(d.Solver().IsNonSingular(), "verdict of the solver")
}

// spd is a family of positive definite integer matrices.
func spd(n, k int) [][]float64 {
	x := zeros(n, n)
	for i := range x {
		for j := 0; j < i; j++ {
			v := float64((i*5+j*3+k)%7 - 3)
			if n > 10 && (i+2*j)%4 != 0 {
				v = 0
			}
			x[i][j], x[j][i] = v, v
		}
		x[i][i] = float64(3*n + i%3)
	}
	return x
}

// C15Entries: larger matrices with some symbolic entries.
func C15Entries(g []int) {
	n, k := g[0], g[1]
	x := spd(n, k)
	i := sym.IntIn("i", 0, n-1)
	j := (i + 1 + k%(n-1)) % n
	x[i][i] = sym.F64("d")
	v := sym.F64("e")
	x[i][j], x[j][i] = v, v
	A := mk(dense, clone(x))
	d, err := linear.NewDefaultCholeskyDecomposition(A)
	cholesky(d, err, x, 1e-10)
	same(A, x, "decomposed matrix")
}

// C15Symmetry: the symmetry test.
func C15Symmetry(g []int) {
	rep, custom, n := g[0], g[1] == 1, g[2]
	x := spd(n, 1)
	i := sym.IntIn("i", 1, n-1)
	j := sym.IntIn("j", 0, i-1)
	u, v := sym.F64("u"), sym.F64("v")
	sym.Assume(math.Abs(u) < 2)
	sym.Assume(math.Abs(v) < 2)
	x[i][j], x[j][i] = u, v
	t := 1e-15
	if custom {
		t = sym.F64("t")
		sym.Assume(t >= 0)
	}
	A := mk(rep, clone(x))
	var err error
	if custom {
		_, err = linear.NewCholeskyDecomposition(A, t, 1e-10)
	} else {
		_, err = linear.NewDefaultCholeskyDecomposition(A)
	}
	big := math.Abs(u)
	if math.Abs(v) > big {
		big = math.Abs(v)
	}
	bad := math.Abs(u-v) > t*big
	sym.Assert((err != nil) == bad, "refused exactly when not symmetric")
	if err != nil {
		sym.Cover("refused")
		sym.Assert(status(err) == linear.ESYMM, "status of a non-symmetric matrix")
		e, ok := err.(interface {
			Row() int
			Column() int
			Threshold() float64
		})
		sym.Assert(ok, "details of the refusal")
		if ok {
			sym.Assert(e.Row() == j && e.Column() == i || e.Row() == i && e.Column() == j, "offending entries")
			sym.Near(e.Threshold(), t, 1e-18, "threshold of the refusal")
		}
	} else {
		sym.Cover("accepted")
	}
	same(A, x, "decomposed matrix")
}

// C15Solve: solver.
func C15Solve(g []int) {
	rep, srep, n, k := g[0], g[1], g[2], g[3]
	x, b := symmetric(rep, "a", n), input(srep, "b", n, k)
	d, err := linear.NewDefaultCholeskyDecomposition(mk(rep, clone(x)))
	if err != nil {
		return
	}
	sym.Cover("accepted")
	s := d.Solver()
	B := mk(srep, clone(b))
	solvedm(x, s.SolveMatrix(B), b, 1e-9)
	same(B, b, "right-hand side")
	v := transposed(b)[k-1]
	vrep := dense
	if srep == foreign {
		vrep = foreign
	}
	V := mkv(vrep, clonev(v))
	solved(x, s.SolveVector(V), v, 1e-9)
	samev(V, v, "right-hand side")
	solvedm(x, s.Inverse(), eye(n), 1e-9)
}

// C15Linear: larger matrices with symbolic right-hand sides.
func C15Linear(g []int) {
	rep, srep, n, k := g[0], g[1], g[2], g[3]
	x, b := spd(n, 2), small(input(srep, "b", n, k))
	d, err := linear.NewDefaultCholeskyDecomposition(mk(rep, clone(x)))
	sym.Assert(err == nil, "a positive definite matrix")
	s := d.Solver()
	B := mk(srep, clone(b))
	solvedm(x, s.SolveMatrix(B), b, 1e-9)
	same(B, b, "right-hand side")
	v := transposed(b)[0]
	V := mkv(dense, clonev(v))
	solved(x, s.SolveVector(V), v, 1e-9)
	samev(V, v, "right-hand side")
}

// C15Shape: shapes.
func C15Shape(g []int) {
	rep := g[0]
	m, n := sym.IntIn("m", 1, 4), sym.IntIn("n", 1, 4)
	x := zeros(m, n)
	for i := range x {
		if i < n {
			x[i][i] = 4
		}
	}
	d, err := linear.NewDefaultCholeskyDecomposition(mk(rep, clone(x)))
	sym.Assert((err == nil) == (m == n), "refused exactly for non-square matrices")
	sym.Assert((d == nil) == (err != nil), "a refused decomposition is not returned")
	if err != nil {
		sym.Assert(status(err) == linear.ESQMAT, "status of a non-square matrix")
		return
	}
	k := sym.IntIn("k", 1, 5)
	sym.Assert(refused(func() { d.Solver().SolveMatrix(mk(rep, zeros(k, 2))) }) == (n != k), "refused exactly for a wrong number of rows")
	sym.Assert(refused(func() { d.Solver().SolveVector(mkv(rep, make([]float64, k))) }) == (n != k), "refused exactly for a wrong dimension")
}

// C15Scale: determinants of matrices of any scale.
func C15Scale(g []int) {
	n, e := g[0], g[1]
	f := math.Pow(10, float64(e))
	x, want := zeros(n, n), 1.
	for i := range x {
		d := sym.F64("d")
		sym.Assume(d >= .5 && d <= 2)
		x[i][i] = d * f
		want *= d
	}
	if n > 1 {
		c := sym.F64("c")
		sym.Assume(c >= -.25 && c <= .25)
		x[0][n-1], x[n-1][0] = c*f, c*f
		want = want / (x[0][0] / f) / (x[n-1][n-1] / f) * (x[0][0]/f*(x[n-1][n-1]/f) - c*c)
	}
	d, err := linear.NewCholeskyDecomposition(mk(dense, clone(x)), 1e-10, 0)
	sym.Assert(err == nil, "a positive definite matrix")
	got := d.Determinant()
	for range x {
		got /= f
	}
	sym.Near(got, want, 1e-9, "determinant")
}

// C15Graded: systems of every scale.
func C15Graded(g []int) { graded(1, g[0]) }
