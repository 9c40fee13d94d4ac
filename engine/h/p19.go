package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p19() []Harness {
	lib := []int{dense, block, foreign}
	return []Harness{
		{Prop: "P19", Name: "R19Full", Mode: "real", F: R19Full, Quick: append(with(cross(lib), a(1, 1), a(2, 1), a(1, 2), a(1, 3), a(2, 2)), a(diag, 2, 2)), Thorough: l(a(dense, 4, 1), a(diag, 3, 3), a(dense, 1, 5)), Bound: "all entries symbolic (zero, dependent and equally long columns included), over the reals"},
		{Prop: "P19", Name: "R19Turned", Mode: "real", F: R19Turned, Quick: l(a(3, 2, 0), a(3, 2, 1), a(3, 2, 2), a(2, 3, 1), a(2, 3, 2), a(3, 3, 1), a(3, 3, 2), a(3, 3, 3)), Thorough: l(a(4, 2, 2), a(4, 3, 2), a(4, 3, 3), a(3, 4, 2), a(3, 4, 3), a(4, 4, 4)), Bound: "matrices of each rank and pivot order, written as symbolic reflections times a symbolic triangular matrix times a permutation; pivot columns strictly longest"},
		{Prop: "P19", Name: "R19Rank", Mode: "real", F: R19Rank, Quick: l(a(2), a(3), a(4)), Thorough: l(a(5)), Bound: "diagonal matrices with symbolic decreasing entries, symbolic drop threshold"},
		{Prop: "P19", Name: "R19Solver", Mode: "real", F: R19Solver, Quick: append(with(cross(lib, []int{dense, foreign}), a(1, 1), a(2, 1), a(2, 2)), a(diag, dense, 2, 2)), Bound: "all entries of matrix and right-hand side symbolic, over the reals"},
		{Prop: "P19", Name: "R19Solved", Mode: "real", F: R19Solved, Quick: l(a(3, 2), a(3, 3), a(2, 3)), Thorough: l(a(4, 2), a(4, 3)), Bound: "as R19Turned, right-hand sides symbolic"},
		{Prop: "P19", Name: "R19Linear", Mode: "lin", F: R19Linear, Quick: append(with(cross([]int{dense, block}, lib), a(5, 5, 3), a(6, 4, 54), a(14, 12, 2), a(6, 5, 131)), a(dense, diag, 9, 9, 9), a(foreign, dense, 7, 3, 105), a(diag, block, 5, 5, 2), a(dense, dense, 4, 6, 2), a(dense, block, 54, 54, 54), a(dense, dense, 54, 54, 108)), Thorough: append(with(cross([]int{dense, block}, lib), a(54, 53, 1), a(20, 12, 54)), a(dense, dense, 54, 54, 54), a(dense, foreign, 56, 54, 105)), Bound: "integer matrices with many column exchanges, all entries of the right-hand side symbolic in [-1,1]"},
		{Prop: "P19", Name: "R19Any", Mode: "lin", F: R19Any, Quick: l(a(1, 1), a(2, 2), a(3, 3), a(4, 2), a(2, 4), a(5, 3), a(3, 5), a(6, 6)), Thorough: l(a(10, 10), a(9, 12), a(12, 9), a(60, 4), a(4, 60)), Bound: "the decomposition of concrete matrices of scales 1e-60 to 1e60, of special ones and of ones with entries whose squares vanish, on every vector with entries in [-1,1]"},
		{Prop: "P19", Name: "R19Threshold", Mode: "real", F: R19Threshold, Quick: l(a(1, 1), a(2, 1), a(2, 2), a(3, 2)), Thorough: l(a(3, 3)), Bound: "pivots and threshold symbolic"},
		{Prop: "P19", Name: "R19Graded", Mode: "lin", F: R19Graded, Quick: l(a(1), a(2), a(4), a(7)), Thorough: l(a(12)), Bound: "concrete matrices of scales 2^-20 to 2^30; right-hand sides of scales 2^-80 to 2^40, all of every scale"},
		{Prop: "P19", Name: "R19Refused", Mode: "fp", F: R19Refused, Quick: l(a(1, 1), a(2, 2), a(3, 2), a(4, 3)), Bound: "right-hand sides of every length 1..5"},
		large("P19", "R19Large", R19Large, l(a(dense, 66, 66, 1), a(block, 70, 54, 3), a(dense, 54, 70, 2), a(block, 130, 3, 4), a(dense, 3, 130, 4), a(dense, 110, 110, 2)), l(a(dense, 130, 130, 3), a(block, 210, 110, 2), a(dense, 110, 210, 2))),
	}
}

func rrqr(A linear.RealMatrix) *linear.RRQRDecomposition {
	d, err := linear.NewRRQRDecomposition(A)
	sym.Assert(err == nil, "decomposition of any matrix")
	return d
}

// factored checks the factors.
func factored(d *linear.RRQRDecomposition, x [][]float64) {
	m, n := len(x), len(x[0])
	Q, T, R, P := entries(d.Q()), entries(d.QT()), entries(d.R()), entries(d.P())
	sym.Assert(len(Q) == m && len(Q[0]) == m, "shape of Q")
	sym.Assert(len(R) == m && len(R[0]) == n, "shape of R")
	sym.Assert(len(P) == n && len(P[0]) == n, "shape of P")
	equals(T, transposed(Q), "QT is the transpose of Q")
	orthogonal(Q, "Q")
	for i := range P {
		rows, columns := 0, 0
		for j := range P {
			sym.Assert(P[i][j] == 0 || P[i][j] == 1, "P is a permutation matrix")
			if P[i][j] == 1 {
				rows++
			}
			if P[j][i] == 1 {
				columns++
			}
		}
		sym.Assert(rows == 1 && columns == 1, "P is a permutation matrix")
	}
	for i := range R {
		for j := 0; j < i && j < n; j++ {
			sym.Assert(R[i][j] == 0, "R is upper triangular")
		}
		if i > 0 && i < n {
			sym.AtMost(R[i][i]*R[i][i], R[i-1][i-1]*R[i-1][i-1], 1e-9, "the diagonal of R does not increase")
		}
	}
	equals(mul(Q, R), mul(x, P), "Q*R is A*P")
}

// R19Full: all entries symbolic.
func R19Full(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := input(rep, "a", m, n)
	A := mk(rep, clone(x))
	d := rrqr(A)
	factored(d, x)
	same(A, x, "decomposed matrix")
	some := false
	for i := range x {
		for j := range x[i] {
			if x[i][j] != 0 {
				some = true
			}
		}
	}
	if !some {
		return
	}
	r := 1
	if m == 2 && n == 2 && det(x) != 0 {
		r = 2
	}
	sym.Assert(d.Rank(0) == r, "rank")
}

// order picks a permutation of n numbers.
func order(name string, n int) []int {
	f := 1
	for i := 2; i <= n; i++ {
		f *= i
	}
	k := sym.IntIn(name, 0, f-1)
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	var r []int
	for i := n; i > 0; i-- {
		r = append(r, left[k%i])
		left = append(append([]int{}, left[:k%i]...), left[k%i+1:]...)
		k /= i
	}
	return r
}

// ranked is a matrix of the given rank whose columns get exchanged in a given
// order: p[k] is the column that becomes the k-th.
func ranked(m, n, rank int) (x [][]float64, p []int) {
	r := triangular(m, n)
	for i := rank; i < m; i++ {
		for j := range r[i] {
			r[i][j] = 0
		}
	}
	for k := 0; k < rank; k++ {
		for j := k + 1; j < n; j++ {
			s := 0.
			for i := k; i <= j && i < rank; i++ {
				s += r[i][j] * r[i][j]
			}
			sym.Assume(r[k][k]*r[k][k] > s)
		}
	}
	mask := 0
	for k := rank; k < n; k++ {
		mask |= 1 << k
	}
	r = turned(r, mask)
	p = order("p", n)
	// the columns beyond the rank are not exchanged any further
	x = zeros(m, n)
	for i := range r {
		for j := range p {
			x[i][p[j]] = r[i][j]
		}
	}
	return x, p
}

// R19Turned: every rank and pivot order.
func R19Turned(g []int) {
	m, n, rank := g[0], g[1], g[2]
	x, p := ranked(m, n, rank)
	d := rrqr(mk(dense, clone(x)))
	factored(d, x)
	P := d.P()
	for k := 0; k < rank; k++ {
		sym.Assert(P.At(p[k], k) == 1, "the longest remaining column comes first")
	}
	if rank > 0 {
		sym.Assert(d.Rank(0) == rank, "rank")
	}
}

// R19Rank: the drop threshold.
func R19Rank(g []int) {
	n := g[0]
	x := zeros(n, n)
	v := sym.F64s("a", n)
	for i := range v {
		x[i][i] = v[i]
		sym.Assume(v[i] >= 0)
		if i > 0 {
			sym.Assume(v[i-1] >= v[i])
		}
	}
	sym.Assume(v[0] > 0)
	t := sym.F64("t")
	sym.Assume(t >= 0)
	d := rrqr(mk(dense, x))
	got := d.Rank(t)
	// norms of the trailing blocks, squared
	s := make([]float64, n+1)
	for i := n - 1; i >= 0; i-- {
		s[i] = s[i+1] + v[i]*v[i]
	}
	sym.Assert(got >= 1 && got <= n, "rank")
	for k := 1; k < got; k++ {
		sym.Assert(s[k] > 0 && s[k]*s[0] >= t*t*s[k-1], "no drop before the rank")
	}
	if got < n {
		sym.Assert(s[got] == 0 || s[got]*s[0] < t*t*s[got-1], "drop at the rank")
	}
}

// R19Solver: all entries symbolic.
func R19Solver(g []int) {
	rep, srep, m, n := g[0], g[1], g[2], g[3]
	x, b := input(rep, "a", m, n), sym.F64s("b", m)
	s := rrqr(mk(rep, clone(x))).Solver()
	sym.Assume(s.IsNonSingular())
	B := mkv(srep, clonev(b))
	leastv(x, s.SolveVector(B), b)
	samev(B, b, "right-hand side")
	C := mk(srep, column(b))
	leastm(x, entries(s.SolveMatrix(C)), column(b))
	same(C, column(b), "right-hand side")
	leastm(x, entries(s.Inverse()), eye(m))
}

// R19Solved: parametrised matrices.
func R19Solved(g []int) {
	m, n := g[0], g[1]
	r := n
	if m < n {
		r = m
	}
	x, _ := ranked(m, n, r)
	b := sym.Mat("b", m, 1)
	s := rrqr(mk(dense, clone(x))).Solver()
	sym.Assert(s.IsNonSingular(), "independent columns are accepted")
	leastv(x, s.SolveVector(mkv(dense, transposed(b)[0])), transposed(b)[0])
	leastm(x, entries(s.SolveMatrix(mk(dense, b))), b)
}

// R19Linear: larger matrices with symbolic right-hand sides.
func R19Linear(g []int) {
	rep, srep, m, n, k := g[0], g[1], g[2], g[3], g[4]
	x, b := rectangle(rep, m, n), rhs(srep, m, k)
	for i := range x {
		for j := range x[i] {
			x[i][j] *= float64(1 + j*3%5)
		}
	}
	d := rrqr(mk(rep, clone(x)))
	factored(d, x)
	full := n
	if m < n {
		full = m
	}
	sym.Assert(d.Rank(1e-6) == full, "rank")
	s := d.Solver()
	sym.Assert(s.IsNonSingular(), "independent columns are accepted")
	B := mk(srep, clone(b))
	leastm(x, entries(s.SolveMatrix(B)), b)
	same(B, b, "right-hand side")
	v := transposed(b)[k/2]
	V := mkv(dense, clonev(v))
	leastv(x, s.SolveVector(V), v)
	samev(V, v, "right-hand side")
	if m <= 20 {
		leastm(x, entries(s.Inverse()), eye(m))
	}
}

// R19Threshold: a matrix is singular when some diagonal entry of R is at most
// the threshold in magnitude.
func R19Threshold(g []int) {
	m, n := g[0], g[1]
	x, _ := ranked(m, n, n)
	t := sym.F64("t")
	sym.Assume(t >= 0)
	d, err := linear.NewRRQRDecompositionWithThreshold(mk(dense, x), t)
	sym.Assert(err == nil, "decomposition of any matrix")
	R := entries(d.R())
	low := false
	for k := 0; k < n; k++ {
		if R[k][k] <= t && R[k][k] >= -t {
			low = true
		}
	}
	s := d.Solver()
	sym.Assert(s.IsNonSingular() == !low, "singular exactly when a diagonal entry of R is not above the threshold")
	b := numbers(m, 2, 1)
	v := transposed(b)[0]
	sym.Assert(refused(func() { s.SolveVector(mkv(dense, v)) }) == low, "refused exactly for a singular matrix")
	sym.Assert(refused(func() { s.SolveMatrix(mk(dense, b)) }) == low, "refused exactly for a singular matrix")
}

// R19Refused: refusals.
func R19Refused(g []int) {
	m, n := g[0], g[1]
	k := sym.IntIn("k", 1, 5)
	b := input(dense, "b", k, 2)
	v := sym.F64s("v", k)
	for _, rep := range []int{dense, block, foreign} {
		s := rrqr(mk(dense, rectangle(dense, m, n))).Solver()
		p, e := sym.Panics(func() { s.SolveMatrix(mk(rep, b)) })
		sym.Assert(p == (m != k), "refused exactly for a wrong number of rows")
		sym.Assert(!p || status(e) == linear.EDIM, "status of the refusal")
		p, e = sym.Panics(func() { s.SolveVector(mkv(rep, v)) })
		sym.Assert(p == (m != k), "refused exactly for a wrong dimension")
		sym.Assert(!p || status(e) == linear.EDIM, "status of the refusal")
		sym.Assert(!refused(func() { s.Inverse() }), "inverse of a regular matrix")
		s = rrqr(mk(rep, zeros(m, n))).Solver()
		sym.Assert(!s.IsNonSingular(), "a zero matrix is singular")
		if m == k {
			p, e = sym.Panics(func() { s.SolveMatrix(mk(rep, b)) })
			sym.Assert(p && status(e) == linear.ESING, "refused for a singular matrix")
			p, e = sym.Panics(func() { s.SolveVector(mkv(rep, v)) })
			sym.Assert(p && status(e) == linear.ESING, "refused for a singular matrix")
		}
		sym.Assert(refused(func() { s.Inverse() }), "refused for a singular matrix")
	}
}

// R19Any: Q*R*PT acts like the matrix on every vector.
func R19Any(g []int) {
	m, n := g[0], g[1]
	v, w := vary(n), vary(max(m, n))[:m]
	one := func(x [][]float64, f float64) {
		d := rrqr(mk(dense, clone(x)))
		R, P := entries(d.R()), entries(d.P())
		unrotated(mul(x, P), v, w, entries(d.Q()), entries(d.QT()), R, f)
		for j := range P {
			s, t := 0, 0
			for i := range P {
				sym.Assert(P[i][j] == 0 || P[i][j] == 1, "P is a permutation")
				s += int(P[i][j])
				t += int(P[j][i])
			}
			sym.Assert(s == 1 && t == 1, "P is a permutation")
		}
		for k := 1; k < m && k < n; k++ {
			p, q := R[k-1][k-1]/f, R[k][k]/f
			sym.Assert(p*p >= q*q-1e-8, "diagonal magnitudes do not increase")
		}
	}
	for k := 1; k < 6; k++ {
		for _, f := range reach() {
			one(some(m, n, k, f), f)
		}
	}
	for _, x := range special(max(m, n)) {
		x = x[:m]
		for i := range x {
			x[i] = x[i][:n]
		}
		one(x, 1)
	}
	for _, x := range stray(m, n) {
		one(x, 1)
	}
}

// R19Graded: systems of every scale.
func R19Graded(g []int) { graded(3, g[0]) }
