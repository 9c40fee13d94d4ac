package h

import (
	"math"

	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p13() []Harness {
	lib := []int{dense, block, foreign}
	return []Harness{
		{Prop: "P13", Name: "L13Full", Mode: "real", F: L13Full, Quick: append(with(cross(lib, []int{0, 1}), a(1), a(2)), a(dense, 0, 3), a(block, 0, 3), a(diag, 0, 1), a(diag, 0, 2), a(diag, 1, 3)), Thorough: l(a(foreign, 0, 3), a(dense, 1, 3)), Bound: "all entries symbolic (every pivot order, singular matrices included), default or symbolic threshold, over the reals"},
		{Prop: "P13", Name: "L13Entries", Mode: "real", F: L13Entries, Quick: l(a(dense, 4, 0), a(dense, 4, 1), a(block, 5, 2), a(foreign, 4, 3)), Thorough: with(cross([]int{dense}), a(6, 3), a(5, 0), a(5, 4), a(6, 5), a(8, 2)), Bound: "integer matrices with three symbolic entries in one column or row (every pivot order they cause)"},
		{Prop: "P13", Name: "L13Sparse", Mode: "real", F: L13Sparse, Quick: l(a(block, 53), a(dense, 20)), Thorough: l(a(dense, 53), a(dense, 65), a(block, 105)), Bound: "permuted diagonal matrices with one symbolic entry at either end, the middle or a block boundary"},
		{Prop: "P13", Name: "L13Dependent", Mode: "real", F: L13Dependent, Quick: l(a(2), a(3)), Thorough: l(a(4)), Bound: "one row a symbolic combination of the others"},
		{Prop: "P13", Name: "L13Shape", Mode: "fp", F: L13Shape, Quick: l(a(dense), a(block), a(foreign)), Bound: "every shape 1..4 by 1..4"},
		{Prop: "P13", Name: "L13Sign", Mode: "real", F: L13Sign, Quick: with(cross([]int{0, 1, 2, 3}), a(4), a(7), a(10), a(16)), Thorough: with(cross([]int{0, 1, 2, 3}), a(24), a(54)), Bound: "permutation matrices (a transposition of any row with the last, the next or the opposite one after a fixed permutation) with one symbolic entry"},
		large("P13", "L13Large", L13Large, l(a(dense, 66, 1), a(block, 110, 3), a(dense, 130, 2), a(foreign, 70, 4)), l(a(dense, 160, 2), a(block, 210, 4), a(dense, 260, 5))),
	}
}

// det is the determinant by expansion along the first row.
func det(x [][]float64) float64 {
	if len(x) == 1 {
		return x[0][0]
	}
	s := 0.
	for j := range x[0] {
		if x[0][j] == 0 {
			continue
		}
		t := x[0][j] * det(minor(x, j))
		if j%2 == 0 {
			s += t
		} else {
			s -= t
		}
	}
	return s
}

// minor removes the first row and column j.
func minor(x [][]float64, j int) [][]float64 {
	r := make([][]float64, len(x)-1)
	for i := range r {
		for k, v := range x[i+1] {
			if k != j {
				r[i] = append(r[i], v)
			}
		}
	}
	return r
}

// pivots eliminates with partial pivoting and tells whether every pivot
// reaches the threshold.
func pivots(x [][]float64, t float64) bool {
	x = clone(x)
	n := len(x)
	for k := range x {
		p := k
		for i := k; i < n; i++ {
			if math.Abs(x[i][k]) > math.Abs(x[p][k]) {
				p = i
			}
		}
		if math.Abs(x[p][k]) < t {
			return false
		}
		x[p], x[k] = x[k], x[p]
		for i := k + 1; i < n; i++ {
			f := x[i][k] / x[k][k]
			for j := k; j < n; j++ {
				x[i][j] -= x[k][j] * f
			}
		}
	}
	return true
}

func lu(A linear.RealMatrix, custom bool, t float64) *linear.LUDecomposition {
	if custom {
		d, err := linear.NewLUDecompositionWithThreshold(A, t)
		sym.Assert(err == nil, "decomposition of a square matrix")
		return d
	}
	d, err := linear.NewLUDecomposition(A)
	sym.Assert(err == nil, "decomposition of a square matrix")
	return d
}

// factors checks the decomposition of a matrix with entries x; ok is the
// expected verdict.
func factors(d *linear.LUDecomposition, x [][]float64, ok bool) bool {
	n := len(x)
	sym.Assert(d.Solver().IsNonSingular() == ok, "singularity verdict")
	if !d.Solver().IsNonSingular() {
		sym.Assert(d.Determinant() == 0, "determinant of a singular matrix")
		sym.Assert(d.L() == nil && d.U() == nil && d.P() == nil, "factors of a singular matrix")
		sym.Assert(refused(func() { d.Solver().SolveVector(mkv(dense, make([]float64, n))) }), "solving with a singular matrix")
		sym.Assert(refused(func() { d.Solver().SolveMatrix(mk(dense, zeros(n, 1))) }), "solving with a singular matrix")
		sym.Assert(refused(func() { d.Solver().Inverse() }), "inverting a singular matrix")
		return false
	}
	L, U, P := entries(d.L()), entries(d.U()), entries(d.P())
	sym.Assert(len(L) == n && len(L[0]) == n && len(U) == n && len(U[0]) == n && len(P) == n && len(P[0]) == n, "shape of the factors")
	p := d.Pivot()
	sym.Assert(len(p) == n, "length of the pivot array")
	hit := make([]bool, n)
	for i := 0; i < n; i++ {
		sym.Assert(p[i] >= 0 && p[i] < n && !hit[p[i]], "pivot array is a permutation")
		hit[p[i]] = true
		for j := 0; j < n; j++ {
			if j == p[i] {
				sym.Assert(P[i][j] == 1, "permutation matrix")
			} else {
				sym.Assert(P[i][j] == 0, "permutation matrix")
			}
			switch {
			case j > i:
				sym.Assert(L[i][j] == 0, "L is lower triangular")
			case j == i:
				sym.Assert(L[i][j] == 1, "L has a unit diagonal")
			default:
				sym.Assert(U[i][j] == 0, "U is upper triangular")
				sym.AtMost(math.Abs(L[i][j]), 1, 1e-9, "multipliers")
			}
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			s := 0.
			for k := 0; k < n; k++ {
				if k <= i && k <= j {
					s += L[i][k] * U[k][j]
				}
			}
			sym.Near(s, x[p[i]][j], 1e-9, "L*U is the row-permuted matrix")
		}
	}
	return true
}

// L13Full: all entries symbolic.
func L13Full(g []int) {
	rep, custom, n := g[0], g[1] == 1, g[2]
	x := input(rep, "a", n, n)
	t := 1e-11
	if custom {
		t = sym.F64("t")
		sym.Assume(t > 0)
	}
	A := mk(rep, clone(x))
	d := lu(A, custom, t)
	if factors(d, x, pivots(x, t)) {
		sym.Cover("factored")
		sym.Near(d.Determinant(), det(x), 1e-9, "determinant")
	} else {
		sym.Cover("singular")
	}
	same(A, x, "decomposed matrix")
}

// L13Entries: some symbolic entries.
func L13Entries(g []int) {
	rep, n, k := g[0], g[1], g[2]
	x := numbers(n, n, k)
	for i := range x {
		x[i][(i+k)%n] += 9
	}
	c := sym.IntIn("column", 0, n-1)
	if k%2 == 0 {
		for i := 0; i < 3; i++ {
			x[(i+c)%n][c] = sym.F64("a" + string(rune('0'+i)))
		}
	} else {
		for i := 0; i < 3; i++ {
			x[c][(i+c)%n] = sym.F64("a" + string(rune('0'+i)))
		}
	}
	A := mk(rep, clone(x))
	d := lu(A, false, 0)
	if factors(d, x, pivots(x, 1e-11)) {
		sym.Cover("factored")
		sym.Near(d.Determinant(), det(x), 1e-9, "determinant")
	} else {
		sym.Cover("singular")
	}
	same(A, x, "decomposed matrix")
}

// L13Sparse: larger permuted diagonal matrices.
func L13Sparse(g []int) {
	rep, n := g[0], g[1]
	x := zeros(n, n)
	want := 1.
	for i := range x {
		v := float64(i%3) - 1.5
		x[i][(i+n/2)%n] = v
		want *= v
	}
	s := sym.F64("s")
	sym.Assume(s > 1e-6 || s < -1e-6)
	k := pick("row", spots(n))
	want = want / x[k][(k+n/2)%n] * s
	x[k][(k+n/2)%n] = s
	if (n/2*(n-n/2))%2 == 1 { // inversions of a rotation by n/2
		want = -want
	}
	A := mk(rep, clone(x))
	d := lu(A, false, 0)
	factors(d, x, true)
	sym.Near(d.Determinant()/want, 1, 1e-9, "determinant")
	same(A, x, "decomposed matrix")
}

// L13Sign: the sign of the determinant.
func L13Sign(g []int) {
	kind, n := g[0], g[1]
	p := make([]int, n)
	for i := range p {
		switch kind {
		case 0:
			p[i] = i
		case 1:
			p[i] = (i + 1) % n
		case 2:
			p[i] = n - 1 - i
		default:
			p[i] = (i*coprime(n) + 1) % n
		}
	}
	r := pick("row", every(n-1))
	t := []int{n - 1, r + 1, n - 1 - r}[pick("other row", []int{0, 1, 2})]
	p[r], p[t] = p[t], p[r]
	x := zeros(n, n)
	u := sym.F64("u")
	sym.Assume(u > 1e-6 || u < -1e-6)
	want := u
	for i := range p {
		x[i][p[i]] = 1
		if i == n/2 {
			x[i][p[i]] = u
		}
		for j := 0; j < i; j++ {
			if p[j] > p[i] {
				want = -want
			}
		}
	}
	d := lu(mk(dense, clone(x)), false, 0)
	sym.Assert(d.Solver().IsNonSingular(), "a regular matrix")
	sym.Near(d.Determinant()/want, 1, 1e-9, "determinant")
}

// L13Dependent: rank-deficient matrices.
func L13Dependent(g []int) {
	n := g[0]
	x := sym.Mat("a", n, n)
	k := sym.IntIn("row", 0, n-1)
	c := sym.F64s("c", n)
	for j := range x[k] {
		x[k][j] = 0
		for i := range x {
			if i != k {
				x[k][j] += c[i] * x[i][j]
			}
		}
	}
	A := mk(dense, clone(x))
	d := lu(A, false, 0)
	factors(d, x, false)
	same(A, x, "decomposed matrix")
}

// L13Shape: shapes.
func L13Shape(g []int) {
	rep := g[0]
	m, n := sym.IntIn("m", 1, 4), sym.IntIn("n", 1, 4)
	x := zeros(m, n)
	for i := range x {
		if i < n {
			x[i][i] = 1
		}
	}
	d, err := linear.NewLUDecomposition(mk(rep, clone(x)))
	sym.Assert((err == nil) == (m == n), "refused exactly for non-square matrices")
	sym.Assert((d == nil) == (err != nil), "a refused decomposition is not returned")
	_, err = linear.NewLUDecompositionWithThreshold(mk(rep, clone(x)), 1)
	sym.Assert((err == nil) == (m == n), "refused exactly for non-square matrices")
}
