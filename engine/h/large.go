package h

import (
	"math"

	"github.com/jtejido/linear"
	"verif/engine/sym"
)

// Decompositions of matrices larger than any block, applied to a plane of
// vectors.

const largeBound = "concrete matrices that span several blocks, applied to every combination of two columns"

// large is a harness for one of these decompositions.
func large(prop, name string, f func(g []int), quick, thorough [][]int) Harness {
	return Harness{Prop: prop, Name: name, Mode: "lin", F: f, Quick: quick, Thorough: thorough, Steps: 10, Bound: largeBound}
}

// L13Large: the row-permuted matrix acts like L*U.
func L13Large(g []int) {
	rep, n := g[0], g[1]
	x := some(n, n, g[2], 1)
	v := plane(n)
	d := lu(mk(rep, clone(x)), false, 0)
	sym.Assert(d.Solver().IsNonSingular(), "a regular matrix")
	L, U, P := entries(d.L()), entries(d.U()), entries(d.P())
	p := d.Pivot()
	hit := make([]bool, n)
	for i := range L {
		sym.Assert(!hit[p[i]], "pivot array is a permutation")
		hit[p[i]] = true
		for j := range L {
			sym.Assert(P[i][j] == 0 || P[i][j] == 1 && j == p[i], "permutation matrix")
			sym.Assert(P[i][j] == 1 || j != p[i], "permutation matrix")
			sym.Assert(j <= i || L[i][j] == 0, "L is lower triangular")
			sym.Assert(j != i || L[i][j] == 1, "L has a unit diagonal")
			sym.Assert(j >= i || U[i][j] == 0, "U is upper triangular")
			sym.Assert(math.Abs(L[i][j]) <= 1, "multipliers")
		}
	}
	y, z := mul(L, mul(U, v)), mul(x, v)
	for i := range z {
		sym.Near(y[i][0], z[p[i]][0], 1e-8, "L*U acts like the row-permuted matrix")
	}
}

// C15Large: L*LT acts like the matrix.
func C15Large(g []int) {
	rep, n := g[0], g[1]
	x := spd(n, g[2])
	v := plane(n)
	d, err := linear.NewDefaultCholeskyDecomposition(mk(rep, clone(x)))
	sym.Assert(err == nil, "a positive definite matrix is accepted")
	L, LT := entries(d.L()), entries(d.LT())
	for i := range L {
		for j := range L {
			sym.Assert(L[i][j] == LT[j][i], "LT is the transpose of L")
			sym.Assert(j <= i || L[i][j] == 0, "L is lower triangular")
		}
	}
	y, z := mul(L, mul(LT, v)), mul(x, v)
	for i := range z {
		sym.Near(y[i][0], z[i][0], 1e-8, "L*LT acts like the matrix")
	}
}

// R16Large: B*BT acts like the matrix.
func R16Large(g []int) {
	n, rank := g[0], g[1]
	c := whole(some(n, rank, g[2], 1))
	x := mul(c, transposed(c))
	v := plane(n)
	d, err := linear.NewRectangularCholeskyDecompositionWithThreshold(mk(dense, clone(x)), 1e-9)
	sym.Assert(err == nil, "a positive semidefinite matrix is accepted")
	sym.Assert(d.Rank() == rank, "rank")
	B := entries(d.RootMatrix())
	sym.Assert(len(B) == n && len(B[0]) == rank, "shape of the root")
	y, z := mul(B, mul(transposed(B), v)), mul(x, v)
	for i := range z {
		sym.Near(y[i][0], z[i][0], 1e-6, "B*BT acts like the matrix")
	}
}

// Q17Large: Q*R acts like the matrix.
func Q17Large(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := some(m, n, g[3], 1)
	v, w := plane(n), plane(max(m, n))[:m]
	d, err := linear.NewQRDecomposition(mk(rep, clone(x)))
	sym.Assert(err == nil, "decomposition of any matrix")
	unrotated(x, v, w, entries(d.Q()), entries(d.QT()), entries(d.R()), 1)
}

// R19Large: Q*R acts like the matrix with its columns permuted.
func R19Large(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := some(m, n, g[3], 1)
	v, w := plane(n), plane(max(m, n))[:m]
	d := rrqr(mk(rep, clone(x)))
	R, P := entries(d.R()), entries(d.P())
	for j := range P {
		s, t := 0., 0.
		for i := range P {
			sym.Assert(P[i][j] == 0 || P[i][j] == 1, "P is a permutation")
			s += P[i][j]
			t += P[j][i]
		}
		sym.Assert(s == 1 && t == 1, "P is a permutation")
	}
	Q := entries(d.Q())
	y, z := mul(Q, mul(R, mul(transposed(P), v))), mul(x, v)
	for i := range z {
		sym.Near(y[i][0], z[i][0], 1e-8, "Q*R*PT acts like the matrix")
	}
	y = mul(Q, mul(entries(d.QT()), w))
	for i := range w {
		sym.Near(y[i][0], w[i][0], 1e-10, "Q is orthogonal")
	}
	for i := range R {
		for j := 0; j < i && j < n; j++ {
			sym.Assert(R[i][j] == 0, "R is upper triangular")
		}
	}
	for k := 1; k < m && k < n; k++ {
		p, q := R[k-1][k-1], R[k][k]
		sym.Assert(p*p >= q*q-1e-8, "diagonal magnitudes do not increase")
	}
}

// T20Large: both reductions.
func T20Large(g []int) {
	rep, n := g[0], g[1]
	v := plane(n)
	x := some(n, n, g[2], 1)
	h, err := linear.NewHessenbergTransformer(mk(rep, clone(x)))
	sym.Assert(err == nil, "reduction of a square matrix")
	H := entries(h.H())
	similar(x, v, entries(h.P()), H, entries(h.PT()), 1, "P*H*PT")
	for i := range H {
		for j := 0; j < i-1; j++ {
			sym.Assert(H[i][j] == 0, "H is an upper Hessenberg matrix")
		}
	}
	x = even(n, g[2], 1)
	t, err := linear.NewTriDiagonalTransformer(mk(rep, clone(x)))
	sym.Assert(err == nil, "reduction of a symmetric matrix")
	T := entries(t.T())
	similar(x, v, entries(t.Q()), T, entries(t.QT()), 1, "Q*T*QT")
	for i := range T {
		for j := 0; j < i; j++ {
			sym.Assert(T[i][j] == T[j][i], "T is symmetric")
			sym.Assert(j == i-1 || T[i][j] == 0, "T is tridiagonal")
		}
	}
}

// B21Large: U*B*VT acts like the matrix.
func B21Large(g []int) {
	rep, m, n := g[0], g[1], g[2]
	v, w := plane(n), plane(max(m, n))[:m]
	x := some(m, n, g[3], 1)
	d, err := linear.NewBiDiagonalTransformer(mk(rep, clone(x)))
	sym.Assert(err == nil, "reduction of a matrix")
	U, B, V := entries(d.U()), entries(d.B()), entries(d.V())
	for i := range B {
		for j := range B[i] {
			sym.Assert(i == j || m >= n && j == i+1 || m < n && i == j+1 || B[i][j] == 0, "B is bidiagonal")
		}
	}
	y, z := mul(U, mul(B, mul(transposed(V), v))), mul(x, v)
	for i := range z {
		sym.Near(y[i][0], z[i][0], 1e-8, "U*B*VT acts like the matrix")
	}
	y, z = mul(U, mul(transposed(U), w)), mul(V, mul(transposed(V), v))
	for i := range w {
		sym.Near(y[i][0], w[i][0], 1e-10, "U is orthogonal")
	}
	for i := range v {
		sym.Near(z[i][0], v[i][0], 1e-10, "V is orthogonal")
	}
}

// E23Large: V*D*VT acts like the matrix.
func E23Large(g []int) {
	rep, n := g[0], g[1]
	x := even(n, g[2], 1)
	v := plane(n)
	d, err := linear.NewEigenDecomposition(mk(rep, clone(x)))
	sym.Assert(err == nil, "eigendecomposition of a symmetric matrix")
	acts(d, x, v, 1)
}

// E25Large: A*V acts like V*D.
func E25Large(g []int) {
	n := g[0]
	paired(some(n, n, g[1], 1), plane(n), 1)
}

// D26Large: U*S*VT acts like the matrix.
func D26Large(g []int) {
	m, n := g[0], g[1]
	deforms(some(m, n, g[2], 1), plane(max(m, n))[:n], 1)
}
