package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p17() []Harness {
	lib := []int{dense, block, foreign}
	return []Harness{
		{Prop: "P17", Name: "Q17Full", Mode: "real", F: Q17Full, Quick: append(with(cross(lib), a(1, 1), a(2, 1), a(1, 2), a(2, 2), a(2, 3)), a(dense, 3, 1), a(dense, 4, 1), a(diag, 2, 2), a(diag, 3, 3)), Thorough: l(a(dense, 2, 4), a(dense, 6, 1)), Bound: "all entries symbolic (zero and dependent columns included), over the reals"},
		{Prop: "P17", Name: "Q17Turned", Mode: "real", F: Q17Turned, Quick: append(with(l(a(3, 2), a(3, 3), a(4, 2)), a(0), a(1), a(2), a(3)), a(3, 3, 4), a(3, 3, 7), a(3, 4, 0), a(3, 4, 6), a(4, 3, 0), a(4, 3, 1), a(4, 3, 2), a(4, 3, 4), a(4, 4, 0), a(4, 4, 1), a(4, 4, 8)), Thorough: append(with(l(a(4, 3), a(4, 4)), a(3), a(5), a(6), a(7)), a(4, 4, 2), a(4, 4, 4), a(4, 4, 15), a(5, 3, 0), a(5, 4, 2), a(5, 5, 0), a(5, 6, 0), a(5, 5, 9)), Bound: "matrices written as symbolic reflections times a symbolic triangular matrix (all of them up to 3 rows; with one symbolic parameter per longer reflection otherwise)"},
		{Prop: "P17", Name: "Q17Any", Mode: "lin", F: Q17Any, Quick: l(a(1, 1), a(2, 2), a(3, 3), a(4, 2), a(2, 4), a(5, 3), a(3, 5), a(6, 6)), Thorough: l(a(10, 10), a(9, 12), a(12, 9), a(60, 4), a(4, 60)), Bound: "the decomposition of concrete matrices of scales 1e-60 to 1e60, of special ones and of ones with entries whose squares vanish, on every vector with entries in [-1,1]"},
		{Prop: "P17", Name: "Q17Wide", Mode: "lin", F: Q17Wide, Quick: cross(lib, []int{5}, []int{8}, []int{0, 3}), Thorough: l(a(dense, 20, 30, 0), a(block, 53, 56, 0), a(block, 20, 220, 4), a(foreign, 12, 12, 4)), Bound: "leading columns integer (some of them zero), the others symbolic in [-1,1]"},
		large("P17", "Q17Large", Q17Large, l(a(dense, 66, 66, 1), a(block, 70, 54, 3), a(dense, 54, 70, 2), a(block, 130, 3, 4), a(dense, 3, 130, 4), a(dense, 110, 110, 2)), l(a(dense, 130, 130, 3), a(block, 210, 110, 2), a(dense, 110, 210, 2))),
	}
}

// orthogonal checks that the columns of q are orthonormal.
func orthogonal(q [][]float64, msg string) {
	for i := range q[0] {
		for j := 0; j <= i; j++ {
			s := 0.
			for k := range q {
				s += q[k][i] * q[k][j]
			}
			if i == j {
				sym.Near(s, 1, 1e-9, msg+" has unit columns")
			} else {
				sym.Near(s, 0, 1e-9, msg+" has orthogonal columns")
			}
		}
	}
}

// equals checks that two arrays agree.
func equals(x, y [][]float64, msg string) {
	sym.Assert(len(x) == len(y) && len(x[0]) == len(y[0]), msg+": shape")
	for i := range y {
		for j := range y[i] {
			sym.Near(x[i][j], y[i][j], 1e-9, msg)
		}
	}
}

func qr(d *linear.QRDecomposition, x [][]float64) {
	m, n := len(x), len(x[0])
	Q, T, R := entries(d.Q()), entries(d.QT()), entries(d.R())
	sym.Assert(len(Q) == m && len(Q[0]) == m, "shape of Q")
	sym.Assert(len(R) == m && len(R[0]) == n, "shape of R")
	equals(T, transposed(Q), "QT is the transpose of Q")
	orthogonal(Q, "Q")
	for i := range R {
		for j := 0; j < i && j < n; j++ {
			sym.Assert(R[i][j] == 0, "R is upper triangular")
		}
	}
	equals(mul(Q, R), x, "Q*R is the matrix")
	reflectors(d, Q, R)
}

// reflectors checks that Q is the product of the reflections along the columns
// of H; where the diagonal entry of R is zero there is none.
func reflectors(d *linear.QRDecomposition, Q, R [][]float64) {
	m, n := len(R), len(R[0])
	H := entries(d.H())
	sym.Assert(len(H) == m && len(H[0]) == n, "shape of H")
	q := eye(m)
	for k := 0; k < n; k++ {
		for i := 0; i < m && i < k; i++ {
			sym.Assert(H[i][k] == 0, "H is lower trapezoidal")
		}
		if k >= m {
			continue
		}
		if R[k][k] == 0 {
			for i := k; i < m; i++ {
				sym.Assert(H[i][k] == 0, "no reflector for a zero column")
			}
			continue
		}
		sym.Cover("reflectors")
		// I - v*vT/v_k reflects along v when |v|^2 = 2*v_k
		s := 0.
		for i := k; i < m; i++ {
			s += H[i][k] * H[i][k]
		}
		sym.Near(s, 2*H[k][k], 1e-9, "reflectors are scaled")
		f := eye(m)
		for i := k; i < m; i++ {
			for j := k; j < m; j++ {
				f[i][j] -= H[i][k] * H[j][k] / H[k][k]
			}
		}
		q = mul(q, f)
	}
	equals(q, Q, "Q is the product of the reflections")
}

// Q17Full: all entries symbolic.
func Q17Full(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := input(rep, "a", m, n)
	A := mk(rep, clone(x))
	d, err := linear.NewQRDecomposition(A)
	sym.Assert(err == nil, "decomposition of any matrix")
	qr(d, x)
	same(A, x, "decomposed matrix")
}

// Q17Turned: every matrix, parametrised.
func Q17Turned(g []int) {
	m, n := g[0], g[1]
	x := turned(triangular(m, n), g[2])
	d, err := linear.NewQRDecomposition(mk(dense, clone(x)))
	sym.Assert(err == nil, "decomposition of any matrix")
	qr(d, x)
}

// Q17Wide: the columns after the first m-1 enter linearly.
func Q17Wide(g []int) {
	rep, m, n, gap := g[0], g[1], g[2], g[3]
	x := dominant(n, 1)[:m]
	w := small(sym.Mat("a", m, n-m))
	for i := range x {
		for j := range x[i] {
			if j >= m {
				x[i][j] = w[i][j-m]
			} else if gap > 0 && j%gap == gap-1 && j < m-1 {
				x[i][j] = 0
			}
		}
	}
	d, err := linear.NewQRDecomposition(mk(rep, clone(x)))
	sym.Assert(err == nil, "decomposition of any matrix")
	qr(d, x)
}

// Q17Any: Q*R acts like the matrix on every vector.
func Q17Any(g []int) {
	m, n := g[0], g[1]
	v, w := vary(n), vary(max(m, n))[:m]
	one := func(x [][]float64, f float64) {
		d, err := linear.NewQRDecomposition(mk(dense, clone(x)))
		sym.Assert(err == nil, "decomposition of any matrix")
		unrotated(x, v, w, entries(d.Q()), entries(d.QT()), entries(d.R()), f)
	}
	for k := 1; k < 6; k++ {
		for _, f := range reach() {
			one(some(m, n, k, f), f)
		}
	}
	for _, x := range special(max(m, n)) {
		x = x[:m]
		for i := range x {
			x[i] = x[i][:n]
		}
		one(x, 1)
	}
	for _, x := range stray(m, n) {
		one(x, 1)
	}
}

// unrotated checks that Q*R acts like x, of scale f.
func unrotated(x, v, w, Q, QT, R [][]float64, f float64) {
	for i := range R {
		for j := 0; j < i && j < len(R[i]); j++ {
			sym.Assert(R[i][j] == 0, "R is upper triangular")
		}
	}
	y, z := mul(Q, mul(R, v)), mul(x, v)
	for i := range z {
		sym.Near(y[i][0]/f, z[i][0]/f, 1e-8, "Q*R acts like the matrix")
	}
	y = mul(Q, mul(QT, w))
	for i := range w {
		sym.Near(y[i][0], w[i][0], 1e-10, "Q is orthogonal")
	}
}
