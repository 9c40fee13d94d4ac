package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p21() []Harness {
	lib := []int{dense, block, foreign}
	return []Harness{
		{Prop: "P21", Name: "B21Full", Mode: "real", F: B21Full, Quick: append(with(cross(lib), a(1, 1), a(1, 2), a(2, 1), a(2, 2)), a(dense, 1, 3), a(dense, 3, 1), a(diag, 2, 2), a(diag, 4, 4)), Bound: "all matrices of the listed shapes, over the reals"},
		{Prop: "P21", Name: "B21Any", Mode: "lin", F: B21Any, Quick: l(a(1, 1), a(2, 2), a(3, 3), a(4, 2), a(2, 4), a(5, 3), a(3, 5), a(6, 6)), Thorough: l(a(10, 10), a(9, 12), a(12, 9), a(60, 4), a(4, 60)), Bound: "the reduction of concrete matrices of scales 1e-60 to 1e60, of special ones and of ones with entries whose squares vanish, on every vector with entries in [-1,1]"},
		{Prop: "P21", Name: "B21Turned", Mode: "real", F: B21Turned, Quick: l(a(3, 2, 0, 7), a(2, 3, 0, 7), a(3, 3, 0, 3), a(3, 3, 0, 6), a(3, 3, 0, 5), a(3, 3, 1, 2), a(3, 3, 2, 1), a(3, 3, 4, 1), a(4, 3, 0, 1), a(4, 3, 0, 2), a(4, 3, 8, 4), a(3, 4, 0, 1), a(3, 4, 1, 2), a(3, 4, 2, 16), a(4, 4, 0, 1), a(4, 4, 0, 2), a(4, 4, 18, 4), a(4, 5, 0, 1), a(5, 5, 0, 1), a(4, 6, 0, 1), a(5, 6, 192, 2), a(6, 2, 0, 3), a(2, 6, 0, 3), a(5, 4, 0, 8)), Thorough: l(a(4, 3, 0, 3), a(3, 4, 0, 3), a(4, 4, 0, 4), a(4, 4, 0, 8), a(4, 4, 0, 3), a(5, 5, 0, 2), a(6, 4, 0, 1), a(4, 6, 0, 2), a(6, 3, 16, 3), a(3, 6, 16, 3)), Bound: "matrices written as reflections, the listed ones symbolic, on both sides of a symbolic bidiagonal matrix, zero entries included"},
		large("P21", "B21Large", B21Large, l(a(dense, 66, 66, 1), a(block, 70, 54, 3), a(dense, 54, 70, 2), a(block, 130, 3, 4), a(dense, 3, 130, 4), a(dense, 110, 110, 2)), l(a(dense, 130, 130, 3), a(block, 210, 110, 2), a(dense, 110, 210, 2))),
	}
}

// bidiagonal checks a bidiagonal reduction.
func bidiagonal(A linear.RealMatrix, x [][]float64) {
	m, n := len(x), len(x[0])
	d, err := linear.NewBiDiagonalTransformer(A)
	sym.Assert(err == nil, "reduction of a matrix")
	U, B, V := entries(d.U()), entries(d.B()), entries(d.V())
	sym.Assert(len(U) == m && len(U[0]) == m && len(B) == m && len(B[0]) == n && len(V) == n && len(V[0]) == n, "shape of the factors")
	sym.Assert(d.IsUpperBiDiagonal() == (m >= n), "side of the second diagonal")
	p, s := d.MainDiagonalRef(), d.SecondaryDiagonalRef()
	q := min(m, n)
	sym.Assert(len(p) == q && len(s) == q-1, "length of the diagonals")
	for i := range B {
		for j := range B[i] {
			switch {
			case i == j:
				sym.Near(B[i][j], p[i], 1e-9, "main diagonal")
			case m >= n && j == i+1:
				sym.Near(B[i][j], s[i], 1e-9, "secondary diagonal")
			case m < n && i == j+1:
				sym.Near(B[i][j], s[j], 1e-9, "secondary diagonal")
			default:
				sym.Assert(B[i][j] == 0, "B is bidiagonal")
			}
		}
	}
	orthogonal(U, "U")
	orthogonal(V, "V")
	equals(mul(mul(U, B), transposed(V)), x, "U*B*VT is the matrix")
	same(A, x, "reduced matrix")
}

// B21Full: all matrices.
func B21Full(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := input(rep, "a", m, n)
	bidiagonal(mk(rep, clone(x)), x)
}

// B21Turned: larger matrices. The reflections are counted in the order of the
// reduction; only has the bits of
// the symbolic ones.
func B21Turned(g []int) {
	m, n, mask, only := g[0], g[1], g[2], g[3]
	t := zeros(m, n)
	q := min(m, n)
	d, e := sym.F64s("d", q), sym.F64s("e", q)
	for i := 0; i < q; i++ {
		t[i][i] = d[i]
		if mask>>(2*i)&1 == 1 {
			t[i][i] = 0
		} else {
			sym.Assume(d[i] != 0)
		}
		if i == q-1 {
			break
		}
		if mask>>(2*i+1)&1 == 1 {
			e[i] = 0
		} else {
			sym.Assume(e[i] != 0)
		}
		if m >= n {
			t[i][i+1] = e[i]
		} else {
			t[i+1][i] = e[i]
		}
	}
	if m < n {
		t = transposed(t)
	}
	for k := 2*q - 2; k >= 0; k-- {
		if mask>>k&1 == 1 {
			continue
		}
		// even: rows from k/2 on; odd: columns from k/2+1 on
		if k&1 == 1 {
			t = transposed(t)
		}
		r := (k + 1) / 2
		if len(t)-r > 1 {
			u := make([]float64, len(t)-r-1)
			for i := range u {
				u[i] = float64((i*5+k)%7 - 2)
			}
			if only>>k&1 == 1 {
				u[len(u)/2] = sym.F64("u" + string(rune('0'+k)))
			}
			turn(t, r, u)
		}
		if k&1 == 1 {
			t = transposed(t)
		}
	}
	if m < n {
		t = transposed(t)
	}
	bidiagonal(mk(dense, clone(t)), t)
}

// B21Any: U*B*VT acts like the matrix on every vector.
func B21Any(g []int) {
	m, n := g[0], g[1]
	v, w := vary(n), vary(max(m, n))[:m]
	one := func(x [][]float64, f float64) {
		d, err := linear.NewBiDiagonalTransformer(mk(dense, clone(x)))
		sym.Assert(err == nil, "reduction of a matrix")
		U, B, V := entries(d.U()), entries(d.B()), entries(d.V())
		for i := range B {
			for j := range B[i] {
				sym.Assert(i == j || m >= n && j == i+1 || m < n && i == j+1 || B[i][j] == 0, "B is bidiagonal")
			}
		}
		y, z := mul(U, mul(B, mul(transposed(V), v))), mul(x, v)
		for i := range z {
			sym.Near(y[i][0]/f, z[i][0]/f, 1e-8, "U*B*VT acts like the matrix")
		}
		y, z = mul(U, mul(transposed(U), w)), mul(V, mul(transposed(V), v))
		for i := range w {
			sym.Near(y[i][0], w[i][0], 1e-10, "U is orthogonal")
		}
		for i := range v {
			sym.Near(z[i][0], v[i][0], 1e-10, "V is orthogonal")
		}
	}
	for k := 1; k < 6; k++ {
		for _, f := range reach() {
			one(some(m, n, k, f), f)
		}
	}
	for _, x := range special(max(m, n)) {
		x = x[:m]
		for i := range x {
			x[i] = x[i][:n]
		}
		one(x, 1)
	}
	for _, x := range stray(m, n) {
		one(x, 1)
	}
}
