package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p20() []Harness {
	lib := []int{dense, block, foreign}
	return []Harness{
		{Prop: "P20", Name: "T20Full", Mode: "real", F: T20Full, Quick: append(with(cross(lib), a(1), a(2), a(3)), a(diag, 3), a(diag, 5)), Bound: "all symmetric matrices of the listed sizes, over the reals"},
		{Prop: "P20", Name: "T20Turned", Mode: "real", F: T20Turned, Quick: l(a(4, 0), a(4, 1), a(4, 2), a(4, 3), a(4, 4), a(4, 6)), Thorough: l(a(4, 5), a(4, 7), a(5, 0), a(5, 1), a(5, 15), a(5, 6)), Bound: "symmetric matrices written as symbolic reflections around a symbolic tridiagonal matrix, zero couplings included"},
		{Prop: "P20", Name: "H20Full", Mode: "real", F: H20Full, Quick: append(with(cross(lib), a(1), a(2)), a(dense, 3), a(diag, 3)), Thorough: l(a(block, 3), a(foreign, 3)), Bound: "all square matrices of the listed sizes, over the reals"},
		{Prop: "P20", Name: "H20Turned", Mode: "real", F: H20Turned, Quick: l(a(4, 0, 0), a(4, 0, 1), a(4, 1, 1), a(4, 2, 0), a(4, 3, 0)), Thorough: l(a(5, 0, 2), a(5, 3, 2), a(5, 7, 0), a(6, 0, 3)), Bound: "square matrices written as reflections, one of them symbolic, around a symbolic Hessenberg matrix, zero couplings included"},
		{Prop: "P20", Name: "T20Any", Mode: "lin", F: T20Any, Quick: l(a(1), a(2), a(3), a(4), a(6)), Thorough: l(a(5), a(9), a(20), a(54)), Bound: "the reductions of concrete matrices of scales 1e-60 to 1e60, of special ones and of ones with entries whose squares vanish, on every vector with entries in [-1,1]"},
		{Prop: "P20", Name: "H20Refused", Mode: "fp", F: H20Refused, Quick: l(a(0)), Bound: "all shapes up to 3 by 3"},
		large("P20", "T20Large", T20Large, l(a(dense, 66, 1), a(block, 70, 3), a(dense, 110, 2)), l(a(dense, 130, 2), a(block, 160, 4))),
	}
}

// tridiagonal checks a tridiagonal reduction.
func tridiagonal(A linear.RealMatrix, x [][]float64) {
	n := len(x)
	d, err := linear.NewTriDiagonalTransformer(A)
	sym.Assert(err == nil, "reduction of a symmetric matrix")
	Q, QT, T := entries(d.Q()), entries(d.QT()), entries(d.T())
	sym.Assert(len(Q) == n && len(Q[0]) == n && len(T) == n && len(T[0]) == n, "shape of the factors")
	equals(QT, transposed(Q), "QT is the transpose of Q")
	orthogonal(Q, "Q")
	p, s := d.MainDiagonalRef(), d.SecondaryDiagonalRef()
	sym.Assert(len(p) == n && len(s) == n-1, "length of the diagonals")
	for i := range T {
		for j := range T[i] {
			switch {
			case i == j:
				sym.Near(T[i][j], p[i], 1e-9, "main diagonal")
			case i == j+1:
				sym.Near(T[i][j], s[j], 1e-9, "secondary diagonal")
				sym.Near(T[j][i], s[j], 1e-9, "T is symmetric")
			case i > j+1 || j > i+1:
				sym.Assert(T[i][j] == 0, "T is tridiagonal")
			}
		}
	}
	equals(mul(mul(Q, T), QT), x, "Q*T*QT is the matrix")
	same(A, x, "reduced matrix")
}

// T20Full: all symmetric matrices.
func T20Full(g []int) {
	rep, n := g[0], g[1]
	x := symmetric(rep, "a", n)
	tridiagonal(mk(rep, clone(x)), x)
}

// around applies the reflections of rows and columns k+1.. for each k whose
// bit in mask is clear; where only is not negative, that one alone is symbolic.
func around(x [][]float64, mask, only int) [][]float64 {
	n := len(x)
	x = clone(x)
	for k := n - 3; k >= 0; k-- {
		if mask>>k&1 == 1 {
			continue
		}
		name := "u" + string(rune('0'+k))
		u := axis(name, n-k-2)
		if only >= 0 {
			for i := range u {
				u[i] = float64((i*5+k)%7 - 2)
			}
			if only == k {
				u[len(u)/2] = sym.F64(name)
			}
		}
		turn(x, k+1, u)
		x = transposed(x)
		turn(x, k+1, u)
		x = transposed(x)
		for i := k + 1; only >= 0 && i < n; i++ {
			sign(x[i][k])
		}
	}
	return x
}

// T20Turned: larger symmetric matrices.
func T20Turned(g []int) {
	n, mask := g[0], g[1]
	t := zeros(n, n)
	d, e := sym.F64s("d", n), sym.F64s("e", n-1)
	for i := range t {
		t[i][i] = d[i]
		if i == n-1 {
			break
		}
		if mask>>i&1 == 1 {
			e[i] = 0
		} else {
			sym.Assume(e[i] != 0)
		}
		t[i][i+1], t[i+1][i] = e[i], e[i]
	}
	x := around(t, mask, -1)
	tridiagonal(mk(dense, clone(x)), x)
}

// sign splits the path by the sign of x.
func sign(x float64) int {
	if x > 0 {
		return 1
	}
	if x < 0 {
		return -1
	}
	return 0
}

// hessenberg checks a Hessenberg reduction.
func hessenberg(A linear.RealMatrix, x [][]float64) {
	n := len(x)
	d, err := linear.NewHessenbergTransformer(A)
	sym.Assert(err == nil, "reduction of a square matrix")
	P, PT, H := entries(d.P()), entries(d.PT()), entries(d.H())
	sym.Assert(len(P) == n && len(P[0]) == n && len(H) == n && len(H[0]) == n, "shape of the factors")
	equals(PT, transposed(P), "PT is the transpose of P")
	orthogonal(P, "P")
	for i := range H {
		for j := 0; j < i-1; j++ {
			sym.Assert(H[i][j] == 0, "H is upper Hessenberg")
		}
	}
	equals(mul(mul(P, H), PT), x, "P*H*PT is the matrix")
	same(A, x, "reduced matrix")
}

// H20Full: all square matrices.
func H20Full(g []int) {
	rep, n := g[0], g[1]
	x := input(rep, "a", n, n)
	hessenberg(mk(rep, clone(x)), x)
}

// H20Turned: larger matrices.
func H20Turned(g []int) {
	n, mask, only := g[0], g[1], g[2]
	t := sym.Mat("h", n, n)
	for i := range t {
		for j := range t[i] {
			switch {
			case i > j+1:
				t[i][j] = 0
			case i < j && i+j != n:
				t[i][j] = float64((i*3+j*5)%7 - 3)
			}
		}
		if i == n-1 {
			break
		}
		if mask>>i&1 == 1 {
			t[i+1][i] = 0
		} else {
			sym.Assume(t[i+1][i] != 0)
		}
	}
	x := around(t, mask, only)
	hessenberg(mk(dense, clone(x)), x)
}

// H20Refused: matrices that are not square.
func H20Refused(g []int) {
	m, n := sym.IntIn("m", 1, 3), sym.IntIn("n", 1, 3)
	for _, rep := range []int{dense, block, foreign} {
		A := mk(rep, zeros(m, n))
		_, err := linear.NewHessenbergTransformer(A)
		sym.Assert((err != nil) == (m != n), "refused exactly if not square")
		sym.Assert(err == nil || status(err) == linear.ESQMAT, "status of the refusal")
		_, err = linear.NewTriDiagonalTransformer(A)
		sym.Assert((err != nil) == (m != n), "refused exactly if not square")
		sym.Assert(err == nil || status(err) == linear.ESQMAT, "status of the refusal")
	}
}

// T20Any: the factors of both reductions act like the matrix on every vector.
func T20Any(g []int) {
	n := g[0]
	v := vary(n)
	one := func(x [][]float64, f float64) {
		h, err := linear.NewHessenbergTransformer(mk(dense, clone(x)))
		sym.Assert(err == nil, "reduction of a square matrix")
		H := entries(h.H())
		similar(x, v, entries(h.P()), H, entries(h.PT()), f, "P*H*PT")
		for i := range H {
			for j := 0; j < i-1; j++ {
				sym.Assert(H[i][j] == 0, "H is an upper Hessenberg matrix")
			}
		}
		for i := range x {
			for j := 0; j < i; j++ {
				x[i][j] = x[j][i]
			}
		}
		t, err := linear.NewTriDiagonalTransformer(mk(dense, clone(x)))
		sym.Assert(err == nil, "reduction of a symmetric matrix")
		T := entries(t.T())
		similar(x, v, entries(t.Q()), T, entries(t.QT()), f, "Q*T*QT")
		for i := range T {
			for j := 0; j < i; j++ {
				sym.Assert(T[i][j] == T[j][i], "T is symmetric")
				sym.Assert(j == i-1 || T[i][j] == 0, "T is tridiagonal")
			}
		}
	}
	for k := 1; k < 6; k++ {
		for _, f := range reach() {
			one(some(n, n, k, f), f)
		}
	}
	for _, x := range special(n) {
		one(x, 1)
	}
	for _, x := range stray(n, n) {
		one(x, 1)
	}
}

// similar checks that P*T*PT acts like x, of scale f, and P is orthogonal.
func similar(x, v, P, T, PT [][]float64, f float64, msg string) {
	y, z := mul(P, mul(T, mul(PT, v))), mul(x, v)
	for i := range z {
		sym.Near(y[i][0]/f, z[i][0]/f, 1e-8, msg+" acts like the matrix")
	}
	for i := range PT {
		for j := range PT {
			sym.Assert(PT[i][j] == P[j][i], "transposed factor")
		}
	}
	y = mul(P, mul(PT, v))
	for i := range v {
		sym.Near(y[i][0], v[i][0], 1e-10, "the factor is orthogonal")
	}
}
