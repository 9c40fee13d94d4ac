package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p26() []Harness {
	lib := []int{dense, block, foreign}
	return []Harness{
		{Prop: "P26", Name: "D26Line", Mode: "real", F: D26Line, Quick: append(with(cross(lib), a(1, 1), a(1, 2), a(2, 1)), a(diag, 1, 1), a(dense, 3, 1), a(dense, 1, 3)), Thorough: l(a(dense, 4, 1), a(dense, 1, 4)), Bound: "all rows and columns of the listed length, over the reals"},
		{Prop: "P26", Name: "D26Diagonal", Mode: "real", F: D26Diagonal, Quick: l(a(dense, 2, 2), a(diag, 2, 2), a(foreign, 3, 2), a(block, 2, 3), a(dense, 3, 3), a(diag, 3, 3)), Thorough: l(a(dense, 4, 3), a(dense, 3, 4), a(diag, 4, 4)), Bound: "matrices without entries off the diagonal, entries 0 or between 0.001 and 1000 in size, in every order"},
		{Prop: "P26", Name: "D26Sum", Mode: "real", F: D26Sum, Quick: l(a(dense, 0, 2), a(foreign, 0, 3), a(dense, 1, 2), a(block, -2, 3), a(foreign, 0, 6), a(dense, 2, 7), a(dense, -1, 5), a(dense, -1, 6), a(block, 0, 2, 1), a(dense, -2, 2, 1), a(dense, 0, 1, 3), a(dense, 0, 5, 5), a(dense, 0, 1, 5, 1), a(dense, 0, 8), a(dense, -3, 6, 1), a(dense, 0, 1, 7), a(dense, -2, 8), a(dense, 0, 8, 1), a(dense, 0, 1, 8), a(dense, 0, 6, 7), a(dense, 0, 9, 9, 5), a(dense, 0, 5, 9, 9), a(dense, 0, 9, 9, 9, 5), a(dense, -2, 9, 9, 1, 9), a(dense, 0, 9, 9, 2), a(dense, 0, 9, 9, 7), a(dense, 1, 9, 9, 7), a(dense, 1, 1, 9, 9, 1), a(dense, -2, 9, 9, 7, 9)), Thorough: l(a(dense, 0, 4), a(dense, -2, 5, 5), a(dense, 0, 2, 5), a(dense, 1, 1, 2, 1), a(dense, -2, 1, 5, 1)), Bound: "direct sums of upper triangular matrices with entries 0 or between 0.001 and 1000 in size and further rows (1) or columns (-1)"},
		{Prop: "P26", Name: "D26Turned", Mode: "real", F: D26Turned, Quick: l(a(0, 0, 5), a(0, 1, 5), a(0, 1, 1), a(0, 1, 1, 1), a(1, 0, 5, 1), a(1, -2, 5, 1), a(0, -2, 5), a(0, 0, 5, 5), a(0, -3, 5, 1)), Thorough: l(a(1, 0, 5, 5), a(0, 2, 5, 1), a(1, 0, 1, 1, 5)), Bound: "such matrices turned by symbolic reflections of the rows (0) or columns (1)"},
		{Prop: "P26", Name: "D26Any", Mode: "lin", F: D26Any, Quick: l(a(2, 2), a(3, 3), a(4, 2), a(2, 4), a(5, 3), a(3, 5), a(6, 6)), Thorough: l(a(10, 10), a(9, 12), a(12, 9), a(60, 4), a(4, 60)), Bound: "the decomposition of concrete matrices of scales 1e-20 to 1e20 applied to every vector in [-1,1]^n"},
		large("P26", "D26Large", D26Large, l(a(33, 20, 2), a(54, 54, 1), a(110, 10, 3), a(10, 130, 4), a(66, 66, 1)), l(a(110, 60, 2), a(130, 130, 3), a(60, 160, 2))),
	}
}

// compact checks the shape of a singular value decomposition, the order of
// its values and its accessors, and gives its parts.
func compact(d *linear.SingularValueDecomposition, m, n int) (U [][]float64, s []float64, V [][]float64) {
	p := min(m, n)
	U, V = entries(d.U()), entries(d.V())
	S, UT, VT := entries(d.S()), entries(d.UT()), entries(d.VT())
	s = d.SingularValues()
	sym.Assert(len(U) == m && len(U[0]) == p && len(V) == n && len(V[0]) == p && len(S) == p && len(S[0]) == p && len(s) == p, "shape of the factors")
	samem(UT, transposed(U), "UT is the transpose of U")
	samem(VT, transposed(V), "VT is the transpose of V")
	for i := range S {
		sym.Assert(s[i] >= 0, "singular values are not negative")
		sym.Assert(i == 0 || s[i-1] >= s[i], "singular values in decreasing order")
		for j := range S {
			if i == j {
				sym.Same(S[i][i], s[i], "diagonal of S")
			} else {
				sym.Assert(S[i][j] == 0, "S is diagonal")
			}
		}
	}
	return U, s, V
}

// svd checks the singular value decomposition of x.
func svd(A linear.RealMatrix, x [][]float64) {
	d, err := linear.NewSingularValueDecomposition(A)
	sym.Assert(err == nil, "decomposition of a matrix")
	U, s, V := compact(d, len(x), len(x[0]))
	orthogonal(U, "U")
	orthogonal(V, "V")
	for i := range U {
		for j := range s {
			U[i][j] *= s[j]
		}
	}
	equals(mul(U, transposed(V)), x, "U*S*VT is the matrix")
	same(A, x, "decomposed matrix")
}

// D26Line: rows and columns.
func D26Line(g []int) {
	x := input(g[0], "a", g[1], g[2])
	svd(mk(g[0], clone(x)), x)
}

// D26Diagonal: diagonal and rectangular ones.
func D26Diagonal(g []int) {
	x := zeros(g[1], g[2])
	for i, v := range sym.F64s("a", min(g[1], g[2])) {
		x[i][i] = apart(v)
	}
	svd(mk(g[0], clone(x)), x)
}

// triangle is an upper triangular 2 by 2 matrix with singular values that are
// |d*r| and |d*t| times the square root of (1+r*r)*(1+t*t). Every one without
// a zero on the diagonal has this form.
func triangle(d, r, t float64) [][]float64 {
	x := [][]float64{{d * r * (1 + t*t), d * (r*r - t*t)}, {0, d * t * (1 + r*r)}}
	for i := range x {
		for j := range x[i] {
			apart(x[i][j])
		}
	}
	apart(r)
	apart(t)
	sign(d)
	sign(r)
	sign(t)
	sign(r - t)
	sign(r + t)
	return x
}

// summands is a direct sum of upper triangular matrices of the given kinds.
func summands(kinds []int) [][]float64 {
	var ys [][][]float64
	n := 0
	for i, k := range kinds {
		name := "b" + string(rune('0'+i))
		var y [][]float64
		switch k {
		case 1:
			y = [][]float64{{apart(sym.F64(name))}}
		case 2:
			y = triangle(sym.F64(name+"d"), sym.F64(name+"r"), 0.75)
		case 3:
			y = triangle(sym.F64(name+"d"), 0.75, sym.F64(name+"t"))
		case 4:
			y = triangle(sym.F64(name+"d"), sym.F64(name+"r"), sym.F64(name+"t"))
		case 5:
			y = triangle(sym.F64(name+"d"), 0.75, -4./3)
		case 6:
			y = [][]float64{{apart(sym.F64(name)), apart(sym.F64(name + "e"))}, {0, 0}}
		case 7:
			y = [][]float64{{0, apart(sym.F64(name + "e"))}, {0, apart(sym.F64(name))}}
		case 9:
			y = [][]float64{{[]float64{-6, 0.25, 40, 1.5, -0.02}[i]}}
		case 8:
			a, b, c, d := apart(sym.F64(name)), apart(sym.F64(name+"b")), apart(sym.F64(name+"c")), apart(sym.F64(name+"d"))
			y = [][]float64{{a, b, 0}, {0, 0, c}, {0, 0, d}}
		}
		ys = append(ys, y)
		n += len(y)
	}
	x := zeros(n, n)
	at := 0
	for _, y := range ys {
		for i := range y {
			copy(x[at+i][at:], y[i])
		}
		at += len(y)
	}
	return x
}

// D26Sum: direct sums with further zero rows, or transposed.
func D26Sum(g []int) {
	svd(mk(g[0], clone(tall(g))), tall(g))
}

// tall is a direct sum with further rows, or the transpose of one.
func tall(g []int) [][]float64 {
	x := summands(g[2:])
	for i := 0; i < g[1] || i < -g[1]-1; i++ {
		x = append(x, make([]float64, len(x[0])))
	}
	if g[1] < 0 {
		x = transposed(x)
	}
	return x
}

// D26Turned: such matrices turned by reflections of the rows and columns.
func D26Turned(g []int) {
	x := tall(append([]int{dense}, g[1:]...))
	if g[1] < 0 {
		x = transposed(x)
	}
	m, n := len(x), len(x[0])
	u := make([]float64, m-1)
	for i := range u {
		u[i] = float64(i%3 - 1)
	}
	u[0] = 0.5
	w := make([]float64, max(n-2, 0))
	for i := range w {
		w[i] = float64(i%3-1) / 2
	}
	if g[0] == 0 {
		u[len(u)-1] = sym.F64("u")
	} else {
		w[len(w)-1] = sym.F64("w")
	}
	sym.Assume(x[0][0] != 0)
	if n > 2 {
		x = transposed(x)
		turn(x, 1, w)
		x = transposed(x)
		for j := 1; j < n; j++ {
			sign(x[0][j])
		}
	}
	turn(x, 0, u)
	for i := range x {
		sign(x[i][0])
	}
	if g[1] < 0 {
		x = transposed(x)
	}
	svd(mk(dense, clone(x)), x)
}

// D26Any: U*S*VT and A act alike on every vector.
func D26Any(g []int) {
	m, n := g[0], g[1]
	v := vary(n)
	for k := 1; k < 6; k++ {
		for _, f := range scales() {
			deforms(some(m, n, k, f), v, f)
		}
	}
	for _, x := range special(max(m, n)) {
		x = x[:m]
		for i := range x {
			x[i] = x[i][:n]
		}
		deforms(x, v, 1)
		deforms(scaled(x, 1e12), v, 1e12)
		deforms(scaled(x, 1e-12), v, 1e-12)
	}
	for _, x := range stray(m, n) {
		deforms(x, v, 1)
	}
}

// deforms checks the singular value decomposition of x, of scale f.
func deforms(x, v [][]float64, f float64) {
	m, n := len(x), len(v)
	d, err := linear.NewSingularValueDecomposition(mk(dense, clone(x)))
	sym.Assert(err == nil, "decomposition of a matrix")
	U, s, V := compact(d, m, n)
	p := len(s)
	c := mul(transposed(V), v)
	for i := range c {
		c[i][0] *= s[i] / f
	}
	y, z := mul(U, c), mul(x, v)
	for i := range y {
		sym.Near(y[i][0], z[i][0]/f, 1e-8, "U*S*VT acts like the matrix")
	}
	// p entries of v
	w := v[:p]
	y, z = mul(transposed(U), mul(U, w)), mul(transposed(V), mul(V, w))
	for i := range w {
		sym.Near(y[i][0], w[i][0], 1e-10, "U has orthonormal columns")
		sym.Near(z[i][0], w[i][0], 1e-10, "V has orthonormal columns")
	}
}
