package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p23() []Harness {
	return []Harness{
		{Prop: "P23", Name: "E23One", Mode: "real", F: E23One, Quick: l(a(dense), a(block), a(diag), a(foreign)), Bound: "1 by 1 matrices"},
		{Prop: "P23", Name: "E23Two", Mode: "real", F: E23Two, Quick: l(a(dense), a(block), a(diag), a(foreign)), Bound: "2 by 2 symmetric matrices with entries and eigenvalues 0 or between 0.001 and 1000 in size"},
		{Prop: "P23", Name: "E23Diagonal", Mode: "real", F: E23Diagonal, Quick: l(a(dense, 3), a(diag, 3), a(block, 3), a(diag, 4)), Thorough: l(a(diag, 5), a(dense, 4)), Bound: "diagonal matrices, eigenvalues in every order"},
		{Prop: "P23", Name: "E23Tridiagonal", Mode: "real", F: E23Tridiagonal, Quick: l(a(1), a(2), a(1, 1), a(2, 1), a(1, 2), a(1, 1, 1), a(3, 3), a(3, 1, 1), a(1, 3, 1), a(9, 9, 2), a(2, 9, 9), a(9, 9, 9, 3), a(9, 3, 9, 9), a(9, 9, 1, 9, 9)), Thorough: l(a(2, 2), a(1, 1, 3), a(1, 1, 1, 1), a(3, 3, 1)), Bound: "tridiagonal matrices that are direct sums of 1 by 1 and 2 by 2 (3: of a fixed shape) ones"},
		{Prop: "P23", Name: "E23Sum", Mode: "real", F: E23Sum, Quick: l(a(2, 1), a(1, 2), a(3, 3), a(1, 3, 1), a(9, 9, 2), a(2, 9, 9), a(9, 9, 9, 3), a(9, 3, 9, 9), a(9, 9, 1, 9, 9)), Thorough: l(a(2, 2), a(3, 1, 3)), Bound: "direct sums of 1 by 1 and 2 by 2 symmetric matrices"},
		{Prop: "P23", Name: "E23Turned", Mode: "real", F: E23Turned, Quick: l(a(3, 1), a(3, 1, 1)), Thorough: l(a(2, 1), a(3, 3), a(2, 1, 1)), Bound: "such sums turned by a symbolic reflection"},
		{Prop: "P23", Name: "E23Zero", Mode: "real", F: E23Zero, Quick: l(a(1), a(2), a(3), a(5)), Bound: "zero matrix"},
		{Prop: "P23", Name: "E23Any", Mode: "lin", F: E23Any, Quick: l(a(3), a(4), a(6)), Thorough: l(a(10), a(70)), Bound: "the decomposition of concrete symmetric matrices of scales 1e-20 to 1e20 applied to every vector in [-1,1]^n"},
		large("P23", "E23Large", E23Large, l(a(dense, 33, 2), a(block, 54, 1), a(dense, 66, 1), a(dense, 110, 2)), l(a(dense, 130, 3), a(block, 160, 4))),
	}
}

// spectrum checks what an eigendecomposition of a symmetric matrix says about
// its eigenvalues, and gives V and the eigenvalues.
func spectrum(d *linear.EigenDecomposition, n int) ([][]float64, []float64) {
	V, VT, D := entries(d.V()), entries(d.VT()), entries(d.D())
	re, im := d.RealEigenvalues(), d.ImagEigenvalues()
	sym.Assert(len(V) == n && len(V[0]) == n && len(D) == n && len(D[0]) == n && len(re) == n && len(im) == n, "shape of the factors")
	samem(VT, transposed(V), "VT is the transpose of V")
	sym.Assert(!d.HasComplexEigenvalues(), "real eigenvalues")
	for i := range re {
		sym.Assert(i == 0 || re[i-1] >= re[i], "eigenvalues in decreasing order")
		sym.Same(d.RealEigenvalueAt(i), re[i], "eigenvalue")
		sym.Assert(im[i] == 0 && d.ImagEigenvalue(i) == 0, "no imaginary part")
		for j := range re {
			sym.Same(d.EigenvectorAt(i).At(j), V[j][i], "eigenvectors are the columns of V")
			if i == j {
				sym.Same(D[i][i], re[i], "diagonal of D")
			} else {
				sym.Assert(D[i][j] == 0, "D is diagonal")
			}
		}
	}
	return V, re
}

// eigens checks the eigendecomposition of the symmetric matrix x.
func eigens(d *linear.EigenDecomposition, x [][]float64) {
	V, re := spectrum(d, len(x))
	orthogonal(V, "V")
	y := mul(x, V)
	for i := range y {
		for j := range y[i] {
			sym.Near(y[i][j], V[i][j]*re[j], 1e-9, "eigenvectors belong to their eigenvalues")
		}
	}
	z := clone(V)
	for i := range z {
		for j := range z[i] {
			z[i][j] *= re[j]
		}
	}
	equals(mul(z, transposed(V)), x, "V*D*VT is the matrix")
}

func eigen(A linear.RealMatrix, x [][]float64) {
	d, err := linear.NewEigenDecomposition(A)
	sym.Assert(err == nil, "eigendecomposition of a symmetric matrix")
	eigens(d, x)
	same(A, x, "decomposed matrix")
}

// apart keeps x within 1000 and either 0 or at least 0.001.
func apart(x float64) float64 {
	sym.Size(x, 0.001, 1000)
	return x
}

// pair is any symmetric 2 by 2 matrix: s and d give its eigenvalues, w their
// direction.
func pair(name string, w float64) [][]float64 {
	s, d := sym.F64(name+"s"), sym.F64(name+"d")
	x := [][]float64{{s + d*(1-w*w), 2 * d * w}, {2 * d * w, s - d*(1-w*w)}}
	for i := range x {
		for j := range x[i] {
			apart(x[i][j])
		}
	}
	apart(s + d*(1+w*w))
	apart(s - d*(1+w*w))
	sign(d)
	sign(w)
	sign(1 - w*w)
	return x
}

// sum is a direct sum of symmetric matrices of the given kinds.
func sum(kinds []int) [][]float64 {
	var ys [][][]float64
	n := 0
	for i, k := range kinds {
		name := "b" + string(rune('0'+i))
		var y [][]float64
		switch k {
		case 1:
			y = [][]float64{{apart(sym.F64(name))}}
		case 2:
			y = pair(name, sym.F64(name+"w"))
		case 3:
			y = pair(name, []float64{0.5, -3, 2, -0.25, 5}[i])
		case 9:
			y = [][]float64{{[]float64{6, 0.25, 40, 1.5, 0.02}[i]}}
		}
		ys = append(ys, y)
		n += len(y)
	}
	x := zeros(n, n)
	at := 0
	for _, y := range ys {
		for i := range y {
			copy(x[at+i][at:], y[i])
		}
		at += len(y)
	}
	return x
}

// E23One: 1 by 1 matrices.
func E23One(g []int) {
	x := input(g[0], "a", 1, 1)
	eigen(mk(g[0], clone(x)), x)
}

// E23Two: 2 by 2 matrices.
func E23Two(g []int) {
	if g[0] == diag {
		E23Diagonal([]int{diag, 2})
		return
	}
	x := pair("z", sym.F64("w"))
	eigen(mk(g[0], clone(x)), x)
}

// E23Diagonal: diagonal matrices.
func E23Diagonal(g []int) {
	rep, n := g[0], g[1]
	x := input(diag, "a", n, n)
	for i := range x {
		apart(x[i][i])
	}
	eigen(mk(rep, clone(x)), x)
}

// E23Tridiagonal: tridiagonal matrices given by their diagonals.
func E23Tridiagonal(g []int) {
	x := sum(g)
	n := len(x)
	p, s := make([]float64, n), make([]float64, n-1)
	for i := range x {
		p[i] = x[i][i]
		if i > 0 {
			s[i-1] = x[i][i-1]
		}
	}
	p0, s0 := clonev(p), clonev(s)
	d, err := linear.NewEigenDecompositionFromTridiagonal(p, s)
	sym.Assert(err == nil, "eigendecomposition of a tridiagonal matrix")
	eigens(d, x)
	sames(p, p0, "main diagonal")
	sames(s, s0, "secondary diagonal")
}

// E23Sum: direct sums.
func E23Sum(g []int) {
	x := sum(g)
	eigen(mk(dense, clone(x)), x)
}

// E23Turned: direct sums in other coordinates. The first summand has size 2.
func E23Turned(g []int) {
	x := sum(g)
	n := len(x)
	sym.Assume(x[1][0] != 0)
	u := make([]float64, n-2)
	for i := range u {
		u[i] = 0.5
	}
	u[0] = sym.F64("u")
	if n > 3 {
		// the reduction undoes this reflection
		sym.Assume(dot(u, u) < 1)
	}
	for p := 0; p < 2; p++ {
		turn(x, 1, u)
		x = transposed(x)
	}
	for i := range x {
		copy(x[i], transposed(x)[i][:i])
		if i > 0 {
			sign(x[i][0])
		}
	}
	eigen(mk(dense, clone(x)), x)
}

// E23Zero: the zero matrix.
func E23Zero(g []int) {
	n := g[0]
	for _, rep := range []int{dense, block, diag, foreign} {
		eigen(mk(rep, zeros(n, n)), zeros(n, n))
	}
}

// even is the k-th dense symmetric matrix, times f.
func even(n, k int, f float64) [][]float64 {
	x := some(n, n, k, f)
	for i := range x {
		for j := 0; j < i; j++ {
			x[i][j] = x[j][i]
		}
	}
	return x
}

// E23Any: V*D*VT and A act alike on every vector.
func E23Any(g []int) {
	n := g[0]
	v := vary(n)
	for k := 1; k < 6; k++ {
		for _, f := range scales() {
			x := even(n, k, f)
			d, err := linear.NewEigenDecomposition(mk(dense, clone(x)))
			sym.Assert(err == nil, "eigendecomposition of a symmetric matrix")
			acts(d, x, v, f)
			if n > 4 {
				break
			}
		}
	}
	for _, x := range special(n) {
		t := transposed(x)
		for i := range x {
			for j := range x[i] {
				x[i][j] += t[i][j]
			}
		}
		d, err := linear.NewEigenDecomposition(mk(dense, clone(x)))
		sym.Assert(err == nil, "eigendecomposition of a symmetric matrix")
		acts(d, x, v, 1)
		x = scaled(x, 1e-12)
		d, err = linear.NewEigenDecomposition(mk(block, clone(x)))
		sym.Assert(err == nil, "eigendecomposition of a symmetric matrix")
		acts(d, x, v, 1e-12)
	}
	for _, x := range stray(n, n) {
		d, err := linear.NewEigenDecomposition(mk(dense, clone(x)))
		sym.Assert(err == nil, "eigendecomposition of a symmetric matrix")
		acts(d, x, v, 1)
	}
}

// acts checks a decomposition by its action on the vector v.
func acts(d *linear.EigenDecomposition, x, v [][]float64, f float64) {
	V, re := spectrum(d, len(x))
	c := mul(transposed(V), v)
	y := mul(V, c)
	for i := range v {
		sym.Near(y[i][0], v[i][0], 1e-10, "V is orthogonal")
		c[i][0] *= re[i] / f
	}
	y = mul(V, c)
	z := mul(x, v)
	for i := range z {
		sym.Near(y[i][0], z[i][0]/f, 1e-8, "V*D*VT acts like the matrix")
	}
}
