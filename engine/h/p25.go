package h

import (
	"math"

	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p25() []Harness {
	return []Harness{
		{Prop: "P25", Name: "E25Two", Mode: "real", F: E25Two, Quick: l(a(dense, 0), a(block, 0), a(foreign, 0), a(dense, 2), a(block, 2), a(dense, 4)), Thorough: l(a(dense, 1), a(dense, 3), a(foreign, 2), a(block, 3)), Bound: "2 by 2 matrices with complex (0), real (1; 3: a fixed gap; 4: of a fixed shape) and triangular (2) form, distinct eigenvalues, entries 0 or between 0.001 and 1000 in size"},
		{Prop: "P25", Name: "E25Blocks", Mode: "real", F: E25Blocks, Quick: l(a(1, 1), a(2, 1), a(1, 2), a(1, 1, 1), a(1, 5, 1), a(4, 1), a(1, 4), a(4, 4), a(5, 4), a(4, 5), a(9, 9, 5), a(9, 5, 9), a(9, 9, 1, 9), a(9, 9, 9, 4)), Thorough: l(a(5, 5), a(1, 1, 1, 1), a(2, 2), a(1, 4, 1), a(5, 1, 4), a(1, 4, 5)), Bound: "block upper triangular matrices of 1 by 1 (1) blocks and 2 by 2 ones with complex (2, 5) and real (3, 4) eigenvalues, all distinct; the coupling between blocks concrete"},
		{Prop: "P25", Name: "E25Coupled", Mode: "real", F: E25Coupled, Quick: l(a(1, 1, 1), a(1, 1, 1, 1), a(2, 2), a(1, 2, 1), a(2, 1, 2), a(1, 2, 2), a(2, 2, 1)), Thorough: l(a(2, 2, 2), a(1, 1, 2, 2), a(2, 1, 1, 2), a(1, 2, 1, 2)), Bound: "block upper triangular matrices of concrete blocks with distinct real (1) and complex (2) eigenvalues, the coupling between blocks symbolic"},
		{Prop: "P25", Name: "E25Repeated", Mode: "real", F: E25Repeated, Quick: l(a(2)), Thorough: l(a(3)), Bound: "triangular matrices with one repeated eigenvalue and symbolic couplings"},
		{Prop: "P25", Name: "E25Chain", Mode: "lin", F: E25Chain, Quick: l(a(12), a(24), a(48)), Thorough: l(a(18), a(64)), Bound: "concrete defective matrices with one long chain, where the substitution has to be kept from overflowing, applied to every vector in [-1,1]^n"},
		{Prop: "P25", Name: "E25Any", Mode: "lin", F: E25Any, Quick: l(a(2), a(3), a(4), a(6)), Thorough: l(a(5), a(7), a(10)), Bound: "the decomposition of concrete matrices of scales 1e-10 to 1e20 applied to every vector in [-1,1]^n"},
		large("P25", "E25Large", E25Large, l(a(20, 2), a(54, 1), a(70, 3)), l(a(33, 3), a(66, 1), a(110, 2), a(130, 4))),
	}
}

// layout checks the shape of the factors against the eigenvalues and gives V
// and D.
func layout(d *linear.EigenDecomposition, n int) (V, D [][]float64) {
	V, D = entries(d.V()), entries(d.D())
	VT := entries(d.VT())
	re, im := d.RealEigenvalues(), d.ImagEigenvalues()
	sym.Assert(len(V) == n && len(V[0]) == n && len(D) == n && len(D[0]) == n && len(re) == n && len(im) == n, "shape of the factors")
	samem(VT, transposed(V), "VT is the transpose of V")
	for i := range re {
		sym.Same(d.RealEigenvalueAt(i), re[i], "eigenvalue")
		sym.Same(d.ImagEigenvalue(i), im[i], "eigenvalue")
		ev := d.EigenvectorAt(i)
		for j := range re {
			sym.Same(ev.At(j), V[j][i], "eigenvectors are the columns of V")
		}
		for j := range re {
			switch {
			case i == j:
				sym.Same(D[i][i], re[i], "diagonal of D")
			case im[i] > 0 && j == i+1, im[i] < 0 && j == i-1:
				sym.Same(D[i][j], im[i], "imaginary parts in D")
				sym.Assert(im[j] == -im[i], "complex eigenvalues come in conjugate pairs")
				sym.Same(re[j], re[i], "complex eigenvalues come in conjugate pairs")
			default:
				sym.Assert(D[i][j] == 0, "D is block diagonal")
			}
		}
		sym.Assert(!(im[i] > 0) || i+1 < n, "complex eigenvalues come in conjugate pairs")
		sym.Assert(!(im[i] < 0) || i > 0, "complex eigenvalues come in conjugate pairs")
	}
	return V, D
}

// eigenpairs checks the eigendecomposition of x, which has this many complex
// eigenvalues.
func eigenpairs(A linear.RealMatrix, x [][]float64, complex int) {
	n := len(x)
	d, err := linear.NewEigenDecomposition(A)
	sym.Assert(err == nil, "eigendecomposition of a square matrix")
	V, D := layout(d, n)
	found := 0
	for _, v := range d.ImagEigenvalues() {
		if v != 0 {
			found++
		}
	}
	sym.Assert(found == complex, "number of complex eigenvalues")
	sym.Assert(d.HasComplexEigenvalues() == (complex > 0), "complex eigenvalues are reported")
	equals(mul(x, V), mul(V, D), "A*V is V*D")
	for j := range V {
		nonzero := false
		for i := range V {
			nonzero = sym.Either(nonzero, V[i][j] != 0)
		}
		sym.Assert(nonzero, "eigenvectors are not zero")
	}
	same(A, x, "decomposed matrix")
	if n > 3 {
		return
	}
	// the characteristic polynomial
	for t := 0; t < n; t++ {
		y, z := clone(x), clone(D)
		for i := range y {
			y[i][i] -= float64(t)
			z[i][i] -= float64(t)
		}
		sym.Near(det(z), det(y), 1e-9, "D has the characteristic polynomial of the matrix")
	}
}

// E25Two: 2 by 2 matrices.
func E25Two(g []int) {
	rep, kind := g[0], g[1]
	var x [][]float64
	switch kind {
	case 0:
		x = complexBlock("z")
		apart(sym.F64("zm"))
	case 1, 3:
		v := 0.5
		if kind == 1 {
			v = sym.F64("zv")
		}
		x = realBlock("z", v)
		sym.Size(sym.F64("zm")*(1-v*v), 0.001, 1000)
		sym.Size(sym.F64("zm")*v, 0.001, 1000)
		sym.Assume(sym.F64("zm")*(1-v*v) != 0)
		apart(x[0][1] - x[1][0])
	case 4:
		s, m := sym.F64("zs"), apart(sym.F64("zm"))
		sym.Assume(m != 0)
		sign(m)
		sign(s)
		x = limit([][]float64{{s + 3*m, 8 * m}, {9 * m, s - 3*m}})
	case 2:
		x = sym.Mat("z", 2, 2)
		x[1][0] = 0
		limit(x)
		apart(x[0][1])
		apart(x[0][0] - x[1][1])
		sym.Assume(x[0][0] != x[1][1])
	}
	eigenpairs(mk(rep, clone(x)), x, []int{2, 0, 0, 0, 0}[kind])
}

// pairs counts the complex eigenvalues of blocks.
func pairs(kinds []int) int {
	n := 0
	for _, k := range kinds {
		if k == 2 || k == 5 {
			n += 2
		}
	}
	return n
}

// E25Blocks: larger matrices with symbolic eigenvalues.
func E25Blocks(g []int) {
	x := limit(coupled(g))
	for b, k := range g {
		if k > 1 && k < 9 {
			m := apart(sym.F64("b" + string(rune('0'+b)) + "m"))
			sym.Assume(m != 0)
		}
	}
	// different eigenvalues, or different real parts
	var re []float64
	var im []bool
	at := 0
	for b, k := range g {
		name := "b" + string(rune('0'+b))
		switch k {
		case 1, 9:
			re, im = append(re, x[at][at]), append(im, false)
		case 4:
			s, m := sym.F64(name+"s"), sym.F64(name+"m")
			sign(m)
			re, im = append(re, s+9*m, s-9*m), append(im, false, false)
		default:
			re, im = append(re, sym.F64(name+"s")), append(im, true)
		}
		at++
		if k > 1 && k < 9 {
			at++
		}
	}
	for i := range re {
		for j := 0; j < i; j++ {
			if im[i] == im[j] {
				sym.Assume(apart(re[i]-re[j]) != 0)
				sign(re[i] - re[j])
			}
		}
	}
	eigenpairs(mk(dense, clone(x)), x, pairs(g))
}

// E25Coupled: larger matrices with symbolic couplings.
func E25Coupled(g []int) {
	n := 0
	for _, k := range g {
		n += k
	}
	x := zeros(n, n)
	at := 0
	for b, k := range g {
		v := []float64{-3, 1, 4, -6}[b]
		x[at][at] = v
		if k == 2 {
			x[at][at+1], x[at+1][at], x[at+1][at+1] = []float64{-5, -1, 2}[b%3], []float64{1, 5, -3}[b%3], v+float64(b%2)
		}
		for i := 0; i < at; i++ {
			for j := at; j < at+k; j++ {
				name := "t" + string(rune('0'+i)) + string(rune('0'+j))
				x[i][j] = sym.F64(name)
				sym.Within(x[i][j], 1000)
			}
		}
		at += k
	}
	sym.Assume(x[0][n-1] > 0.5)
	c := 0
	for _, k := range g {
		if k == 2 {
			c += 2
		}
	}
	eigenpairs(mk(dense, clone(x)), x, c)
}

// E25Repeated: defective matrices.
func E25Repeated(g []int) {
	n := g[0]
	v := apart(sym.F64("v"))
	x := sym.Mat("t", n, n)
	for i := range x {
		for j := range x[i] {
			switch {
			case i == j:
				x[i][j] = v
			case i > j:
				x[i][j] = 0
			default:
				apart(x[i][j])
			}
		}
	}
	sym.Assume(x[0][1] != 0)
	d, err := linear.NewEigenDecomposition(mk(dense, clone(x)))
	sym.Assert(err == nil, "eigendecomposition of a square matrix")
	V, D := layout(d, n)
	sym.Assert(!d.HasComplexEigenvalues(), "real eigenvalues")
	y, z := mul(x, V), mul(V, D)
	for j := range V {
		s := 0.
		for i := range V {
			s += V[i][j] * V[i][j]
		}
		sym.Positive(s, "eigenvectors are not zero")
		for i := range V {
			r := y[i][j] - z[i][j]
			sym.AtMost(r*r, 1e-14*1e6*s, 0, "A*V is V*D up to rounding")
		}
		sym.Near(D[j][j], v, 1e-9, "eigenvalue")
	}
}

// E25Any: A*V and V*D act alike on every vector.
func E25Any(g []int) {
	n := g[0]
	v := vary(n)
	for k := 1; k < 6; k++ {
		for _, f := range scales() {
			if f > 1e-11 {
				paired(some(n, n, k, f), v, f)
			}
		}
	}
	for _, x := range special(n) {
		paired(x, v, 1)
		paired(scaled(x, 1e12), v, 1e12)
	}
}

// E25Chain: eigenvectors of long chains, whose entries would overflow.
func E25Chain(g []int) {
	n := g[0]
	v := vary(n)
	for _, t := range []float64{0, 1, -3} {
		x := zeros(n, n)
		y := zeros(n, n)
		for i := range x {
			x[i][i], y[i][i] = t, t
			if i+1 < n {
				x[i][i+1] = 1
			}
			if i+2 < n {
				y[i][i+2] = 1
			}
			if i%2 == 0 && i+1 < n {
				y[i][i+1], y[i+1][i] = 2, -2
			}
		}
		paired(x, v, 1)
		paired(y, v, 1)
		// weaker links, and a few more eigenvalues
		for i := range x {
			x[i][i] += float64(i / (n/2 + 1))
			if i+1 < n {
				x[i][i+1] = 0.25 + float64(i%3)
			}
		}
		paired(x, v, 1)
	}
}

// paired checks the decomposition of x, of scale f.
func paired(x, v [][]float64, f float64) {
	n := len(x)
	d, err := linear.NewEigenDecomposition(mk(dense, clone(x)))
	sym.Assert(err == nil, "eigendecomposition of a square matrix")
	V, D := layout(d, n)
	im := d.ImagEigenvalues()
	tr := 0.
	c := clone(v)
	for j := range V {
		// the size of the column, or of the pair of columns
		s := 0.
		for i := range V {
			sym.Assert(!math.IsInf(V[i][j], 0) && !math.IsNaN(V[i][j]), "eigenvectors are finite")
			s += V[i][j] * V[i][j]
			if im[j] > 0 {
				s += V[i][j+1] * V[i][j+1]
			}
			if im[j] < 0 {
				s += V[i][j-1] * V[i][j-1]
			}
		}
		sym.Assert(s > 0, "eigenvectors are not zero")
		c[j][0] /= math.Sqrt(s)
		tr += x[j][j]/f - D[j][j]/f
	}
	sym.Near(tr, 0, 1e-8, "the eigenvalues add up to the trace")
	y, z := mul(x, mul(V, c)), mul(V, mul(D, c))
	for i := range y {
		sym.Near(y[i][0]/f, z[i][0]/f, 1e-8, "A*V acts like V*D")
	}
}
