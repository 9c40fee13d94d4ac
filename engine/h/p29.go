package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p29() []Harness {
	lib, own := []int{dense, block, foreign}, []int{dense, block}
	return []Harness{
		{Prop: "P29", Name: "I29Full", Mode: "fp", F: I29Full, Quick: append(append(with(cross([]int{dQR, dRRQR}, lib), a(2, 2)), with(cross([]int{dCholesky, dRoot, dTri, dHess, dLU}, lib), a(2, 2), a(3, 3))...), with(cross([]int{dBi, dQR}, lib), a(3, 2), a(2, 3))...), Thorough: append(append(with(cross([]int{dTri, dLU, dCholesky, dHess}, lib), a(4, 4)), with(cross([]int{dQR}, lib), a(3, 3))...), with(cross([]int{dRRQR, dBi}, []int{dense, block}), a(3, 2), a(3, 3))...), Feas: -1, Bound: "all entries symbolic, listed shapes"},
		{Prop: "P29", Name: "I29Sum", Mode: "real", F: I29Sum, Quick: append(append(with(cross([]int{dEigen}, lib), a(2), a(1, 1), a(3, 1), a(1, 1, 1)), with(cross([]int{dSVD}, lib), a(5), a(1, 1), a(5, 1), a(1, 1, 1))...), append(with(cross([]int{dGeneral}, lib), a(1, 1)), with(cross([]int{dSchur}, lib), a(1, 1), a(4, 1), a(2), a(1, 2))...)...), Thorough: l(a(dEigen, dense, 3, 3), a(dSVD, dense, 5, 5), a(dGeneral, dense, 2), a(dGeneral, dense, 1, 1, 1), a(dSchur, dense, 1, 4, 1)), Bound: "direct sums of small symbolic blocks"},
		{Prop: "P29", Name: "I29Diagonal", Mode: "real", F: I29Diagonal, Quick: with(cross([]int{dLU, dCholesky, dQR, dRRQR, dRoot, dEigen, dSVD, dTri, dHess, dBi, dSchur}), a(2), a(3)), Bound: "diagonal matrices with entries 0 or between 0.001 and 1000 in size"},
		{Prop: "P29", Name: "I29Tridiagonal", Mode: "real", F: I29Tridiagonal, Quick: l(a(2), a(1, 1), a(3, 1)), Bound: "arrays of a tridiagonal matrix that is a direct sum of small symbolic blocks"},
		{Prop: "P29", Name: "I29Any", Mode: "lin", F: I29Any, Quick: append(with(cross([]int{dLU, dCholesky, dQR, dRRQR, dRoot, dEigen, dGeneral, dSVD, dTri, dHess, dSchur}, lib), a(4, 4, 2)), append(append(append(with(cross([]int{dLU, dCholesky, dQR, dRRQR, dRoot, dEigen, dGeneral, dSVD, dTri, dHess, dSchur}, own), a(14, 14, 2)), with(cross([]int{dQR, dBi, dSVD}, own), a(15, 13, 2))...), with(cross([]int{dQR, dBi, dSVD}, lib), a(5, 3, 2))...), with(cross([]int{dBi, dSVD}, lib), a(3, 5, 2))...)...), Thorough: append(with(cross([]int{dLU, dCholesky, dQR, dRRQR, dRoot, dEigen, dSVD, dTri}, []int{dense, block}), a(54, 54, 2)), with(cross([]int{dLU, dCholesky, dQR, dRRQR, dEigen, dGeneral, dSVD, dSchur}, lib), a(6, 6, 54))...), Bound: "concrete matrices of several scales, all right-hand sides within [-1,1]"},
		{Prop: "P29", Name: "I29Matrix", Mode: "fp", F: I29Matrix, Quick: append(with(cross([]int{dense, block, diag}, []int{0, 1, 2, 3, 4, 5, 6}), a(3, 3)), with(cross([]int{dense, block}, []int{0, 1, 2, 3, 4, 5, 6}), a(2, 4), a(53, 2))...), Bound: "all entries symbolic"},
		{Prop: "P29", Name: "I29Vector", Mode: "fp", F: I29Vector, Quick: cross([]int{0, 1, 2, 3, 4}, []int{dense, foreign}, []int{1, 3}), Bound: "all entries symbolic"},
	}
}

const (
	dLU = iota
	dCholesky
	dQR
	dRRQR
	dRoot
	dEigen
	dGeneral
	dSVD
	dTri
	dHess
	dBi
	dSchur
)

// A reading is something a decomposition is asked for. After it was read, the
// caller may spoil what it got.
type reading struct {
	name string
	get  func() (x [][]float64, spoil func())
}

func kept(x [][]float64) ([][]float64, func()) { return x, func() {} }

func matrix(name string, f func() linear.RealMatrix) reading {
	return reading{name, func() ([][]float64, func()) {
		m := f()
		if m == nil {
			return kept(nil)
		}
		return kept(entries(m))
	}}
}

func fresh(name string, f func() linear.RealMatrix) reading {
	return reading{name, func() ([][]float64, func()) {
		m := f()
		return entries(m), func() { scribblem(m, dense) }
	}}
}

func value(name string, f func() float64) reading {
	return reading{name, func() ([][]float64, func()) { return kept([][]float64{{f()}}) }}
}

func values(name string, f func() []float64) reading {
	return reading{name, func() ([][]float64, func()) { return kept([][]float64{clonev(f())}) }}
}

func truth(name string, f func() bool) reading {
	return value(name, func() float64 {
		if f() {
			return 1
		}
		return 0
	})
}

// solving reads a solver. With kept the inverse is not a copy.
func solving(s func() linear.DecompositionSolver, b linear.RealVector, B linear.RealMatrix, cached bool) []reading {
	if !s().IsNonSingular() && !cached {
		return []reading{truth("verdict", func() bool { return s().IsNonSingular() })}
	}
	one := s()
	r := []reading{
		truth("verdict", func() bool { return s().IsNonSingular() }),
		{"solution", func() ([][]float64, func()) {
			v := one.SolveVector(b)
			return [][]float64{clonev(v.ToArray())}, func() { scribblev(v) }
		}},
		fresh("solutions", func() linear.RealMatrix { return one.SolveMatrix(B) }),
		fresh("solutions of another solver", func() linear.RealMatrix { return s().SolveMatrix(B) }),
	}
	if cached {
		return append(r, matrix("inverse", one.Inverse))
	}
	return append(r, fresh("inverse", one.Inverse))
}

// read decomposes A and gives everything there is to read, nil if the matrix
// is refused.
func read(kind int, A linear.RealMatrix, b linear.RealVector, B linear.RealMatrix) []reading {
	switch kind {
	case dLU:
		d, err := linear.NewLUDecomposition(A)
		if err != nil {
			return nil
		}
		r := solving(d.Solver, b, B, false)
		if !d.Solver().IsNonSingular() {
			return append(r, value("determinant", d.Determinant))
		}
		return append(r, matrix("L", d.L), matrix("U", d.U), matrix("P", d.P), value("determinant", d.Determinant),
			reading{"pivot", func() ([][]float64, func()) {
				var x []float64
				q := d.Pivot()
				for _, p := range q {
					x = append(x, float64(p))
				}
				return [][]float64{x}, func() {
					for i := range q {
						q[i] = 0
					}
				}
			}})
	case dCholesky:
		d, err := linear.NewDefaultCholeskyDecomposition(A)
		if err != nil {
			return nil
		}
		return append(solving(d.Solver, b, B, false), matrix("L", d.L), matrix("LT", d.LT), value("determinant", d.Determinant))
	case dQR, dRRQR:
		if kind == dRRQR {
			d, err := linear.NewRRQRDecomposition(A)
			if err != nil {
				return nil
			}
			return append(solving(d.Solver, b, B, false), matrix("Q", d.Q), matrix("QT", d.QT), matrix("R", d.R), matrix("P", d.P),
				value("rank", func() float64 { return float64(d.Rank(1e-9)) }))
		}
		d, err := linear.NewQRDecomposition(A)
		if err != nil {
			return nil
		}
		r := append(solving(d.Solver, b, B, false), matrix("Q", d.Q), matrix("QT", d.QT), matrix("R", d.R))
		if d.Solver().IsNonSingular() {
			r = append(r, matrix("H", d.H))
		}
		return r
	case dRoot:
		d, err := linear.NewRectangularCholeskyDecomposition(A)
		if err != nil {
			return nil
		}
		return []reading{matrix("root", d.RootMatrix), value("rank", func() float64 { return float64(d.Rank()) })}
	case dEigen, dGeneral:
		d, err := linear.NewEigenDecomposition(A)
		if err != nil {
			return nil
		}
		return readEigen(kind == dEigen, d, b, B)
	case dSVD:
		d, err := linear.NewSingularValueDecomposition(A)
		if err != nil {
			return nil
		}
		return append(solving(d.Solver, b, B, true), matrix("U", d.U), matrix("UT", d.UT), matrix("S", d.S), matrix("V", d.V), matrix("VT", d.VT),
			values("singular values", d.SingularValues), value("norm", d.Norm), value("rank", func() float64 { return float64(d.Rank()) }),
			fresh("covariance", func() linear.RealMatrix { return d.Covariance(0) }))
	case dTri:
		d, err := linear.NewTriDiagonalTransformer(A)
		if err != nil {
			return nil
		}
		return []reading{matrix("Q", d.Q), matrix("QT", d.QT), matrix("T", d.T), values("main diagonal", d.MainDiagonalRef), values("secondary diagonal", d.SecondaryDiagonalRef)}
	case dHess:
		d, err := linear.NewHessenbergTransformer(A)
		if err != nil {
			return nil
		}
		return []reading{matrix("P", d.P), matrix("PT", d.PT), matrix("H", d.H)}
	case dBi:
		d, err := linear.NewBiDiagonalTransformer(A)
		if err != nil {
			return nil
		}
		return []reading{matrix("U", d.U), matrix("B", d.B), matrix("V", d.V), values("main diagonal", d.MainDiagonalRef), values("secondary diagonal", d.SecondaryDiagonalRef)}
	}
	d, err := linear.NewSchurTransformer(A)
	if err != nil {
		return nil
	}
	return []reading{matrix("P", d.P), matrix("PT", d.PT), matrix("T", d.T)}
}

func readEigen(symmetric bool, d *linear.EigenDecomposition, b linear.RealVector, B linear.RealMatrix) []reading {
	var r []reading
	if !d.HasComplexEigenvalues() {
		r = solving(d.Solver, b, B, false)
	}
	copied := func(name string, f func() []float64) reading {
		return reading{name, func() ([][]float64, func()) {
			x := f()
			return [][]float64{clonev(x)}, func() {
				for i := range x {
					x[i] = 555 + float64(i)
				}
			}
		}}
	}
	r = append(r, matrix("V", d.V), matrix("VT", d.VT), matrix("D", d.D), value("determinant", d.Determinant),
		copied("real parts", d.RealEigenvalues), copied("imaginary parts", d.ImagEigenvalues),
		truth("complex", d.HasComplexEigenvalues),
		reading{"eigenvector", func() ([][]float64, func()) {
			v := d.EigenvectorAt(0)
			return [][]float64{clonev(v.ToArray())}, func() { scribblev(v) }
		}})
	positive := symmetric
	for _, v := range d.RealEigenvalues() {
		positive = positive && v > 0
	}
	if positive {
		r = append(r, fresh("square root", d.SquareRoot))
	}
	return r
}

// untouched decomposes x twice: once to read everything in order, and once
// to read it after the matrix was changed, in reverse, spoiling copies, and
// again twice. The answers have to be the same.
func untouched(kind, rep int, x [][]float64) {
	m := len(x)
	b := sym.F64s("r", m)
	B := rhs(dense, m, 2)
	v, M := mkv(dense, clonev(b)), mk(dense, clone(B))
	first := read(kind, mk(rep, clone(x)), mkv(dense, clonev(b)), mk(dense, clone(B)))
	var want [][][]float64
	for _, r := range first {
		y, _ := r.get()
		want = append(want, clone(y))
	}
	A := mk(rep, clone(x))
	again := read(kind, A, v, M)
	same(A, x, "decomposed matrix")
	compare(again, want, func() { scribblem(A, rep) })
	samev(v, b, "right-hand side")
	same(M, B, "right-hand side")
}

func compare(again []reading, want [][][]float64, change func()) {
	sym.Assert(len(again) == len(want), "the same decomposition")
	if len(again) != len(want) {
		return
	}
	if again == nil {
		sym.Cover("refused")
		return
	}
	sym.Cover("read")
	change()
	for t := 0; t < 3; t++ {
		for i := range again {
			if t == 0 {
				i = len(again) - 1 - i
			}
			y, spoil := again[i].get()
			samem(y, want[i], again[i].name)
			spoil()
		}
	}
}

// I29Full: all matrices.
func I29Full(g []int) {
	kind, rep, m, n := g[0], g[1], g[2], g[3]
	x := sym.Mat("a", m, n)
	if kind == dCholesky || kind == dRoot || kind == dTri {
		x = symmetric(rep, "a", m)
	}
	untouched(kind, rep, x)
}

// I29Sum: direct sums of small matrices.
func I29Sum(g []int) {
	kind, rep := g[0], g[1]
	switch kind {
	case dEigen:
		untouched(kind, rep, sum(g[2:]))
	case dSVD:
		untouched(kind, rep, summands(g[2:]))
	default:
		untouched(kind, rep, limit(coupled(g[2:])))
	}
}

// I29Diagonal: diagonal matrices.
func I29Diagonal(g []int) {
	kind, n := g[0], g[1]
	x := input(diag, "a", n, n)
	for i := range x {
		apart(x[i][i])
	}
	untouched(kind, diag, x)
}

// I29Tridiagonal: an eigendecomposition from arrays.
func I29Tridiagonal(g []int) {
	x := sum(g)
	n := len(x)
	var main, second []float64
	for i := range x {
		main = append(main, x[i][i])
		if i > 0 {
			second = append(second, x[i][i-1])
		}
	}
	b := sym.F64s("r", n)
	B := rhs(dense, n, 2)
	v, M := mkv(dense, clonev(b)), mk(dense, clone(B))
	d, err := linear.NewEigenDecompositionFromTridiagonal(clonev(main), clonev(second))
	sym.Assert(err == nil, "eigendecomposition of a symmetric matrix")
	var want [][][]float64
	for _, r := range readEigen(true, d, v, M) {
		y, _ := r.get()
		want = append(want, clone(y))
	}
	p, q := clonev(main), clonev(second)
	d, err = linear.NewEigenDecompositionFromTridiagonal(p, q)
	sym.Assert(err == nil, "eigendecomposition of a symmetric matrix")
	sames(p, main, "main diagonal given by the caller")
	sames(q, second, "secondary diagonal given by the caller")
	compare(readEigen(true, d, v, M), want, func() {
		for i := range p {
			p[i] = 99
		}
		for i := range q {
			q[i] = 88
		}
	})
	samev(v, b, "right-hand side")
	same(M, B, "right-hand side")
}

// I29Any: concrete matrices.
func I29Any(g []int) {
	kind, rep, m, n, k := g[0], g[1], g[2], g[3], g[4]
	b, B := sym.F64s("r", m), rhs(dense, m, k)
	for _, f := range []float64{1, 1e-6, 1e6} {
		for t := 1; t < 4; t++ {
			var x [][]float64
			switch kind {
			case dCholesky, dRoot:
				x = scaled(spd(m, t), f)
			case dEigen, dTri:
				x = even(m, t, f)
			default:
				x = some(m, n, t, f)
			}
			v, M := mkv(rep, clonev(b)), mk(rep, clone(B))
			first := read(kind, mk(rep, clone(x)), mkv(dense, clonev(b)), mk(dense, clone(B)))
			var want [][][]float64
			for _, r := range first {
				y, _ := r.get()
				want = append(want, clone(y))
			}
			A := mk(rep, clone(x))
			again := read(kind, A, v, M)
			same(A, x, "decomposed matrix")
			compare(again, want, func() { scribblem(A, rep) })
			samev(v, b, "right-hand side")
			same(M, B, "right-hand side")
			if m > 10 {
				return
			}
		}
	}
}

// I29Matrix: matrix operations that give something new.
func I29Matrix(g []int) {
	rep, op, m, n := g[0], g[1], g[2], g[3]
	x := input(rep, "a", m, n)
	A := mk(rep, clone(x))
	srep := []int{dense, block, foreign}[sym.IntIn("other", 0, 2)]
	if rep == diag {
		srep = diag
	}
	y := input(srep, "b", m, n)
	B := mk(srep, clone(y))
	crep := srep
	if rep == diag && op == 1 {
		crep = []int{dense, block, foreign, diag}[sym.IntIn("factor", 0, 3)]
		rep = crep
	}
	z := input(crep, "c", n, m)
	C := mk(crep, clone(z))
	u, w := sym.F64s("u", n), sym.F64s("w", m)
	U, W := mkv(srep, clonev(u)), mkv(srep, clonev(w))
	us, ws := clonev(u), clonev(w)
	f := sym.F64("f")
	var out linear.RealMatrix
	var slice []float64
	var vector linear.RealVector
	switch op {
	case 0:
		out = A.Add(B)
		scribblem(out, rep)
		out = A.Subtract(B)
	case 1:
		out = A.Multiply(C)
		scribblem(out, rep)
		out = C.PreMultiplyMatrix(A)
	case 2:
		slice = A.Operate(us)
		vector = A.OperateVector(U)
	case 3:
		slice = A.PreMultiply(ws)
		vector = A.PreMultiplyVector(W)
	case 4:
		if rep == diag {
			sym.Assume(sym.Real(f))
			f = 2
		} else {
			out = A.ScalarAdd(f)
			scribblem(out, rep)
		}
		out = A.ScalarMultiply(f)
	case 5:
		out = A.Transpose()
		scribblem(out, rep)
		out = A.Copy()
		d := A.Data()
		scribble(d)
		slice = A.RowAt(m - 1)
		vector = A.ColumnVectorAt(n - 1)
	case 6:
		A.WalkInRowOrder(&nop{})
		A.WalkInColumnOrder(&nop{})
		A.WalkInOptimizedOrder(&nop{})
		A.Equals(B)
		if m == n {
			A.Trace()
			if rep != diag {
				out = linear.Power(A, 1)
				scribblem(out, rep)
			}
			out = linear.Power(A, 2)
		}
	}
	if out != nil {
		scribblem(out, rep)
	}
	for i := range slice {
		slice[i] = 3
	}
	if vector != nil {
		scribblev(vector)
	}
	same(A, x, "receiver")
	same(B, y, "operand")
	same(C, z, "operand")
	samev(U, u, "operand")
	samev(W, w, "operand")
	sames(us, u, "operand")
	sames(ws, w, "operand")
}

// I29Vector: vector operations that give something new.
func I29Vector(g []int) {
	op, srep, n := g[0], g[1], g[2]
	x, y := sym.F64s("a", n), sym.F64s("b", n)
	v, w := mkv(dense, clonev(x)), mkv(srep, clonev(y))
	var out linear.RealVector
	switch op {
	case 0:
		out = v.Add(w)
		scribblev(out)
		out = v.Subtract(w)
	case 1:
		out = v.EBEMultiply(w)
		scribblev(out)
		out = v.EBEDivide(w)
	case 2:
		out = v.Append(2)
		scribblev(out)
		out = v.AppendVector(w)
		scribblev(out)
		out = v.SubVector(0, n)
		scribblev(out)
		out = v.Copy()
		d := v.ToArray()
		for i := range d {
			d[i] = 4
		}
	case 3:
		out = linear.OuterProduct(v, w).RowVectorAt(0)
		v.WalkInDefaultOrder(&vnop{})
		v.WalkInOptimizedOrder(&vnop{})
		v.Equals(w)
		linear.MaxIndex(v)
		linear.MinValue(v)
	case 4:
		for i := range x {
			sym.Assume(sym.Real(x[i]))
			sym.Assume(sym.Real(y[i]))
		}
		linear.VecDotProduct(v, w)
		linear.VecNorm(v)
		linear.VecL1Distance(v, w)
		linear.VecLInfDistance(v, w)
		linear.VecDistance(v, w)
		sym.Assume(y[0] > 1e-9)
		sym.Assume(y[0] < 1e9)
		for i := 1; i < n; i++ {
			y[i] = 0
			w.SetEntry(i, 0)
		}
		out = linear.Projection(v, w)
		scribblev(out)
		out = linear.UnitVector(w)
	}
	scribblev(out)
	samev(v, x, "receiver")
	samev(w, y, "operand")
}
