package h

import (
	"math"

	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p32() []Harness {
	var q, t, mq, mt [][]int
	for k := 0; k < 13; k++ {
		free := 9
		if k == 8 || k == 9 || k == 10 || k == 12 {
			free = 1 // the iterations branch on every free entry
		}
		two, three := free, 1
		if k == 9 {
			two = 0
		}
		if k == 12 {
			three = 0
		}
		q = append(q, []int{k, 1, 1, free}, []int{k, 2, 2, two}, []int{k, 3, 3, three})
		t = append(t, []int{k, 4, 4, 0})
		if free > 1 {
			t = append(t, []int{k, 3, 3, 2}, []int{k, 4, 4, 1})
		}
		mq = append(mq, []int{k, 1, 1}, []int{k, 2, 2}, []int{k, 3, 3})
		if k == 8 || k == 9 {
			mt = append(mt, []int{k, 4, 4})
			continue
		}
		mq = append(mq, []int{k, 4, 4})
		mt = append(mt, []int{k, 5, 5})
	}
	for _, k := range []int{0, 1, 2, 5, 6, 8, 9, 10} {
		mq = append(mq, []int{k, 1, 2}, []int{k, 2, 1}, []int{k, 2, 3}, []int{k, 3, 2}, []int{k, 3, 1})
	}
	for _, k := range []int{3, 4, 7, 11} {
		q = append(q, []int{k, 1, 2, 9}, []int{k, 2, 1, 9}, []int{k, 2, 3, 1}, []int{k, 3, 2, 1})
		mq = append(mq, []int{k, 2, 3}, []int{k, 3, 2}, []int{k, 1, 4}, []int{k, 4, 1})
		mt = append(mt, []int{k, 3, 5}, []int{k, 5, 3})
	}
	return []Harness{
		{Prop: "P32", Name: "N32NaN", Mode: "fp", F: N32NaN, Quick: q, Thorough: t, Bound: "a NaN at any position; of the other entries the first few (all, for up to 2 by 2) any float64, the others concrete", Feas: -1},
		{Prop: "P32", Name: "N32Marked", Mode: "fp", F: N32Marked, Quick: mq, Thorough: mt, Bound: "concrete matrices with two entries, at any positions, each NaN, an infinity, huge or tiny", Feas: -1},
	}
}

// decompositions that N32 goes through
func decomposed(k int, A linear.RealMatrix) error {
	switch k {
	case 0:
		d, err := linear.NewLUDecomposition(A)
		if err == nil {
			d.L()
			d.U()
			d.P()
			d.Determinant()
			consult(d.Solver(), A.RowDimension())
		}
		return err
	case 1:
		d, err := linear.NewDefaultCholeskyDecomposition(A)
		if err == nil {
			d.L()
			d.LT()
			d.Determinant()
			consult(d.Solver(), A.RowDimension())
		}
		return err
	case 2:
		d, err := linear.NewRectangularCholeskyDecomposition(A)
		if err == nil {
			d.RootMatrix()
			d.Rank()
		}
		return err
	case 3:
		d, err := linear.NewQRDecomposition(A)
		if err == nil {
			d.Q()
			d.R()
			d.H()
			consult(d.Solver(), A.RowDimension())
		}
		return err
	case 4:
		d, err := linear.NewRRQRDecomposition(A)
		if err == nil {
			d.Q()
			d.R()
			d.P()
			d.Rank(1e-10)
			consult(d.Solver(), A.RowDimension())
		}
		return err
	case 5:
		d, err := linear.NewTriDiagonalTransformer(A)
		if err == nil {
			d.Q()
			d.T()
		}
		return err
	case 6:
		d, err := linear.NewHessenbergTransformer(A)
		if err == nil {
			d.P()
			d.H()
		}
		return err
	case 7:
		d, err := linear.NewBiDiagonalTransformer(A)
		if err == nil {
			d.U()
			d.B()
			d.V()
		}
		return err
	case 8:
		d, err := linear.NewSchurTransformer(A)
		if err == nil {
			d.P()
			d.T()
		}
		return err
	case 9, 10:
		d, err := linear.NewEigenDecomposition(A)
		if err == nil {
			d.V()
			d.D()
			d.Determinant()
			d.HasComplexEigenvalues()
		}
		return err
	case 11:
		d, err := linear.NewSingularValueDecomposition(A)
		if err == nil {
			d.U()
			d.S()
			d.V()
			d.Rank()
			d.ConditionNumber()
			consult(d.Solver(), A.RowDimension())
		}
		return err
	case 12:
		n := A.RowDimension()
		m, s := make([]float64, n), make([]float64, n-1)
		for i := range m {
			m[i] = A.At(i, i)
			if i+1 < n {
				s[i] = A.At(i, i+1)
			}
		}
		d, err := linear.NewEigenDecompositionFromTridiagonal(m, s)
		if err == nil {
			d.V()
			d.D()
			consult(d.Solver(), n)
		}
		return err
	}
	return nil
}

// consult asks a solver for all it has.
func consult(s linear.DecompositionSolver, m int) {
	if !s.IsNonSingular() {
		sym.Cover("singular")
		return
	}
	b := make([]float64, m)
	for i := range b {
		b[i] = float64(i + 1)
	}
	s.SolveVector(mkv(dense, b))
	s.Inverse()
}

// mirrored tells which decompositions are for symmetric matrices.
func mirrored(k int) bool { return k == 1 || k == 2 || k == 5 || k == 10 || k == 12 }

// ends: f comes to an end, with a result or one of the library's errors.
func ends(f func() error) {
	var err error
	p, e := sym.Panics(func() { err = f() })
	if !p {
		if err == nil {
			sym.Cover("result")
			sym.Assert(true, "ends")
			return
		}
		e = err
	}
	_, ok := e.(linear.LinearMathError)
	sym.Assert(ok, "the refusal is one of the library's errors")
	sym.Cover("refused")
}

// base is one of a few m by n matrices.
func base(f, m, n int) [][]float64 {
	x := zeros(m, n)
	for i := range x {
		for j := range x[i] {
			switch f {
			case 0:
				x[i][j] = float64((i*7+j*3)%5) - 2 + 0.25*float64(i*j)
			case 1:
				if i == j {
					x[i][j] = 1
				}
			case 2:
				x[i][j] = 1
			}
		}
	}
	return x
}

// reflect copies the part above the diagonal to the one below.
func reflect(x [][]float64) {
	for i := range x {
		for j := range x[i][:i] {
			x[i][j] = x[j][i]
		}
	}
}

// N32NaN: a NaN among arbitrary entries.
func N32NaN(g []int) {
	k, m, n, free := g[0], g[1], g[2], g[3]
	p := sym.IntIn("position", 0, m*n-1)
	x := base(0, m, n)
	for i := range x {
		for j := range x[i] {
			switch {
			case i*n+j == p:
				x[i][j] = math.NaN()
			case free > 0 && (!mirrored(k) || i <= j):
				x[i][j] = sym.F64([]string{"a", "b", "c", "d", "e", "f", "g", "h", "i"}[free-1])
				free--
			}
		}
	}
	if mirrored(k) {
		if p/n > p%n {
			x[p%n][p/n] = x[p/n][p%n]
		}
		reflect(x)
	}
	A := mk(dense, clone(x))
	ends(func() error { return decomposed(k, A) })
}

// N32Marked: entries that are not finite, or whose squares are not.
func N32Marked(g []int) {
	k, m, n := g[0], g[1], g[2]
	marks := []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -1e200, 1e-320}
	p, q := sym.IntIn("first", 0, m*n-1), sym.IntIn("second", 0, m*n-1)
	if q < p || m == n && mirrored(k) && (p/n > p%n || q/n > q%n) {
		return
	}
	a, b := sym.IntIn("mark", 0, len(marks)-1), sym.IntIn("other mark", 0, len(marks)-1)
	if p == q && a != b {
		return
	}
	for f := 0; f < 3; f++ {
		x := base(f, m, n)
		x[p/n][p%n], x[q/n][q%n] = marks[a], marks[b]
		if m == n && mirrored(k) {
			reflect(x)
		}
		A := mk(dense, x)
		ends(func() error { return decomposed(k, A) })
	}
}
