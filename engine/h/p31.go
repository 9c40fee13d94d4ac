package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p31() []Harness {
	lib := []int{dense, block, foreign}
	return []Harness{
		{Prop: "P31", Name: "N31Full", Mode: "real", F: N31Full, Quick: append(with(cross([]int{0, 2, 3}, []int{0, 2, 3}), a(dense, 1), a(dense, 2)), a(0, 2, foreign, 2), a(0, 3, block, 2), a(0, 5, dense, 1), a(0, 5, diag, 2)), Thorough: l(a(0, 2, dense, 3)), Bound: "all entries of matrix and right-hand side symbolic, over the reals"},
		{Prop: "P31", Name: "N31Positive", Mode: "real", F: N31Positive, Quick: l(a(0, 1, dense, 2), a(1, 2, dense, 2), a(1, 3, dense, 2), a(1, 0, block, 2), a(1, 2, foreign, 1), a(1, 4, dense, 1), a(0, 1, dense, 3)), Thorough: l(a(1, 2, dense, 3)), Bound: "all symmetric matrices over the reals that the Cholesky decomposition accepts"},
		{Prop: "P31", Name: "N31Symmetric", Mode: "real", F: N31Symmetric, Quick: append(with(cross(lib), a(0, 1, 1), a(0, 3), a(0, 3, 1), a(0, 1, 1, 1), a(2, 3), a(3, 1, 1)), a(dense, 5, 1, 1), a(foreign, 5, 1, 1, 1)), Thorough: l(a(dense, 0, 3, 3), a(dense, 2, 3, 1, 1), a(block, 5, 1, 1, 1, 1)), Bound: "symmetric direct sums of symbolic blocks; all right-hand sides"},
		{Prop: "P31", Name: "N31Upper", Mode: "real", F: N31Upper, Quick: append(with(cross(lib, []int{0}), a(1, 1), a(5), a(6), a(5, 1), a(7, 1)), a(dense, 2, 5), a(dense, 3, 5), a(dense, 0, 2), a(dense, 0, 3), a(dense, 2, 1, 1, 1), a(dense, 3, 6), a(foreign, 3, 7, 1)), Thorough: l(a(dense, 0, 5, 5), a(dense, 0, 4), a(dense, 2, 5, 1), a(dense, 3, 5, 1)), Bound: "direct sums of upper triangular symbolic blocks; all right-hand sides"},
		{Prop: "P31", Name: "N31Diagonal", Mode: "real", F: N31Diagonal, Quick: l(a(1), a(2), a(3)), Thorough: l(a(4)), Bound: "diagonal matrices with entries 0 or between 0.001 and 1000 in size; all right-hand sides"},
		{Prop: "P31", Name: "N31Any", Mode: "lin", F: N31Any, Quick: append(with(cross(lib, []int{dense, foreign}), a(2, 2), a(5, 3), a(9, 1)), a(dense, diag, 6, 6), a(diag, dense, 7, 2), a(diag, diag, 4, 4), a(block, dense, 20, 2)), Thorough: append(with(cross([]int{dense, block}, lib), a(54, 2)), a(dense, dense, 9, 54), a(block, block, 9, 54)), Bound: "concrete matrices of several scales, all right-hand sides within [-1,1]"},
		{Prop: "P31", Name: "N31Scaled", Mode: "lin", F: N31Scaled, Quick: l(a(2), a(3), a(5), a(8)), Thorough: l(a(12), a(20)), Bound: "concrete matrices with rows and columns of very different scale"},
		{Prop: "P31", Name: "N31Singular", Mode: "lin", F: N31Singular, Quick: cross(lib, []int{1, 2, 3, 5, 8}), Thorough: cross(lib, []int{20}), Bound: "concrete matrices with a zero column"},
		large("P31", "N31Large", N31Large, l(a(dense, dense, 66), a(block, block, 70), a(foreign, dense, 54), a(dense, foreign, 33)), l(a(block, dense, 110), a(dense, block, 130))),
	}
}

// A system is solved in all ways.
type answers struct {
	fine     bool
	vector   []float64
	matrix   [][]float64
	separate [][]float64 // column by column
	inverse  [][]float64
}

func answer(s linear.DecompositionSolver, rep int, b [][]float64) (r answers) {
	r.fine = s.IsNonSingular()
	if !r.fine {
		return
	}
	cols := transposed(b)
	r.vector = s.SolveVector(mkv(rep, clonev(cols[0]))).ToArray()
	r.matrix = entries(s.SolveMatrix(mk(rep, clone(b))))
	r.inverse = mul(entries(s.Inverse()), b)
	for _, c := range cols {
		r.separate = append(r.separate, s.SolveVector(mkv(dense, clonev(c))).ToArray())
	}
	r.separate = transposed(r.separate)
	return
}

// concur checks that two solvers answered alike, up to f.
func concur(p, q answers, f, tol float64) {
	sym.Assert(p.fine == q.fine, "the same verdict on singularity")
	if !p.fine || !q.fine {
		sym.Cover("singular")
		return
	}
	sym.Cover("regular")
	sym.Assert(len(p.matrix) == len(q.matrix) && len(p.matrix[0]) == len(q.matrix[0]), "the same shape")
	for i := range p.matrix {
		sym.Near(p.vector[i]*f, q.vector[i]*f, tol, "the same solution")
		for k := range p.matrix[i] {
			sym.Near(p.matrix[i][k]*f, q.matrix[i][k]*f, tol, "the same solutions")
			sym.Near(p.matrix[i][k]*f, q.separate[i][k]*f, tol, "the same solution for each column")
			sym.Near(p.matrix[i][k]*f, p.separate[i][k]*f, tol, "the same solution for each column")
			sym.Near(p.matrix[i][k]*f, q.inverse[i][k]*f, tol, "the inverse gives the same solutions")
			sym.Near(p.matrix[i][k]*f, p.inverse[i][k]*f, tol, "the inverse gives the same solutions")
		}
	}
}

// N31Full: two of the solvers for every matrix.
func N31Full(g []int) {
	k, l, rep, n := g[0], g[1], g[2], g[3]
	if k == l {
		l = 0
	}
	x, b := input(rep, "a", n, n), input(dense, "r", n, 2)
	if n == 1 || rep == diag {
		for i := range x {
			apart(x[i][i])
		}
	}
	p := solvers(k, mk(rep, clone(x)))
	q := solvers(l, mk(dense, clone(x)))
	if n > 1 && rep != diag {
		// nearly singular matrices may be judged differently
		sym.Assume(p.IsNonSingular())
		sym.Assume(q.IsNonSingular())
	}
	concur(answer(p, dense, b), answer(q, rep%2, b), 1, 1e-9)
}

// N31Positive: with the Cholesky decomposition.
func N31Positive(g []int) {
	k, l, rep, n := g[0], g[1], g[2], g[3]
	x, b := symmetric(rep, "a", n), input(dense, "r", n, 2)
	if n == 1 {
		sym.Size(x[0][0], 0.001, 1000)
	}
	_, err := linear.NewDefaultCholeskyDecomposition(mk(rep, clone(x)))
	sym.Assume(err == nil)
	p := solvers(k, mk(rep, clone(x)))
	q := solvers(l, mk(dense, clone(x)))
	if n > 1 {
		sym.Assume(p.IsNonSingular())
		sym.Assume(q.IsNonSingular())
	}
	concur(answer(p, dense, b), answer(q, rep%2, b), 1, 1e-9)
}

// N31Symmetric: the eigen solver and another one.
func N31Symmetric(g []int) {
	rep, k := g[0], g[1]
	x := sum(g[2:])
	b := input(dense, "r", len(x), 2)
	p := solvers(4, mk(rep, clone(x)))
	q := solvers(k, mk(dense, clone(x)))
	concur(answer(p, dense, b), answer(q, rep%2, b), 1, 1e-9)
}

// N31Upper: the singular value solver and another one.
func N31Upper(g []int) {
	rep, k := g[0], g[1]
	x := summands(g[2:])
	b := input(dense, "r", len(x), 2)
	p := solvers(5, mk(rep, clone(x)))
	q := solvers(k, mk(dense, clone(x)))
	concur(answer(p, dense, b), answer(q, rep%2, b), 1, 1e-9)
}

// N31Diagonal: all solvers.
func N31Diagonal(g []int) {
	n := g[0]
	x := input(diag, "a", n, n)
	positive := true
	for i := range x {
		apart(x[i][i])
		positive = positive && x[i][i] > 0
	}
	b := input(dense, "r", n, 2)
	p := answer(solvers(0, mk(diag, clone(x))), dense, b)
	for _, k := range []int{2, 3, 4, 5} {
		concur(p, answer(solvers(k, mk(diag, clone(x))), dense, b), 1, 1e-9)
	}
	if positive {
		concur(p, answer(solvers(1, mk(diag, clone(x))), dense, b), 1, 1e-9)
	}
}

// all compares all solvers on the system.
func all(rep, brep int, x, b [][]float64, f, tol float64, also ...int) {
	p := answer(solvers(0, mk(rep, clone(x))), brep, b)
	sym.Assert(p.fine, "a regular matrix")
	for _, k := range append([]int{2, 3, 5}, also...) {
		concur(p, answer(solvers(k, mk(rep, clone(x))), brep, b), f, tol)
	}
}

// N31Any: concrete matrices.
func N31Any(g []int) {
	rep, brep, n, k := g[0], g[1], g[2], g[3]
	b := rhs(brep, n, k)
	for _, f := range []float64{1, 0x1p-20, 0x1p20} {
		for _, t := range steps(n, 3) {
			if rep == diag {
				x := scaled(zeros(n, n), f)
				for i := range x {
					x[i][i] = float64(1+(i*t+t)%7) * f
				}
				all(rep, brep, x, b, f, 1e-8, 1, 4)
				continue
			}
			all(rep, brep, scaled(dominant(n, t), f), b, f, 1e-8)
			all(rep, brep, scaled(spd(n, t), f), b, f, 1e-8, 1, 4)
			x := spd(n, t)
			for i := range x {
				if i%2 == 0 {
					x[i][i] = -x[i][i]
				}
			}
			all(rep, brep, scaled(x, f), b, f, 1e-8, 4)
			if n > 10 {
				return
			}
		}
	}
}

// N31Scaled: the solution of a badly scaled system, unknown by unknown.
func N31Scaled(g []int) {
	n := g[0]
	b := rhs(dense, n, 1)
	for _, t := range steps(n, 4) {
		x := dominant(n, t)
		r, c := make([]float64, n), make([]float64, n)
		for i := range r {
			r[i], c[i] = 1, 1
			for s := 0; s < (i*t+1)%4; s++ {
				r[i] *= 16
			}
			for s := 0; s < (i*(t+1)+2)%4; s++ {
				c[i] /= 8
			}
		}
		for i := range x {
			for j := range x[i] {
				x[i][j] *= r[i] * c[j]
			}
		}
		y := clone(b)
		for i := range y {
			y[i][0] *= r[i]
		}
		want := answer(solvers(0, mk(dense, clone(x))), dense, y)
		for _, k := range []int{2, 3, 5} {
			got := answer(solvers(k, mk(dense, clone(x))), dense, y)
			sym.Assert(want.fine && got.fine, "a regular matrix")
			for j := range c {
				sym.Near(want.matrix[j][0]*c[j], got.matrix[j][0]*c[j], 1e-6, "the same solution")
				sym.Near(want.vector[j]*c[j], got.vector[j]*c[j], 1e-6, "the same solution")
			}
		}
	}
}

// N31Singular: matrices with a zero column.
func N31Singular(g []int) {
	rep, n := g[0], g[1]
	b := rhs(dense, n, 1)
	for _, t := range steps(n, 3) {
		for j := 0; j < n; j++ {
			if n > 10 && j%7 != 0 {
				continue
			}
			x, y := dominant(n, t), spd(n, t)
			for i := range x {
				x[i][j] = 0
				y[i][j], y[j][i] = 0, 0
			}
			for _, k := range []int{0, 2, 3, 5} {
				sym.Assert(!answer(solvers(k, mk(rep, clone(x))), dense, b).fine, "a singular matrix")
				sym.Assert(!answer(solvers(k, mk(rep, clone(y))), dense, b).fine, "a singular matrix")
			}
			if n > 1 {
				sym.Assert(!answer(solvers(4, mk(rep, clone(y))), dense, b).fine, "a singular matrix")
			}
			_, err := linear.NewDefaultCholeskyDecomposition(mk(rep, clone(y)))
			sym.Assert(err != nil, "a singular matrix")
		}
	}
}

// steps lists up to k multipliers that permute 0..n-1.
func steps(n, k int) []int {
	var r []int
	for t := 1; len(r) < k && t <= n; t++ {
		x, y := t, n
		for y > 0 {
			x, y = y, x%y
		}
		if x == 1 {
			r = append(r, t)
		}
	}
	return r
}

// N31Large: matrices that span several blocks.
func N31Large(g []int) {
	rep, brep, n := g[0], g[1], g[2]
	b := mul(plane(n), [][]float64{{1, -0.5, 0.25}})
	all(rep, brep, dominant(n, coprime(n)), b, 1, 1e-8)
	all(rep, brep, spd(n, 2), b, 1, 1e-8, 1, 4)
}
