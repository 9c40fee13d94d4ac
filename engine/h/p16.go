package h

import (
	"math"

	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p16() []Harness {
	lib := []int{dense, block, foreign}
	return []Harness{
		{Prop: "P16", Name: "R16Full", Mode: "real", F: R16Full, Quick: append(with(cross(lib), a(1), a(2)), a(dense, 3), a(diag, 3)), Thorough: l(a(block, 3), a(diag, 5)), Bound: "all symmetric matrices (semidefinite of every rank, or not), threshold 0, over the reals"},
		{Prop: "P16", Name: "R16Gram", Mode: "real", F: R16Gram, Quick: l(a(2, 1), a(3, 1), a(3, 2), a(4, 1)), Thorough: l(a(4, 2), a(5, 1)), Bound: "all products C*CT of a symbolic n by k matrix, over the reals"},
		{Prop: "P16", Name: "R16Entries", Mode: "real", F: R16Entries, Quick: l(a(4, 0), a(5, 1)), Thorough: l(a(6, 2), a(7, 3)), Bound: "integer symmetric matrices with a symbolic diagonal entry and a symbolic off-diagonal pair"},
		{Prop: "P16", Name: "R16Threshold", Mode: "real", F: R16Threshold, Quick: l(a(1), a(2), a(3)), Thorough: l(a(5)), Bound: "all diagonal matrices with a symbolic threshold"},
		large("P16", "R16Large", R16Large, l(a(12, 5, 1), a(66, 4, 1), a(20, 20, 2), a(130, 9, 3)), l(a(66, 66, 1), a(110, 7, 2), a(210, 70, 2))),
	}
}

// root16 checks a root of x for threshold t.
func root16(d *linear.RectangularCholeskyDecomposition, x [][]float64, t float64, exact bool) {
	n, r := len(x), d.Rank()
	B := entries(d.RootMatrix())
	sym.Assert(len(B) == n && len(B[0]) == r, "shape of the root")
	for i := range x {
		for j := range x {
			s := 0.
			for k := 0; k < r; k++ {
				s += B[i][k] * B[j][k]
			}
			if exact {
				sym.Near(s, x[i][j], 1e-9, "B*BT is the matrix")
			} else {
				sym.AtMost(math.Abs(s-x[i][j]), t, 1e-9, "B*BT is the matrix within the threshold")
			}
		}
	}
}

// semidefinite eliminates with diagonal pivoting; it gives the rank, or -1
// when a negative diagonal shows.
func semidefinite(x [][]float64) (rank int, clean bool) {
	x = clone(x)
	n := len(x)
	used := make([]bool, n)
	for r := 0; r < n; r++ {
		p := -1
		for i := range x {
			if !used[i] && (p < 0 || x[i][i] > x[p][p]) {
				p = i
			}
		}
		if x[p][p] <= 0 {
			clean = true
			for i := range x {
				if used[i] {
					continue
				}
				if x[i][i] < 0 {
					return -1, false
				}
				for j := range x {
					if !used[j] && x[i][j] != 0 {
						clean = false // indefinite in a way the diagonal does not show
					}
				}
			}
			return r, clean
		}
		used[p] = true
		for i := range x {
			if !used[i] {
				f := x[i][p] / x[p][p]
				for j := range x {
					if !used[j] {
						x[i][j] -= f * x[p][j]
					}
				}
			}
		}
	}
	return n, true
}

// R16Full: all symmetric matrices.
func R16Full(g []int) {
	rep, n := g[0], g[1]
	x := symmetric(rep, "a", n)
	A := mk(rep, clone(x))
	d, err := linear.NewRectangularCholeskyDecomposition(A)
	same(A, x, "decomposed matrix")
	accepted(d, err, x)
}

func accepted(d *linear.RectangularCholeskyDecomposition, err error, x [][]float64) {
	rank, clean := semidefinite(x)
	sym.Assert((err == nil) == (d != nil), "a refused decomposition is not returned")
	switch {
	case rank < 0:
		sym.Cover("not semidefinite")
		sym.Assert(err != nil, "a negative diagonal is refused")
		if err != nil {
			sym.Assert(status(err) == linear.ENSMALL, "status of the refusal")
		}
	case rank == 0:
		// the zero matrix has no root with a positive number of columns
		sym.Assert(err != nil, "a matrix with zero diagonal is refused")
	case clean:
		sym.Cover("semidefinite")
		sym.Assert(err == nil, "a semidefinite matrix is accepted")
		if err == nil {
			sym.Assert(d.Rank() == rank, "rank")
			root16(d, x, 0, true)
		}
	}
}

// R16Gram: semidefinite matrices of a given rank.
func R16Gram(g []int) {
	n, k := g[0], g[1]
	c := sym.Mat("c", n, k)
	x := zeros(n, n)
	for i := range x {
		for j := range x {
			x[i][j] = dot(c[i], c[j])
		}
	}
	zero := true
	for i := range c {
		zero = zero && allZero(c[i])
	}
	d, err := linear.NewRectangularCholeskyDecomposition(mk(dense, x))
	if zero {
		return
	}
	sym.Cover("nonzero")
	sym.Assert(err == nil, "a semidefinite matrix is accepted")
	if err == nil {
		sym.Assert(d.Rank() >= 1 && d.Rank() <= k, "rank")
		root16(d, x, 0, true)
	}
}

// R16Entries: larger matrices.
func R16Entries(g []int) {
	n, k := g[0], g[1]
	x := spd(n, k)
	for i := range x {
		x[i][i] += float64((i * 4) % 7)
	}
	i := sym.IntIn("i", 0, n-1)
	j := (i + 1 + k%(n-1)) % n
	x[i][i] = sym.F64("d")
	v := sym.F64("e")
	x[i][j], x[j][i] = v, v
	d, err := linear.NewRectangularCholeskyDecomposition(mk(dense, clone(x)))
	accepted(d, err, x)
}

// R16Threshold: the drop-off threshold.
func R16Threshold(g []int) {
	n := g[0]
	v := sym.F64s("a", n)
	t := sym.F64("t")
	sym.Assume(t >= 0)
	x := zeros(n, n)
	rank, bad := 0, false
	for i := range v {
		x[i][i] = v[i]
		if v[i] > t {
			rank++
		}
		bad = bad || v[i] < -t
	}
	d, err := linear.NewRectangularCholeskyDecompositionWithThreshold(mk(dense, x), t)
	if rank == 0 || bad {
		sym.Cover("refused")
		sym.Assert(err != nil && status(err) == linear.ENSMALL, "refused without an entry above the threshold or with a negative one")
		return
	}
	sym.Cover("accepted")
	sym.Assert(err == nil, "accepted otherwise")
	if err == nil {
		sym.Assert(d.Rank() == rank, "rank counts the entries above the threshold")
		root16(d, x, t, false)
	}
}
