package h

import (
	"math"

	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p28() []Harness {
	reps := []int{dense, block, diag}
	mats := []int{dense, block}
	n := func(k int) []int {
		r := make([]int, k)
		for i := range r {
			r[i] = i
		}
		return r
	}
	return []Harness{
		{Prop: "P28", Name: "E28Index", Mode: "fp", F: E28Index, Quick: append(with(cross(reps, n(10)), a(3, 3)), with(cross(mats, n(10)), a(2, 4))...), Thorough: with(cross(mats, n(10)), a(53, 2), a(2, 53)), Bound: "every 64-bit row and column index"},
		{Prop: "P28", Name: "E28Set", Mode: "fp", F: E28Set, Quick: append(with(cross(reps, n(6)), a(3, 3)), with(cross(mats, n(6)), a(2, 4))...), Thorough: with(cross(mats, n(6)), a(53, 2)), Bound: "every 64-bit row or column index; operands of every length 0..n+1"},
		{Prop: "P28", Name: "E28Range", Mode: "fp", F: E28Range, Quick: append(with(cross(reps, n(9)), a(3, 3)), with(cross(mats, n(9)), a(2, 3))...), Bound: "every combination of four 64-bit bounds"},
		{Prop: "P28", Name: "E28Sub", Mode: "fp", F: E28Sub, Quick: append(with(cross(reps), a(3, 3)), with(cross(mats), a(2, 3))...), Bound: "every 64-bit start row and column; submatrix up to one more than fits"},
		{Prop: "P28", Name: "E28Shape", Mode: "fp", F: E28Shape, Quick: with(cross(reps, reps, n(5)), a(3, 3)), Thorough: with(cross(mats, mats, n(5)), a(2, 4)), Bound: "operand shapes 1..4 by 1..4"},
		{Prop: "P28", Name: "E28Apply", Mode: "fp", F: E28Apply, Quick: append(with(cross(reps, []int{dense, foreign}, n(4)), a(3, 3)), with(cross(mats, []int{dense, foreign}, n(4)), a(2, 3))...), Bound: "operand lengths 0..5"},
		{Prop: "P28", Name: "E28Lists", Mode: "fp", F: E28Lists, Quick: with(cross(reps), a(3, 3)), Bound: "index lists of up to three symbolic 64-bit indices"},
		{Prop: "P28", Name: "E28Vector", Mode: "fp", F: E28Vector, Quick: with(cross(n(21)), a(3)), Thorough: with(cross(n(21)), a(1), a(4)), Bound: "every 64-bit index and length; operands of every length up to n+2"},
		{Prop: "P28", Name: "E28Dims", Mode: "fp", F: E28Dims, Quick: cross(n(6)), Bound: "every 64-bit row and column count up to 2 and above -2^53"},
		{Prop: "P28", Name: "E28Data", Mode: "fp", F: E28Data, Quick: cross(n(7)), Bound: "no, empty and ragged data; ragged row of any length 0..4 at any position"},
		{Prop: "P28", Name: "E28Square", Mode: "fp", F: E28Square, Quick: with(cross(n(11)), a(dense), a(block), a(foreign)), Bound: "every non-square shape 1..4 by 1..4"},
		{Prop: "P28", Name: "E28Power", Mode: "fp", F: E28Power, Quick: l(a(dense, 2, 2), a(block, 2, 2), a(diag, 2, 2), a(foreign, 2, 2), a(dense, 2, 3), a(dense, 3, 1), a(block, 3, 2), a(block, 1, 2), a(foreign, 2, 1), a(foreign, 2, 4)), Bound: "every negative 64-bit exponent, and for matrices that are not square every exponent"},
		{Prop: "P28", Name: "E28Solver", Mode: "lin", F: E28Solver, Quick: with(cross(n(6), mats), a(3)), Bound: "right-hand sides of every length and height 1..6 for a 3 by 3 system"},
		{Prop: "P28", Name: "E28Singular", Mode: "real", F: E28Singular, Quick: l(a(0, 2), a(0, 3), a(1, 2), a(2, 2), a(3, 2), a(4, 3)), Bound: "singular matrices: a symbolic multiple of a row as another row, a zero column, symmetric of rank one, a zero on the diagonal"},
		{Prop: "P28", Name: "E28Cholesky", Mode: "real", F: E28Cholesky, Quick: l(a(dense, 0, 2), a(block, 1, 2), a(foreign, 0, 2), a(dense, 1, 3), a(dense, 2, 3), a(block, 3, 3), a(dense, 4, 3)), Bound: "all symmetric matrices, or one asymmetric pair anywhere, symbolic thresholds"},
		{Prop: "P28", Name: "E28Eigen", Mode: "real", F: E28Eigen, Quick: l(a(0), a(1), a(2), a(3)), Bound: "zero norm, complex and negative eigenvalues, symbolic cutoff"},
	}
}

// A cause is a reason for which a call must be refused.
type cause struct {
	holds  bool
	status int
	arg    float64 // of a number
	lo, hi float64 // of a range; lo also is the least number
	got    [2]int  // of a shape
	want   [2]int
}

func outside(i, n int) cause {
	return cause{holds: sym.Either(i < 0, i >= n), status: linear.ERANGE, arg: float64(i), lo: 0, hi: float64(n - 1)}
}

// beyond: a part of the given size starting at i does not fit.
func beyond(i, k, n int) cause {
	return cause{holds: !sym.Either(sym.Either(i < 0, i >= n), i <= n-k), status: linear.ERANGE, arg: float64(i + k - 1), lo: 0, hi: float64(n - 1)}
}

func reversed(start, end int) cause {
	return cause{holds: end < start, status: linear.ENSMALL, arg: float64(end), lo: float64(start)}
}

func shaped(m, n, p, q int) cause {
	return cause{holds: sym.Either(m != p, n != q), status: linear.EMATDIM, got: [2]int{m, n}, want: [2]int{p, q}}
}

func sized(m, n int) cause {
	return cause{holds: m != n, status: linear.EDIM, got: [2]int{m, 0}, want: [2]int{n, 0}}
}

func nonsquare(m, n int) cause {
	return cause{holds: m != n, status: linear.ESQMAT, got: [2]int{m, 0}, want: [2]int{n, 0}}
}

func plain(holds bool, status int) cause { return cause{holds: holds, status: status} }

type number interface{ Argument() float64 }
type interval interface {
	Low() float64
	High() float64
}
type least interface{ Min() float64 }
type most interface{ Max() float64 }
type shapes interface {
	WrongDimension(int) int
	ExpectedDimension(int) int
	WrongRowDimension() int
	WrongColumnDimension() int
	ExpectedRowDimension() int
	ExpectedColumnDimension() int
	WrongDimensions() []int
	ExpectedDimensions() []int
}

func both(a, b bool) bool { return !sym.Either(!a, !b) }

// names tells whether the error's details are those of the cause.
func (c cause) names(e interface{}) bool {
	switch c.status {
	case linear.ERANGE:
		x, ok := e.(number)
		y, ok2 := e.(interval)
		if !ok || !ok2 {
			return false
		}
		return both(x.Argument() == c.arg, both(y.Low() == c.lo, y.High() == c.hi))
	case linear.ENSMALL, linear.ENOTSPOS, linear.ENOTPOS:
		x, ok := e.(number)
		y, ok2 := e.(least)
		if !ok || !ok2 {
			return false
		}
		return both(x.Argument() == c.arg, y.Min() == c.lo)
	case linear.ENBIG:
		x, ok := e.(number)
		y, ok2 := e.(most)
		if !ok || !ok2 {
			return false
		}
		return both(x.Argument() == c.arg, y.Max() == c.hi)
	case linear.EDIM, linear.ESQMAT:
		x, ok := e.(number)
		if !ok {
			return false
		}
		return sym.Either(x.Argument() == float64(c.got[0]), x.Argument() == float64(c.want[0]))
	case linear.EMATDIM:
		x, ok := e.(shapes)
		if !ok {
			return false
		}
		g0, g1 := x.WrongDimension(0), x.WrongDimension(1)
		w0, w1 := x.ExpectedDimension(0), x.ExpectedDimension(1)
		if x.WrongRowDimension() != g0 || x.WrongColumnDimension() != g1 || x.ExpectedRowDimension() != w0 || x.ExpectedColumnDimension() != w1 {
			return false
		}
		if g, w := x.WrongDimensions(), x.ExpectedDimensions(); len(g) != 2 || len(w) != 2 || g[0] != g0 || g[1] != g1 || w[0] != w0 || w[1] != w1 {
			return false
		}
		one := both(both(g0 == c.got[0], g1 == c.got[1]), both(w0 == c.want[0], w1 == c.want[1]))
		two := both(both(w0 == c.got[0], w1 == c.got[1]), both(g0 == c.want[0], g1 == c.want[1]))
		return sym.Either(one, two)
	}
	return true
}

// explained checks that a call is refused if there is a cause, and that the
// refusal then names one of the causes there are.
func explained(f func() error, causes ...cause) {
	bad := false
	for _, c := range causes {
		bad = sym.Either(bad, c.holds)
	}
	if !bad {
		sym.Cover("accepted")
		return
	}
	var err error
	p, e := sym.Panics(func() { err = f() })
	if !p {
		sym.Assert(err != nil, "an invalid call is accepted")
		if err == nil {
			return
		}
		e = err
	}
	x, ok := e.(linear.LinearMathError)
	sym.Assert(ok, "the refusal is one of the library's errors")
	if !ok {
		return
	}
	sym.Cover("refused")
	s := x.Status()
	known, named := false, false
	for _, c := range causes {
		if c.status == s {
			known = sym.Either(known, c.holds)
			named = sym.Either(named, both(c.holds, c.names(e)))
		}
	}
	sym.Assert(known, "status of the refusal")
	sym.Assert(named, "details of the refusal")
}

func done(f func()) func() error { return func() error { f(); return nil } }

// E28Index: operations with one position.
func E28Index(g []int) {
	rep, op, m, n := g[0], g[1], g[2], g[3]
	x := input(rep, "a", m, n)
	A := mk(rep, x)
	r, c := sym.Int("row"), sym.Int("column")
	v := sym.F64("v")
	row, col := outside(r, m), outside(c, n)
	stored := plain(false, 0)
	if rep == diag && op >= 1 && op <= 2 && r != c {
		if sym.IntIn("zero", 0, 1) == 1 {
			v = 0
		} else {
			sym.Assume(v > 1 || v < -1)
			w := v
			if w < 0 {
				w = -w
			}
			stored = cause{holds: true, status: linear.ENBIG, arg: w, hi: 0}
		}
	}
	switch op {
	case 0:
		explained(done(func() { A.At(r, c) }), row, col)
	case 1:
		explained(done(func() { A.SetEntry(r, c, v) }), row, col, stored)
	case 2:
		explained(done(func() { A.AddToEntry(r, c, v) }), row, col, stored)
	case 3:
		explained(done(func() { A.MultiplyEntry(r, c, v) }), row, col)
	case 4:
		explained(done(func() { A.RowAt(r) }), row)
	case 5:
		explained(done(func() { A.ColumnAt(c) }), col)
	case 6:
		explained(done(func() { A.RowMatrixAt(r) }), row, plain(rep == diag && n > 1, linear.EDIM).with(1, n))
	case 7:
		explained(done(func() { A.ColumnMatrixAt(c) }), col, plain(rep == diag && m > 1, linear.EDIM).with(1, m))
	case 8:
		explained(done(func() { A.RowVectorAt(r) }), row)
	case 9:
		explained(done(func() { A.ColumnVectorAt(c) }), col)
	}
}

func (c cause) with(m, n int) cause {
	c.got, c.want = [2]int{m, 0}, [2]int{n, 0}
	return c
}

// E28Set: row and column updates.
func E28Set(g []int) {
	rep, op, m, n := g[0], g[1], g[2], g[3]
	A := mk(rep, input(rep, "a", m, n))
	i := sym.Int("index")
	size := n
	if op >= 3 {
		size = m
	}
	k := sym.IntIn("length", 0, size+1)
	if k == 0 && (op == 1 || op == 4) {
		return
	}
	s := make([]float64, k)
	o := sym.IntIn("other", 1, 2)
	srep := []int{dense, block, foreign}[sym.IntIn("source", 0, 2)]
	row, col := outside(i, m), outside(i, n)
	switch op {
	case 0:
		explained(done(func() { A.SetRow(i, s) }), row, shaped(1, k, 1, n))
	case 1:
		B := mk(srep, zeros(o, k))
		explained(done(func() { A.SetRowMatrix(i, B) }), row, shaped(o, k, 1, n))
	case 2:
		v := mkv(srep, s)
		explained(done(func() { A.SetRowVector(i, v) }), row, shaped(1, k, 1, n))
	case 3:
		explained(done(func() { A.SetColumn(i, s) }), col, shaped(k, 1, m, 1))
	case 4:
		B := mk(srep, zeros(k, o))
		explained(done(func() { A.SetColumnMatrix(i, B) }), col, shaped(k, o, m, 1))
	case 5:
		v := mkv(srep, s)
		explained(done(func() { A.SetColumnVector(i, v) }), col, shaped(k, 1, m, 1))
	}
}

// E28Range: operations with row and column bounds.
func E28Range(g []int) {
	rep, op, m, n := g[0], g[1], g[2], g[3]
	A := mk(rep, input(rep, "a", m, n))
	r, s, c, d := sym.Int("r0"), sym.Int("r1"), sym.Int("c0"), sym.Int("c1")
	why := []cause{outside(r, m), outside(s, m), reversed(r, s), outside(c, n), outside(d, n), reversed(c, d)}
	var f func()
	switch op {
	case 0:
		f = func() { A.SubMatrix(r, s, c, d) }
		if rep == diag && sym.IntIn("oblong", 0, 1) == 1 {
			// refused as well where it would not be square
			h, w := s-r+1, d-c+1
			sym.Assume(in(r, m) && in(s, m) && r <= s && in(c, n) && in(d, n) && c <= d)
			why = []cause{sized(h, w)}
		}
	case 1:
		dst := zeros(m, n)
		f = func() { linear.CopySubMatrix(A, r, s, c, d, dst) }
	case 2:
		f = func() { A.WalkInRowOrderBounded(&nop{}, r, s, c, d) }
	case 3:
		f = func() { A.WalkInColumnOrderBounded(&nop{}, r, s, c, d) }
	case 4:
		f = func() { A.WalkInOptimizedOrderBounded(&nop{}, r, s, c, d) }
	case 5:
		f = func() { A.WalkInUpdateRowOrderBounded(&over{rep}, r, s, c, d) }
	case 6:
		f = func() { A.WalkInUpdateColumnOrderBounded(&over{rep}, r, s, c, d) }
	case 7:
		f = func() { A.WalkInUpdateOptimizedOrderBounded(&over{rep}, r, s, c, d) }
	case 8: // destination too small
		sym.Assume(in(r, m) && in(s, m) && r <= s && in(c, n) && in(d, n) && c <= d)
		r, s, c, d = split(r, 0, m), split(s, 0, m), split(c, 0, n), split(d, 0, n)
		h, w := sym.IntIn("h", 0, m), sym.IntIn("w", 0, n)
		if h == 0 {
			w = 0
		}
		dst := zeros(h, w)
		f = func() { linear.CopySubMatrix(A, r, s, c, d, dst) }
		y := shaped(h, w, s-r+1, d-c+1)
		y.holds = h < s-r+1 || w < d-c+1
		why = []cause{y}
	}
	explained(done(f), why...)
}

// E28Sub: submatrix updates.
func E28Sub(g []int) {
	rep, m, n := g[0], g[1], g[2]
	A := mk(rep, input(rep, "a", m, n))
	switch sym.IntIn("what", 0, 4) {
	case 0:
		r, c := sym.Int("row"), sym.Int("column")
		h := pick("h", []int{1, 2, m, m + 1})
		w := pick("w", []int{1, 2, n, n + 1})
		explained(done(func() { A.SetSubMatrix(zeros(h, w), r, c) }), outside(r, m), outside(c, n), beyond(r, h, m), beyond(c, w, n))
	case 1:
		k := sym.IntIn("length", 0, n+1)
		s := [][]float64{make([]float64, n), make([]float64, k)}
		explained(done(func() { A.SetSubMatrix(s, 0, 0) }), sized(k, n))
	case 2:
		explained(done(func() { A.SetSubMatrix(nil, 0, 0) }), plain(true, linear.EINV))
	case 3:
		s := [][]float64{}
		if sym.IntIn("row", 0, 1) == 1 {
			s = [][]float64{{}}
		}
		explained(done(func() { A.SetSubMatrix(s, 0, 0) }), plain(true, linear.ENODAT))
	case 4:
		if rep == dense {
			r, c := sym.Int("row"), sym.Int("column")
			sym.Assume(r >= 0)
			sym.Assume(c >= 0)
			e := new(linear.Array2DRowRealMatrix)
			explained(done(func() { e.SetSubMatrix(zeros(2, 2), r, c) }), plain(r > 0 || c > 0, linear.EILLSTATE))
		}
	}
}

// E28Shape: operand matrices of the wrong shape.
func E28Shape(g []int) {
	rep, srep, op, m, n := g[0], g[1], g[2], g[3], g[4]
	A := mk(rep, input(rep, "a", m, n))
	h := sym.IntIn("h", 0, 4)
	w := h
	if srep != diag {
		w = sym.IntIn("w", 0, 4)
	}
	var B linear.RealMatrix
	if op == 4 {
		if h == 0 {
			w = 0
		}
	} else {
		sym.Assume(h > 0 && w > 0)
		B = mk(srep, zeros(h, w))
	}
	switch op {
	case 0:
		explained(done(func() { A.Add(B) }), shaped(h, w, m, n))
	case 1:
		explained(done(func() { A.Subtract(B) }), shaped(h, w, m, n))
	case 2:
		explained(done(func() { A.Multiply(B) }), sized(h, n))
	case 3:
		explained(done(func() { A.PreMultiplyMatrix(B) }), sized(w, m))
	case 4: // destination of a product by index lists
		d := zeros(h, w)
		y := shaped(h, w, 2, 2)
		y.holds = h < 2 || w < 2
		explained(done(func() { linear.CopySubMatrixFromIndices(A, []int{0, 1}, []int{1, 0}, d) }), y)
	}
}

// E28Apply: operand vectors of the wrong length.
func E28Apply(g []int) {
	rep, srep, op, m, n := g[0], g[1], g[2], g[3], g[4]
	A := mk(rep, input(rep, "a", m, n))
	k := sym.IntIn("length", 0, 5)
	y := make([]float64, k)
	v := mkv(srep, y)
	switch op {
	case 0:
		explained(done(func() { A.Operate(y) }), sized(k, n))
	case 1:
		explained(done(func() { A.OperateVector(v) }), sized(k, n))
	case 2:
		explained(done(func() { A.PreMultiply(y) }), sized(k, m))
	case 3:
		explained(done(func() { A.PreMultiplyVector(v) }), sized(k, m))
	}
}

// E28Lists: submatrices by index lists.
func E28Lists(g []int) {
	rep, m, n := g[0], g[1], g[2]
	A := mk(rep, input(rep, "a", m, n))
	r, s, c := sym.Int("r0"), sym.Int("r1"), sym.Int("c0")
	one := []int{0}
	d := zeros(2, 2)
	why := []cause{outside(r, m), outside(s, m), outside(c, n)}
	null, empty := plain(true, linear.EINV), plain(true, linear.ENODAT)
	switch sym.IntIn("what", 0, 9) {
	case 0:
		explained(done(func() { linear.SubMatrix(A, []int{r, s}, []int{c}) }), why...)
	case 1:
		explained(done(func() { linear.CopySubMatrixFromIndices(A, []int{r, s}, []int{c}, d) }), why...)
	case 2:
		explained(done(func() { linear.SubMatrix(A, nil, one) }), null)
	case 3:
		explained(done(func() { linear.SubMatrix(A, one, nil) }), null)
	case 4:
		explained(done(func() { linear.SubMatrix(A, []int{}, one) }), empty)
	case 5:
		explained(done(func() { linear.SubMatrix(A, one, []int{}) }), empty)
	case 6:
		explained(done(func() { linear.CopySubMatrixFromIndices(A, nil, one, d) }), null)
	case 7:
		explained(done(func() { linear.CopySubMatrixFromIndices(A, one, nil, d) }), null)
	case 8:
		explained(done(func() { linear.CopySubMatrixFromIndices(A, []int{}, one, d) }), empty)
	case 9:
		explained(done(func() { linear.CopySubMatrixFromIndices(A, one, []int{}, d) }), empty)
	}
}

// E28Vector: vector operations.
func E28Vector(g []int) {
	op, n := g[0], g[1]
	v := mkv(dense, sym.F64s("a", n))
	own := v.(*linear.ArrayRealVector)
	i, j := sym.Int("i"), sym.Int("j")
	k := 0
	var y []float64
	var w linear.RealVector
	if op >= 3 && op <= 4 || op >= 10 && op <= 18 {
		k = sym.IntIn("length", 0, n+2)
		y = make([]float64, k)
		w = mkv([]int{dense, foreign}[sym.IntIn("foreign", 0, 1)], y)
	}
	dim := sized(k, n)
	bounds := []cause{outside(i, n), outside(j, n), reversed(i, j)}
	switch op {
	case 0:
		explained(done(func() { v.At(i) }), outside(i, n))
	case 1:
		explained(done(func() { v.SetEntry(i, 1) }), outside(i, n))
	case 2:
		explained(done(func() { v.AddToEntry(i, 1) }), outside(i, n))
	case 3:
		sym.Assume(k > 0)
		explained(done(func() { v.SetSubVector(i, w) }), outside(i, n), beyond(i, k, n))
	case 4:
		sym.Assume(k > 0)
		explained(done(func() { own.SetSubVectorWithSlice(i, y) }), outside(i, n), beyond(i, k, n))
	case 5:
		sym.Assume(j != 0)
		late := outside(i, n)
		if in(i, n) && j > 0 {
			late = cause{holds: j > n-i, status: linear.ERANGE, arg: float64(i + j - 1), lo: 0, hi: float64(n - 1)}
		}
		explained(done(func() { v.SubVector(i, j) }), late, cause{holds: j < 0, status: linear.ENOTPOS, arg: float64(j), lo: 0})
	case 6:
		explained(done(func() { v.WalkInDefaultOrderBounded(&vnop{}, i, j) }), bounds...)
	case 7:
		explained(done(func() { v.WalkInOptimizedOrderBounded(&vnop{}, i, j) }), bounds...)
	case 8:
		explained(done(func() { v.WalkInUpdateDefaultOrderBounded(&vover{}, i, j) }), bounds...)
	case 9:
		explained(done(func() { v.WalkInUpdateOptimizedOrderBounded(&vover{}, i, j) }), bounds...)
	case 10:
		explained(done(func() { v.Add(w) }), dim)
	case 11:
		explained(done(func() { v.Subtract(w) }), dim)
	case 12:
		explained(done(func() { v.EBEMultiply(w) }), dim)
	case 13:
		explained(done(func() { v.EBEDivide(w) }), dim)
	case 14:
		explained(done(func() { v.Combine(2, 3, w) }), dim)
	case 15:
		explained(done(func() { v.CopyFrom(w) }), dim)
	case 16:
		explained(done(func() { linear.VecDotProduct(v, w) }), dim)
	case 17:
		u := sym.IntIn("which", 0, 3)
		explained(done(func() {
			switch u {
			case 0:
				linear.VecDistance(v, w)
			case 1:
				linear.VecL1Distance(v, w)
			case 2:
				linear.VecLInfDistance(v, w)
			default:
				linear.VecCosine(v, w)
			}
		}), dim, plain(u == 3, linear.EARITH))
	case 18:
		sym.Assume(k == n)
		x := sym.F64s("b", n)
		x[0] = 1
		z := mkv(dense, make([]float64, n))
		u := mkv(dense, x)
		explained(done(func() { linear.VecCosine(z, u) }), plain(true, linear.EARITH))
		explained(done(func() { linear.VecCosine(u, z) }), plain(true, linear.EARITH))
	case 19:
		z := mkv(dense, make([]float64, n))
		if sym.IntIn("negative", 0, 1) == 1 {
			z.SetEntry(0, negative0())
		}
		zo := z.(*linear.ArrayRealVector)
		explained(done(func() { zo.Unitize() }), plain(true, linear.EARITH))
		explained(done(func() { linear.Projection(v, z) }), plain(true, linear.EARITH))
	case 20:
		null := plain(true, linear.EINV)
		explained(func() error { _, err := linear.NewArrayRealVectorFromSlice(nil); return err }, null)
		explained(func() error { _, err := linear.NewArrayRealVector(nil, true); return err }, null)
		explained(func() error { _, err := linear.NewArrayRealVector(nil, false); return err }, null)
		explained(func() error { _, err := linear.NewArrayRealVectorCopy(nil); return err }, null)
		explained(func() error { _, err := linear.NewArrayRealVectorFromTwoArrayRealVector(own, nil); return err }, null)
		explained(func() error { _, err := linear.NewArrayRealVectorFromTwoRealVector(nil, v); return err }, null)
	}
}

func negative0() float64 { z := 0.; return -z }

// E28Dims: constructors by dimension.
func E28Dims(g []int) {
	r, c := sym.Int("rows"), sym.Int("columns")
	sym.Assume(r <= 2)
	sym.Assume(c <= 2)
	sym.Assume(r > -1000000000)
	sym.Assume(c > -1000000000)
	if g[0] == 2 || g[0] == 4 {
		sym.Assume(r >= -3)
		sym.Assume(c >= -3)
		r, c = split(r, -3, 2), split(c, -3, 2)
	}
	sym.Assume(r < 1 || c < 1)
	why := []cause{{holds: r < 1, status: linear.ENOTSPOS, arg: float64(r), lo: 0}, {holds: c < 1, status: linear.ENOTSPOS, arg: float64(c), lo: 0}}
	if g[0] == 3 || g[0] == 4 {
		sym.Assume(r == c)
	}
	explained(func() (err error) {
		switch g[0] {
		case 0:
			_, err = linear.NewArray2DRowRealMatrix(r, c)
		case 1:
			_, err = linear.NewBlockRealMatrix(r, c)
		case 2:
			_, err = linear.NewRealMatrixWithDimension(r, c)
		case 3:
			_, err = linear.NewDiagonalMatrixWithDimension(r)
		case 4:
			_, err = linear.NewRealIdentityMatrix(r)
		case 5:
			_, err = linear.NewBlockRealMatrixFromBlockData(r, c, [][]float64{{1}})
		}
		return
	}, why...)
}

// E28Data: constructors from data.
func E28Data(g []int) {
	make1 := func(d [][]float64) error {
		var err error
		switch g[0] {
		case 0:
			_, err = linear.NewArray2DRowRealMatrixFromSlices(d, true)
		case 1:
			_, err = linear.NewArray2DRowRealMatrixFromSlices(d, false)
		case 2:
			_, err = linear.NewBlockRealMatrixFromSlices(d)
		case 3:
			_, err = linear.NewRealMatrixFromSlices(d)
		}
		return err
	}
	null, empty := plain(true, linear.EINV), plain(true, linear.ENODAT)
	if g[0] < 4 {
		explained(func() error { return make1(nil) }, null, empty)
		explained(func() error { return make1([][]float64{}) }, empty)
		explained(func() error { return make1([][]float64{{}}) }, empty, cause{holds: true, status: linear.ENOTSPOS, arg: 0, lo: 0})
		k, i := sym.IntIn("length", 0, 4), sym.IntIn("row", 1, 2)
		d := zeros(3, 2)
		d[i] = make([]float64, k)
		explained(func() error { return make1(d) }, sized(k, 2))
		return
	}
	switch g[0] {
	case 4:
		explained(func() error { _, err := linear.NewDiagonalMatrix(nil, true); return err }, null)
		explained(func() error { _, err := linear.NewDiagonalMatrix(nil, false); return err }, null)
		explained(func() error { _, err := linear.NewDiagonalMatrixFromSlice(nil); return err }, null)
		explained(func() error { _, err := linear.NewRealDiagonalMatrix(nil); return err }, null)
	case 5:
		explained(func() error { _, err := linear.NewArray2DRowRealMatrixFromSlice(nil); return err }, null)
	case 6:
		k := sym.IntIn("length", 0, 8)
		explained(func() error {
			_, err := linear.NewBlockRealMatrixFromBlockData(2, 3, [][]float64{make([]float64, k)})
			return err
		}, sized(k, 6))
		explained(func() error {
			_, err := linear.NewBlockRealMatrixFromBlockData(53, 1, [][]float64{make([]float64, 52), make([]float64, k)})
			return err
		}, sized(k, 1))
		k = sym.IntIn("blocks", 0, 7)
		explained(func() error {
			d := zeros(k, 1)
			for i := range d {
				d[i] = make([]float64, []int{2704, 52, 52, 1, 1, 1, 1}[i])
			}
			_, err := linear.NewBlockRealMatrixFromBlockData(53, 53, d)
			return err
		}, sized(k, 4))
	}
}

// E28Square: what needs a square matrix.
func E28Square(g []int) {
	op, rep := g[0], g[1]
	m, n := sym.IntIn("rows", 1, 4), sym.IntIn("columns", 1, 4)
	sym.Assume(m != n)
	A := mk(rep, input(rep, "a", m, n))
	explained(func() (err error) {
		switch op {
		case 0:
			_, err = linear.NewLUDecomposition(A)
		case 1:
			_, err = linear.NewDefaultCholeskyDecomposition(A)
		case 2:
			_, err = linear.NewTriDiagonalTransformer(A)
		case 3:
			_, err = linear.NewHessenbergTransformer(A)
		case 4:
			_, err = linear.NewSchurTransformer(A)
		case 5:
			A.Trace()
		case 6:
			linear.Power(A, 2)
		case 7:
			_, err = linear.NewLUDecompositionWithThreshold(A, 1)
		case 8:
			_, err = linear.NewRectangularCholeskyDecomposition(A)
		case 9:
			_, err = linear.NewRectangularCholeskyDecompositionWithThreshold(A, 1)
		case 10:
			_, err = linear.NewEigenDecomposition(A)
		}
		return
	}, nonsquare(m, n))
}

// E28Power: negative exponents.
func E28Power(g []int) {
	rep, m, n := g[0], g[1], g[2]
	A := mk(rep, input(rep, "a", m, n))
	p := sym.Int("p")
	if m == n {
		sym.Assume(p < 0)
	}
	explained(done(func() { linear.Power(A, p) }), cause{holds: p < 0, status: linear.ENOTPOS, arg: float64(p), lo: 0}, nonsquare(m, n))
}

func solvers(kind int, A linear.RealMatrix) linear.DecompositionSolver {
	switch kind {
	case 0:
		d, err := linear.NewLUDecomposition(A)
		if err != nil {
			panic(err)
		}
		return d.Solver()
	case 1:
		d, err := linear.NewDefaultCholeskyDecomposition(A)
		if err != nil {
			panic(err)
		}
		return d.Solver()
	case 2:
		d, err := linear.NewQRDecomposition(A)
		if err != nil {
			panic(err)
		}
		return d.Solver()
	case 3:
		d, err := linear.NewRRQRDecomposition(A)
		if err != nil {
			panic(err)
		}
		return d.Solver()
	case 4:
		d, err := linear.NewEigenDecomposition(A)
		if err != nil {
			panic(err)
		}
		return d.Solver()
	}
	d, err := linear.NewSingularValueDecomposition(A)
	if err != nil {
		panic(err)
	}
	return d.Solver()
}

// E28Solver: right-hand sides of the wrong size.
func E28Solver(g []int) {
	kind, rep, n := g[0], g[1], g[2]
	s := solvers(kind, mk(rep, spd(n, 1)))
	k := sym.IntIn("length", 1, 2*n)
	brep := []int{dense, block, foreign}[sym.IntIn("rep", 0, 2)]
	explained(done(func() { s.SolveVector(mkv(brep, make([]float64, k))) }), sized(k, n))
	explained(done(func() { s.SolveMatrix(mk(brep, zeros(k, 2))) }), sized(k, n))
}

// E28Singular: solving with a singular matrix.
func E28Singular(g []int) {
	kind, n := g[0], g[1]
	sing := plain(true, linear.ESING)
	if kind == 4 {
		d := sym.F64s("d", n)
		i := sym.IntIn("where", 0, n-1)
		d[i] = 0
		A, _ := linear.NewDiagonalMatrix(d, true)
		explained(func() (err error) { A.Inverse(); return }, sing)
		explained(func() (err error) { A.InverseWithThreshold(0); return }, sing)
		return
	}
	x := zeros(n, n)
	if kind == 3 {
		// symmetric of rank one
		u := sym.F64s("u", n)
		sym.Size(u[0], 1, 4)
		sym.Assume(u[0] != 0)
		for i := 1; i < n; i++ {
			sym.Within(u[i], 4)
		}
		for i := range x {
			for j := range x {
				x[i][j] = u[i] * u[j]
			}
		}
	} else {
		x = sym.Mat("a", n, n)
		if kind == 0 {
			f := sym.F64("f")
			sym.Within(f, 4)
			for j := range x {
				sym.Size(x[0][j], 1, 4)
				x[n-1][j] = f * x[0][j]
			}
		} else {
			// the thresholds are zero: exactly a zero column
			j := sym.IntIn("where", 0, n-1)
			for i := range x {
				sym.Within(x[i][1-j%2], 4)
				x[i][j] = 0
			}
		}
	}
	s := solvers([]int{0, 2, 3, 4}[kind], mk(dense, x))
	b := sym.F64s("b", n)
	explained(done(func() { s.SolveVector(mkv(dense, b)) }), sing)
	explained(done(func() { s.SolveMatrix(mk(dense, transposed([][]float64{b}))) }), sing)
	explained(done(func() { s.Inverse() }), sing)
}

// E28Cholesky: matrices that are not symmetric or not positive definite.
func E28Cholesky(g []int) {
	rep, what, n := g[0], g[1], g[2]
	if what < 2 {
		x := symmetric(rep, "a", n)
		t := 1e-10
		var err error
		A := mk(rep, clone(x))
		if what == 1 {
			t = sym.F64("t")
			sym.Assume(t >= 0)
			_, err = linear.NewCholeskyDecomposition(A, 1e-15, t)
		} else {
			_, err = linear.NewDefaultCholeskyDecomposition(A)
		}
		bad, value := definite(x, t)
		sym.Assert((err != nil) == (bad >= 0), "refused exactly when a pivot is not above the threshold")
		if err == nil || bad < 0 {
			return
		}
		sym.Cover("refused")
		sym.Assert(status(err) == linear.ENSMALL, "status of a matrix that is not positive definite")
		e, ok := err.(interface {
			Row() int
			Column() int
			Threshold() float64
			Min() float64
			Argument() float64
			IsBoundAllowed() bool
		})
		sym.Assert(ok, "details of the refusal")
		if !ok {
			return
		}
		sym.Assert(e.Row() == bad && e.Column() == bad, "offending pivot")
		sym.Near(e.Argument(), value, 1e-9, "value of the offending pivot")
		sym.Near(e.Threshold(), t, 1e-15, "threshold of the refusal")
		sym.Near(e.Min(), t, 1e-15, "least value of the refusal")
		sym.Assert(!e.IsBoundAllowed(), "the threshold itself is refused")
		return
	}
	x := spd(n, what)
	i := sym.IntIn("i", 0, n-1)
	j := sym.IntIn("j", 0, n-1)
	sym.Assume(i != j)
	v := sym.F64("v")
	sym.Size(v, 5, 10)
	sym.Assume(v != 0)
	x[i][j] = v
	t := 1e-15
	var err error
	if what == 3 {
		t = sym.F64("t")
		sym.Assume(t >= 0)
		sym.Assume(t <= 0.25)
		_, err = linear.NewCholeskyDecomposition(mk(rep, x), t, 1e-10)
	} else {
		_, err = linear.NewDefaultCholeskyDecomposition(mk(rep, x))
	}
	sym.Assert(status(err) == linear.ESYMM, "status of a matrix that is not symmetric")
	e, ok := err.(interface {
		Row() int
		Column() int
		Threshold() float64
	})
	sym.Assert(ok, "details of the refusal")
	if ok {
		sym.Cover("refused")
		sym.Assert(e.Row() == i && e.Column() == j || e.Row() == j && e.Column() == i, "position of the asymmetry")
		sym.Near(e.Threshold(), t, 1e-18, "threshold of the refusal")
	}
}

// E28Eigen: refusals of the spectral decompositions.
func E28Eigen(g []int) {
	switch g[0] {
	case 0:
		// the norm of a triangular, not symmetric matrix is too small
		t := sym.F64("t")
		sym.Assume(t != 0)
		sym.Within(t, 1e-13)
		x := zeros(2, 2)
		x[0][1] = t
		explained(func() error { _, err := linear.NewEigenDecomposition(mk(dense, x)); return err }, plain(true, linear.EARITH))
	case 1:
		s, m := sym.F64("s"), sym.F64("m")
		sym.Size(m, 1, 4)
		sym.Assume(m != 0)
		sym.Within(s, 4)
		d, err := linear.NewEigenDecomposition(mk(dense, [][]float64{{s, m}, {-m, s}}))
		sym.Assert(err == nil, "decomposition refused")
		if err != nil {
			return
		}
		explained(done(func() { d.Solver() }), plain(true, linear.EUNSUP))
		explained(done(func() { d.SquareRoot() }), plain(true, linear.EUNSUP))
	case 2:
		p, q := sym.F64("p"), sym.F64("q")
		sym.Size(p, 1, 4)
		sym.Assume(p != 0)
		sym.Within(q, 4)
		sym.Assume(q <= 0)
		d, err := linear.NewEigenDecomposition(mk(diag, [][]float64{{p, 0}, {0, q}}))
		sym.Assert(err == nil, "decomposition refused")
		if err != nil {
			return
		}
		explained(done(func() { d.SquareRoot() }), plain(true, linear.EUNSUP))
	case 3:
		p, q, c := sym.F64("p"), sym.F64("q"), sym.F64("c")
		sym.Size(p, 2, 4)
		sym.Size(q, 0.5, 1)
		sym.Size(c, 5, 9)
		sym.Assume(p != 0)
		sym.Assume(c > 0)
		d, err := linear.NewSingularValueDecomposition(mk(diag, [][]float64{{p, 0}, {0, q}}))
		sym.Assert(err == nil, "decomposition refused")
		if err != nil {
			return
		}
		if p < 0 {
			p = -p
		}
		pp, e := sym.Panics(func() { d.Covariance(c) })
		sym.Assert(pp && status(e) == linear.ENBIG, "status of a cutoff that is too large")
		x, ok := e.(number)
		y, ok2 := e.(most)
		sym.Assert(ok && ok2, "details of the refusal")
		if ok && ok2 {
			sym.Cover("refused")
			sym.Near(x.Argument(), c, 1e-12, "refused cutoff")
			sym.Near(y.Max(), p, 1e-12, "largest cutoff")
		}
	}
}

// graded checks a solver on matrices and right-hand sides of several scales.
func graded(kind, n int) {
	x := spd(n, 2)
	if kind != 1 && kind != 4 {
		x = dominant(n, coprime(n))
	}
	f := math.Ldexp(1, pick("matrix", []int{-20, 0, 30}))
	t := math.Ldexp(1, pick("right-hand side", []int{-80, -45, 0, 40}))
	b := rhs(dense, n, 2)
	s := solvers(kind, mk(dense, scaled(x, f)))
	sym.Assert(s.IsNonSingular(), "a regular matrix")
	X := entries(s.SolveMatrix(mk(dense, scaled(b, t))))
	solvedm(x, mk(dense, scaled(X, f/t)), b, 1e-9)
	v := transposed(scaled(b, t))[1]
	for _, rep := range []int{dense, foreign} {
		X = column(s.SolveVector(mkv(rep, clonev(v))).ToArray())
		solved(x, mkv(dense, transposed(scaled(X, f/t))[0]), transposed(b)[1], 1e-9)
	}
	X = entries(s.Inverse())
	solvedm(x, mk(dense, scaled(X, f)), eye(n), 1e-9)
}
