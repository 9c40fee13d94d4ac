package h

import (
	"math"

	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p10() []Harness {
	how := make([]int, 12)
	for i := range how {
		how[i] = i
	}
	return []Harness{
		{Prop: "P10", Name: "D10Store", Mode: "fp", F: D10Store, Quick: append(with(cross(how), a(2), a(3)), with(l(a(0), a(3), a(9)), a(5))...), Thorough: with(cross(how), a(5)), Bound: "one off-diagonal value, any float64 except the smallest subnormals, at every off-diagonal position, by every way of storing"},
		{Prop: "P10", Name: "D10Accept", Mode: "fp", F: D10Accept, Quick: with(cross(how), a(2), a(3)), Thorough: with(cross(how), a(5)), Bound: "zeros of either sign off the diagonal, any value on it"},
		{Prop: "P10", Name: "D10Singular", Mode: "fp", F: D10Singular, Quick: l(a(1), a(2), a(3), a(4)), Thorough: l(a(6)), Bound: "all diagonal entries and the threshold symbolic"},
		{Prop: "P10", Name: "D10Inverse", Mode: "fp", F: D10Inverse, Quick: l(a(1), a(2), a(3), a(4)), Thorough: l(a(6)), Bound: "all diagonal entries symbolic"},
		{Prop: "P10", Name: "D10Products", Mode: "real", F: D10Products, Quick: with(cross([]int{dense, block, diag, foreign}), a(1, 1), a(1, 2), a(2, 1), a(2, 2), a(3, 2), a(4, 3), a(5, 1), a(6, 2), a(8, 1)), Thorough: with(cross([]int{dense, block}), a(5, 4)), Bound: "all entries of both operands symbolic, over the reals"},
		{Prop: "P10", Name: "D10Sub", Mode: "fp", F: D10Sub, Quick: l(a(1), a(2), a(3), a(4), a(5)), Thorough: l(a(6), a(7)), Bound: "all diagonal entries symbolic, every contiguous range of rows and columns"},
		{Prop: "P10", Name: "D10Apply", Mode: "real", F: D10Apply, Quick: cross(sizes(1, 9, 16)), Thorough: l(a(7)), Bound: "all entries symbolic, over the reals"},
		{Prop: "P10", Name: "D10Read", Mode: "fp", F: D10Read, Quick: cross(sizes(1, 9, 16, 17)), Thorough: l(a(10)), Bound: "all diagonal entries symbolic"},
		{Prop: "P10", Name: "D10Walk", Mode: "fp", F: D10Walk, Quick: cross([]int{0, 1, 2, 3, 4, 5}, sizes(1, 4)), Thorough: cross([]int{0, 1, 2, 3, 4, 5}, []int{6}), Bound: "every bounded walk; the diagonal and the values stored on it symbolic"},
		{Prop: "P10", Name: "D10Same", Mode: "fp", F: D10Same, Quick: cross(sizes(1, 6)), Thorough: cross([]int{9}), Bound: "all diagonal entries, the operand's, the scalar and the stored values symbolic"},
		{Prop: "P10", Name: "D10Sum", Mode: "fp", F: D10Sum, Quick: cross([]int{0, 1}, []int{dense, block, foreign}, []int{2, 3}), Bound: "one off-diagonal entry of the operand nonzero"},
	}
}

// store puts the value v at (r,c), and d at (r,r) or (c,c) where the whole
// line is stored, in one of twelve ways. It reports whether it was refused
// and which line was replaced (-1: the entry only).
func store(A linear.RealMatrix, how, n, r, c int, v float64, line []float64) (func(), int) {
	row, col := make([]float64, n), make([]float64, n)
	copy(row, line)
	row[r], row[c] = line[r], v
	copy(col, line)
	col[c], col[r] = line[c], v
	m := zeros(n, 1)
	for i := range m {
		m[i][0] = col[i]
	}
	switch how {
	case 0:
		return func() { A.SetEntry(r, c, v) }, -1
	case 1:
		return func() { A.AddToEntry(r, c, v) }, -1
	case 2:
		return func() { A.SetRow(r, row) }, r
	case 3:
		return func() { A.SetColumn(c, col) }, c
	case 4:
		return func() { A.SetRowMatrix(r, mk(dense, [][]float64{row})) }, r
	case 5:
		return func() { A.SetRowMatrix(r, mk(block, [][]float64{row})) }, r
	case 6:
		return func() { A.SetColumnMatrix(c, mk(dense, m)) }, c
	case 7:
		return func() { A.SetColumnMatrix(c, mk(block, m)) }, c
	case 8:
		return func() { A.SetRowVector(r, mkv(foreign, row)) }, r
	case 9:
		return func() { A.SetColumnVector(c, mkv(dense, col)) }, c
	case 10: // the 1 by n or n by 1 submatrix
		return func() { A.SetSubMatrix([][]float64{row}, r, 0) }, r
	}
	return func() { A.SetSubMatrix(m, 0, c) }, c
}

// D10Store: a nonzero value off the diagonal is refused.
func D10Store(g []int) {
	how, n := g[0], g[1]
	x := input(diag, "a", n, n)
	A := mk(diag, clone(x))
	r, c := sym.IntIn("row", 0, n-1), sym.IntIn("column", 0, n-1)
	sym.Assume(r != c)
	v := sym.F64("v")
	sym.Assume(!(v > -1e-300 && v < 1e-300))
	line := make([]float64, n)
	d := sym.F64("d")
	line[r], line[c] = d, d
	f, _ := store(A, how, n, r, c, v, line)
	p := refused(f)
	sym.Assert(p, "a nonzero off-diagonal value is accepted")
	same(A, x, "matrix after a refused update")
}

// D10Accept: zeros off the diagonal are accepted.
func D10Accept(g []int) {
	how, n := g[0], g[1]
	x := input(diag, "a", n, n)
	A := mk(diag, clone(x))
	r, c := sym.IntIn("row", 0, n-1), sym.IntIn("column", 0, n-1)
	sym.Assume(r != c)
	v := sym.F64("v")
	sym.Assume(v == 0)
	line := make([]float64, n)
	d := sym.F64("d")
	line[r], line[c] = d, d
	if how == 0 || how == 1 {
		line = make([]float64, n)
	}
	f, k := store(A, how, n, r, c, v, line)
	p := refused(f)
	sym.Assert(!p, "a zero off the diagonal is refused")
	if k >= 0 {
		x[k][k] = d
	}
	same(A, x, "matrix after storing zeros off the diagonal")
	u := sym.F64("u")
	A.MultiplyEntry(r, c, u)
	same(A, x, "matrix after multiplying an off-diagonal entry")
}

// D10Singular: the singularity test.
func D10Singular(g []int) {
	n := g[0]
	x := input(diag, "a", n, n)
	t := sym.F64("t")
	sym.Assume(t >= 0)
	want := false
	for i := range x {
		d := math.Abs(x[i][i])
		sym.Assume(!(d > 0 && d < 1e-300))
		want = want || d <= t
	}
	A := mk(diag, clone(x)).(*linear.DiagonalMatrix)
	sym.Assert(A.IsSingular(t) == want, "wrong verdict on singularity")
	var inv *linear.DiagonalMatrix
	p := refused(func() { inv = A.InverseWithThreshold(t) })
	sym.Assert(p == want, "inversion is refused exactly for singular matrices")
	if !p {
		sym.Cover("inverted")
		r := zeros(n, n)
		for i := range r {
			r[i][i] = 1 / x[i][i]
		}
		same(inv, r, "inverse")
	} else {
		sym.Cover("refused")
	}
	same(A, x, "matrix after the test")
}

// D10Inverse: inversion with the default threshold.
func D10Inverse(g []int) {
	n := g[0]
	x := input(diag, "a", n, n)
	want := false
	for i := range x {
		d := math.Abs(x[i][i])
		sym.Assume(!(d > 0 && d < 1e-300))
		want = want || d == 0
	}
	A := mk(diag, clone(x)).(*linear.DiagonalMatrix)
	var inv *linear.DiagonalMatrix
	p := refused(func() { inv = A.Inverse() })
	sym.Assert(p == want, "inversion is refused exactly for singular matrices")
	if !p {
		r := zeros(n, n)
		for i := range r {
			r[i][i] = 1 / x[i][i]
		}
		same(inv, r, "inverse")
		scribblem(inv, diag)
	}
	same(A, x, "matrix after inversion")
}

func ordinary(d [][]float64) {
	for i := range d {
		for j := range d[i] {
			sym.Assume(sym.Real(d[i][j]))
		}
	}
}

// agree asserts numerical equality (NaN = NaN, 0 = -0).
func agree(m linear.RealMatrix, d [][]float64, msg string) {
	sym.Assert(m.RowDimension() == len(d) && m.ColumnDimension() == len(d[0]), msg+": shape")
	for i := range d {
		for j := range d[i] {
			x := m.At(i, j)
			sym.Assert(x == d[i][j], msg)
		}
	}
}

func agreev(v linear.RealVector, d []float64, msg string) {
	sym.Assert(v.Dimension() == len(d), msg+": dimension")
	for i := range d {
		x := v.At(i)
		sym.Assert(x == d[i], msg)
	}
}

// D10Products: products with a diagonal matrix.
func D10Products(g []int) {
	srep, n, k := g[0], g[1], g[2]
	if srep == diag {
		k = n
	}
	x := input(diag, "a", n, n)
	y := input(srep, "b", n, k)
	ordinary(x)
	ordinary(y)
	A, B := mk(diag, clone(x)), mk(srep, clone(y))
	want := zeros(n, k)
	for i := range want {
		for j := range want[i] {
			want[i][j] = x[i][i] * y[i][j]
		}
	}
	agree(A.Multiply(B), want, "product with a diagonal matrix on the left")
	z := transposed(y)
	C := mk(srep, clone(z))
	want = zeros(k, n)
	for i := range want {
		for j := range want[i] {
			want[i][j] = z[i][j] * x[j][j]
		}
	}
	agree(A.PreMultiplyMatrix(C), want, "product with a diagonal matrix on the right")
	agree(C.Multiply(A), want, "product with a diagonal matrix on the right")
	same(A, x, "diagonal operand")
	same(B, y, "operand")
	same(C, z, "operand")
}

// D10Apply: a diagonal matrix applied to vectors.
func D10Apply(g []int) {
	n := g[0]
	x := input(diag, "a", n, n)
	y := sym.F64s("v", n)
	ordinary(x)
	ordinary([][]float64{y})
	A := mk(diag, clone(x))
	want := make([]float64, n)
	for i := range want {
		want[i] = x[i][i] * y[i]
	}
	s := clonev(y)
	agreev(mkv(dense, A.Operate(s)), want, "slice from the right")
	agreev(mkv(dense, A.PreMultiply(s)), want, "slice from the left")
	sames(s, y, "operand")
	for _, rep := range []int{dense, foreign} {
		v := mkv(rep, clonev(y))
		agreev(A.OperateVector(v), want, "vector from the right")
		agreev(A.PreMultiplyVector(v), want, "vector from the left")
		samev(v, y, "operand")
	}
	same(A, x, "matrix")
}

// D10Read: reads, walks and derived matrices show a diagonal matrix.
func D10Read(g []int) {
	n := g[0]
	x := input(diag, "a", n, n)
	A := mk(diag, clone(x))
	same(A, x, "entry")
	samem(A.Data(), x, "data")
	T := A.Transpose()
	same(T, x, "transpose")
	same(A.Copy(), x, "copy")
	sames(A.(*linear.DiagonalMatrix).DataRef(), diagonal(x), "diagonal")
	for i := range x {
		sames(A.RowAt(i), x[i], "row")
		sames(A.ColumnAt(i), x[i], "column")
	}
	v := &keep{}
	A.WalkInOptimizedOrder(v)
	v.check(x, 0, n-1, 0, n-1)
	same(A, x, "entry after reading")
	// an updating walk that stores something off the diagonal
	if n > 1 {
		w := &change{}
		w.w = clone(x)
		w.w[0][n-1] = 1
		p := refused(func() { A.WalkInUpdateRowOrder(w) })
		sym.Assert(p, "a walk stores a nonzero value off the diagonal")
		sym.Same(A.At(0, n-1), 0, "off-diagonal entry")
	}
	I, err := linear.NewRealIdentityMatrix(n)
	sym.Assert(err == nil, "identity refused")
	same(I, eye(n), "identity")
}

func diagonal(x [][]float64) []float64 {
	r := make([]float64, len(x))
	for i := range r {
		r[i] = x[i][i]
	}
	return r
}

// D10Sum: sums that cannot be stored are refused, or hold the dense result.
func D10Sum(g []int) {
	op, srep, n := g[0], g[1], g[2]
	x := input(diag, "a", n, n)
	y := sym.Mat("b", n, n)
	r, c := sym.IntIn("row", 0, n-1), sym.IntIn("column", 0, n-1)
	sym.Assume(r != c)
	for i := range y {
		for j := range y[i] {
			if i != j && (i != r || j != c) {
				y[i][j] = 0
			}
		}
	}
	sym.Assume(!(y[r][c] > -1e-300 && y[r][c] < 1e-300))
	A, B := mk(diag, clone(x)), mk(srep, clone(y))
	var R linear.RealMatrix
	p := refused(func() {
		if op == 0 {
			R = A.Add(B)
		} else {
			R = A.Subtract(B)
		}
	})
	if !p {
		want := zeros(n, n)
		for i := range want {
			for j := range want[i] {
				want[i][j] = plus(op, x[i][j], y[i][j])
			}
		}
		same(R, want, "sum with a matrix that is not diagonal")
	}
	same(A, x, "diagonal operand")
	same(B, y, "operand")
}

// D10Sub: a submatrix is that of the dense matrix, or refused; one that is
// diagonal by its position is not refused.
func D10Sub(g []int) {
	n := g[0]
	x := input(diag, "a", n, n)
	A := mk(diag, clone(x))
	r, s := sym.IntIn("r0", 0, n-1), sym.IntIn("r1", 0, n-1)
	c, d := sym.IntIn("c0", 0, n-1), sym.IntIn("c1", 0, n-1)
	sym.Assume(r <= s && c <= d)
	var S linear.RealMatrix
	p := refused(func() { S = A.SubMatrix(r, s, c, d) })
	sym.Assert(!p || r != c || s != d, "a principal submatrix is refused")
	if !p {
		y := zeros(s-r+1, d-c+1)
		for i := range y {
			copy(y[i], x[r+i][c:])
		}
		if r == c && s == d {
			same(S, y, "submatrix")
			return
		}
		// values off the diagonal of the result read zero
		for i := range y {
			for _, v := range y[i] {
				sym.Assume(!(v > 0 && v < 1e-300 || v < 0 && v > -1e-300))
				sym.Assume(v == v)
			}
		}
		agree(S, y, "submatrix")
	}
	same(A, x, "matrix after taking a submatrix")
}

// D10Walk: walks over a part of a diagonal matrix.
func D10Walk(g []int) {
	kind, n := g[0], g[1]
	x := input(diag, "a", n, n)
	r, c := sym.IntIn("r0", 0, n-1), sym.IntIn("c0", 0, n-1)
	s, d := sym.IntIn("r1", r, n-1), sym.IntIn("c1", c, n-1)
	walk(mk(diag, clone(x)), diag, kind, x, true, r, s, c, d, false)
	walk(mk(diag, clone(x)), diag, kind, x, false, 0, n-1, 0, n-1, false)
}

// D10Same: operations within the diagonal matrices.
func D10Same(g []int) {
	n := g[0]
	x, y := input(diag, "a", n, n), input(diag, "b", n, n)
	A, B := mk(diag, clone(x)), mk(diag, clone(y))
	sum, less := zeros(n, n), zeros(n, n)
	for i := range x {
		sum[i][i], less[i][i] = x[i][i]+y[i][i], x[i][i]-y[i][i]
	}
	same(A.Add(B), sum, "sum of diagonal matrices")
	same(A.Subtract(B), less, "difference of diagonal matrices")
	trace := 0.
	for i := range x {
		trace += x[i][i]
	}
	sym.Same(A.Trace(), trace, "trace")
	i := sym.IntIn("i", 0, n-1)
	u, v := sym.F64("u"), sym.F64("v")
	w := clone(x)
	A.AddToEntry(i, i, u)
	w[i][i] += u
	same(A, w, "matrix after adding to an entry")
	A.MultiplyEntry(i, i, v)
	w[i][i] *= v
	same(A, w, "matrix after multiplying an entry")
	A.SetEntry(i, i, u)
	w[i][i] = u
	same(A, w, "matrix after storing an entry")
	D := mk(dense, clone(w))
	e := true
	for k := range w {
		e = both(e, w[k][k] == w[k][k])
	}
	sym.Assert(A.Equals(D) == e && D.Equals(A) == e, "equality with the dense matrix of the same entries")
	same(B, y, "operand")
}
