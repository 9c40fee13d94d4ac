package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

// Matrix representations.
const (
	dense = iota
	block
	diag
	foreign // a RealMatrix that is none of the library's types
)

// vec is a RealVector that is not the library's own type.
type vec struct{ linear.RealVector }

// mat is a RealMatrix that is not one of the library's own types.
type mat struct{ linear.RealMatrix }

func mk(rep int, d [][]float64) linear.RealMatrix {
	switch rep {
	case block:
		m, err := linear.NewBlockRealMatrixFromSlices(d)
		if err != nil {
			panic(err)
		}
		return m
	case diag:
		x := make([]float64, len(d))
		for i := range x {
			x[i] = d[i][i]
		}
		m, err := linear.NewDiagonalMatrixFromSlice(x)
		if err != nil {
			panic(err)
		}
		return m
	case foreign:
		return mat{mk(dense, d)}
	}
	m, err := linear.NewArray2DRowRealMatrixFromSlices(d, true)
	if err != nil {
		panic(err)
	}
	return m
}

func mkv(rep int, d []float64) linear.RealVector {
	v, err := linear.NewArrayRealVectorFromSlice(d)
	if err != nil {
		panic(err)
	}
	if rep == foreign {
		return vec{v}
	}
	return v
}

// input gives the entries of a matrix of the given representation.
func input(rep int, name string, m, n int) [][]float64 {
	if rep != diag {
		return sym.Mat(name, m, n)
	}
	d := zeros(m, n)
	for i, x := range sym.F64s(name, m) {
		d[i][i] = x
	}
	return d
}

func zeros(m, n int) [][]float64 {
	d := make([][]float64, m)
	for i := range d {
		d[i] = make([]float64, n)
	}
	return d
}

func clone(d [][]float64) [][]float64 {
	r := make([][]float64, len(d))
	for i := range d {
		r[i] = append([]float64{}, d[i]...)
	}
	return r
}

func clonev(d []float64) []float64 { return append([]float64{}, d...) }

// same asserts that m has exactly the entries d.
func same(m linear.RealMatrix, d [][]float64, msg string) {
	sym.Assert(m.RowDimension() == len(d), msg+": rows")
	sym.Assert(m.ColumnDimension() == len(d[0]), msg+": columns")
	if m.RowDimension() != len(d) || m.ColumnDimension() != len(d[0]) {
		return
	}
	for i := range d {
		for j := range d[i] {
			sym.Same(m.At(i, j), d[i][j], msg)
		}
	}
}

func samev(v linear.RealVector, d []float64, msg string) {
	sym.Assert(v.Dimension() == len(d), msg+": dimension")
	if v.Dimension() != len(d) {
		return
	}
	for i := range d {
		sym.Same(v.At(i), d[i], msg)
	}
}

func sames(v, d []float64, msg string) {
	sym.Assert(len(v) == len(d), msg+": length")
	if len(v) != len(d) {
		return
	}
	for i := range d {
		sym.Same(v[i], d[i], msg)
	}
}

func samem(v, d [][]float64, msg string) {
	sym.Assert(len(v) == len(d), msg+": rows")
	if len(v) != len(d) {
		return
	}
	for i := range d {
		sames(v[i], d[i], msg)
	}
}

// near asserts that m has the entries d up to rounding.
func near(m linear.RealMatrix, d [][]float64, tol float64, msg string) {
	sym.Assert(m.RowDimension() == len(d), msg+": rows")
	sym.Assert(m.ColumnDimension() == len(d[0]), msg+": columns")
	if m.RowDimension() != len(d) || m.ColumnDimension() != len(d[0]) {
		return
	}
	for i := range d {
		for j := range d[i] {
			sym.Near(m.At(i, j), d[i][j], tol, msg)
		}
	}
}

func nearv(v linear.RealVector, d []float64, tol float64, msg string) {
	sym.Assert(v.Dimension() == len(d), msg+": dimension")
	if v.Dimension() != len(d) {
		return
	}
	for i := range d {
		sym.Near(v.At(i), d[i], tol, msg)
	}
}

// spots lists positions of a dimension worth distinguishing: both ends, the
// block boundary and the middle.
func spots(n int) []int {
	var r []int
	for _, x := range []int{0, 1, n / 2, 51, 52, 53, 103, 104, n - 2, n - 1} {
		ok := x >= 0 && x < n
		for _, y := range r {
			ok = ok && x != y
		}
		if ok {
			r = append(r, x)
		}
	}
	return r
}

// few is a short list of spots.
// every lists 0..n-1.
func every(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func few(n int) []int {
	if n <= 53 {
		return spots(n)
	}
	return []int{0, 51, 52, n - 1}
}

func pick(name string, xs []int) int { return xs[sym.IntIn(name, 0, len(xs)-1)] }

func refused(f func()) bool {
	p, _ := sym.Panics(f)
	return p
}

// entries reads a matrix through At.
func entries(m linear.RealMatrix) [][]float64 {
	d := zeros(m.RowDimension(), m.ColumnDimension())
	for i := range d {
		for j := range d[i] {
			d[i][j] = m.At(i, j)
		}
	}
	return d
}

// mul is the definition of the matrix product.
func mul(x, y [][]float64) [][]float64 {
	r := zeros(len(x), len(y[0]))
	for i := range r {
		for j := range r[i] {
			s := 0.
			for k := range y {
				s += x[i][k] * y[k][j]
			}
			r[i][j] = s
		}
	}
	return r
}

func transposed(x [][]float64) [][]float64 {
	r := zeros(len(x[0]), len(x))
	for i := range x {
		for j := range x[i] {
			r[j][i] = x[i][j]
		}
	}
	return r
}

func eye(n int) [][]float64 {
	r := zeros(n, n)
	for i := range r {
		r[i][i] = 1
	}
	return r
}

// fresh values to overwrite something with.
func scribble(d [][]float64) {
	for i := range d {
		for j := range d[i] {
			d[i][j] = 12345 + float64(i*len(d[i])+j)
		}
	}
}

func scribblem(m linear.RealMatrix, rep int) {
	for i := 0; i < m.RowDimension(); i++ {
		for j := 0; j < m.ColumnDimension(); j++ {
			if rep != diag || i == j {
				m.SetEntry(i, j, 54321+float64(i*m.ColumnDimension()+j))
			}
		}
	}
}

func scribblev(v linear.RealVector) {
	for i := 0; i < v.Dimension(); i++ {
		v.SetEntry(i, 777+float64(i))
	}
}

// grid lists representation and shape combinations.
func cross(xs ...[]int) [][]int {
	r := [][]int{nil}
	for _, x := range xs {
		var q [][]int
		for _, p := range r {
			for _, v := range x {
				q = append(q, append(append([]int{}, p...), v))
			}
		}
		r = q
	}
	return r
}

func with(head [][]int, tails ...[]int) [][]int {
	var r [][]int
	for _, p := range head {
		for _, t := range tails {
			r = append(r, append(append([]int{}, p...), t...))
		}
	}
	return r
}

// split distinguishes the values of x between lo and hi.
func split(x, lo, hi int) int {
	for k := lo; k <= hi; k++ {
		if x == k {
			return k
		}
	}
	return x
}

// small restricts entries to -1..1.
func small(d [][]float64) [][]float64 {
	for i := range d {
		for j := range d[i] {
			sym.Assume(d[i][j] >= -1)
			sym.Assume(d[i][j] <= 1)
		}
	}
	return d
}

// turn reflects the rows from k on of x along (1, u, ...).
func turn(x [][]float64, k int, u []float64) {
	w := append([]float64{1}, u...)
	q := dot(w, w)
	for j := range x[0] {
		s := 0.
		for i := range w {
			s += w[i] * x[k+i][j]
		}
		s = 2 * s / q
		for i := range w {
			x[k+i][j] -= s * w[i]
		}
	}
}

// turned is the matrix H_0*H_1*...*r with a symbolic reflection for each
// column k whose bit in mask is clear; r_kk is then not zero. Where the bit is
// set there is no reflection and r_kk is zero. Every matrix has this form for
// some mask and some upper triangular r.
func turned(r [][]float64, mask int) [][]float64 {
	x := clone(r)
	m := len(x)
	for k := len(x[0]) - 1; k >= 0; k-- {
		if k >= m {
			continue
		}
		if mask>>k&1 == 1 {
			x[k][k] = 0
			continue
		}
		sym.Assume(x[k][k] != 0)
		if m-k-1 > 0 {
			turn(x, k, axis("u"+string(rune('0'+k)), m-k-1))
		}
	}
	return x
}

// axis is the direction of a reflection; in more than two further dimensions
// only one entry is symbolic.
func axis(name string, n int) []float64 {
	if n <= 2 {
		return sym.F64s(name, n)
	}
	u := make([]float64, n)
	for i := range u {
		u[i] = float64((i*5+len(name))%7 - 3)
	}
	u[n/2] = sym.F64(name)
	return u
}

// triangular is a symbolic upper triangular matrix.
func triangular(m, n int) [][]float64 {
	r := sym.Mat("r", m, n)
	for i := range r {
		for j := 0; j < i && j < n; j++ {
			r[i][j] = 0
		}
	}
	return r
}

// rhs is a right-hand side with entries in [-1,1]; of a large one only some
// columns are symbolic.
func rhs(rep, m, k int) [][]float64 {
	if m*k <= 1000 || rep == diag {
		return small(input(rep, "b", m, k))
	}
	b := numbers(m, k, 3)
	for _, j := range few(k) {
		for i, v := range small(column(sym.F64s("b"+string(rune('0'+j%64)), m))) {
			b[i][j] = v[0]
		}
	}
	return b
}

// sizes lists the numbers from lo to hi, and the further ones.
func sizes(lo, hi int, more ...int) []int {
	var r []int
	for i := lo; i <= hi; i++ {
		r = append(r, i)
	}
	return append(r, more...)
}

// edges are sizes next to the boundaries of the first three blocks.
var edges = []int{1, 2, 7, 51, 52, 53, 54, 60, 104, 105, 110, 157}

// join concatenates lists of arguments.
func join(xs ...[][]int) [][]int {
	var r [][]int
	for _, x := range xs {
		r = append(r, x...)
	}
	return r
}

// within keeps the shapes (the last two arguments) of at most max cells.
func within(max int, xs [][]int) [][]int {
	var r [][]int
	for _, x := range xs {
		if x[len(x)-1]*x[len(x)-2] <= max {
			r = append(r, x)
		}
	}
	return r
}
