package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p02() []Harness {
	shapesQ := join(cross(sizes(1, 4), sizes(1, 4)), l(a(53, 3), a(3, 53), a(54, 53), a(157, 2), a(2, 157), a(110, 7), a(110, 60), a(60, 110)))
	shapesT := l(a(105, 54), a(52, 104), a(104, 53))
	reps := l(a(dense), a(block))
	own := []int{dense, block}
	src := cross([]int{dense, block}, []int{dense, block, foreign})
	return []Harness{
		{Prop: "P02", Name: "U02Entry", Mode: "fp", F: U02Entry, Quick: with(reps, shapesQ...), Thorough: with(reps, shapesT...), Bound: "all entries and the value symbolic; position at both ends, the middle and next to block boundaries"},
		{Prop: "P02", Name: "U02All", Mode: "fp", F: U02All, Quick: with(reps, a(5, 4)), Thorough: with(reps, a(9, 8)), Bound: "all entries symbolic, every position"},
		{Prop: "P02", Name: "U02Row", Mode: "fp", F: U02Row, Quick: with(src, a(3, 4), a(2, 2), a(1, 1), a(2, 1), a(1, 2), a(1, 3), a(5, 8), a(8, 5), a(54, 3), a(3, 53), a(4, 105), a(3, 110), a(2, 157), a(106, 53)), Thorough: with(src, a(105, 54), a(54, 105)), Bound: "all entries symbolic; slice, matrix (dense, block, foreign) and vector (own, foreign) sources"},
		{Prop: "P02", Name: "U02Column", Mode: "fp", F: U02Column, Quick: with(src, a(4, 3), a(2, 2), a(1, 1), a(2, 1), a(1, 2), a(3, 1), a(5, 8), a(8, 5), a(3, 54), a(53, 3), a(105, 4), a(110, 3), a(157, 2), a(53, 106)), Thorough: with(src, a(54, 105), a(105, 54)), Bound: "all entries symbolic; slice, matrix and vector sources"},
		{Prop: "P02", Name: "U02Sub", Mode: "fp", F: U02Sub, Quick: join(cross(own, []int{54}, []int{54}, []int{1, 2, 52, 53}, []int{1, 2, 52, 53}), cross(own, []int{5}, []int{5}, []int{1, 2, 3, 5}, []int{1, 2, 3, 5}), with(reps, a(110, 3, 53, 1), a(3, 110, 1, 53), a(157, 2, 106, 2), a(2, 157, 2, 106), a(4, 4, 2, 2), a(3, 4, 3, 4), a(3, 4, 1, 3), a(54, 4, 3, 2), a(4, 54, 2, 3), a(106, 3, 54, 2), a(3, 106, 2, 54), a(54, 55, 53, 53))), Thorough: with(reps, a(106, 107, 53, 54), a(106, 107, 106, 54), a(60, 60, 10, 10)), Bound: "all entries symbolic; every start row and column among the end points, the middle and block boundaries"},
		{Prop: "P02", Name: "U02Diag", Mode: "fp", F: U02Diag, Quick: cross(sizes(1, 9, 16, 17)), Thorough: l(a(12)), Bound: "all diagonal entries symbolic, every position"},
	}
}

func u02entry(A linear.RealMatrix, x [][]float64, r, c int, v float64) {
	A.SetEntry(r, c, v)
	x[r][c] = v
	same(A, x, "entry after SetEntry")
	w := sym.F64("w")
	A.AddToEntry(r, c, w)
	x[r][c] = x[r][c] + w
	same(A, x, "entry after AddToEntry")
	u := sym.F64("u")
	A.MultiplyEntry(r, c, u)
	x[r][c] = x[r][c] * u
	same(A, x, "entry after MultiplyEntry")
}

// U02Entry: entry updates touch one cell.
func U02Entry(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := sym.Mat("a", m, n)
	A := mk(rep, x)
	u02entry(A, x, pick("row", spots(m)), pick("column", spots(n)), sym.F64("v"))
}

// U02All: the same at every position of a small matrix.
func U02All(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := sym.Mat("a", m, n)
	A := mk(rep, x)
	u02entry(A, x, sym.IntIn("row", 0, m-1), sym.IntIn("column", 0, n-1), sym.F64("v"))
}

// U02Diag: entry updates of a diagonal matrix.
func U02Diag(g []int) {
	n := g[0]
	x := input(diag, "a", n, n)
	A := mk(diag, x)
	i := sym.IntIn("row", 0, n-1)
	u02entry(A, x, i, i, sym.F64("v"))
}

// U02Row: row updates touch one row.
func U02Row(g []int) {
	rep, srep, m, n := g[0], g[1], g[2], g[3]
	x := sym.Mat("a", m, n)
	A := mk(rep, x)
	r := pick("row", spots(m))
	s := sym.F64s("s", n)
	src := clonev(s)
	A.SetRow(r, src)
	x[r] = clonev(s)
	same(A, x, "entry after SetRow")
	sames(src, s, "SetRow changed its argument")
	src[0] = 4
	same(A, x, "entry after the source of SetRow changed")
	t := sym.Mat("t", 1, n)
	B := mk(srep, t)
	A.SetRowMatrix(r, B)
	x[r] = clonev(t[0])
	same(A, x, "entry after SetRowMatrix")
	same(B, t, "SetRowMatrix changed its argument")
	scribblem(B, srep)
	same(A, x, "entry after the source of SetRowMatrix changed")
	u := sym.F64s("u", n)
	v := mkv(srep, u)
	A.SetRowVector(r, v)
	x[r] = clonev(u)
	same(A, x, "entry after SetRowVector")
	samev(v, u, "SetRowVector changed its argument")
	scribblev(v)
	same(A, x, "entry after the source of SetRowVector changed")
}

// U02Column: column updates touch one column.
func U02Column(g []int) {
	rep, srep, m, n := g[0], g[1], g[2], g[3]
	x := sym.Mat("a", m, n)
	A := mk(rep, x)
	c := pick("column", spots(n))
	set := func(s []float64) {
		for i := range x {
			x[i][c] = s[i]
		}
	}
	s := sym.F64s("s", m)
	src := clonev(s)
	A.SetColumn(c, src)
	set(s)
	same(A, x, "entry after SetColumn")
	sames(src, s, "SetColumn changed its argument")
	src[0] = 4
	same(A, x, "entry after the source of SetColumn changed")
	t := sym.Mat("t", m, 1)
	B := mk(srep, t)
	A.SetColumnMatrix(c, B)
	for i := range x {
		x[i][c] = t[i][0]
	}
	same(A, x, "entry after SetColumnMatrix")
	same(B, t, "SetColumnMatrix changed its argument")
	scribblem(B, srep)
	same(A, x, "entry after the source of SetColumnMatrix changed")
	u := sym.F64s("u", m)
	v := mkv(srep, u)
	A.SetColumnVector(c, v)
	set(u)
	same(A, x, "entry after SetColumnVector")
	samev(v, u, "SetColumnVector changed its argument")
	scribblev(v)
	same(A, x, "entry after the source of SetColumnVector changed")
}

// U02Sub: submatrix updates touch the addressed rectangle.
func U02Sub(g []int) {
	rep, m, n, p, q := g[0], g[1], g[2], g[3], g[4]
	x := sym.Mat("a", m, n)
	A := mk(rep, x)
	r := pick("row", spots(m-p+1))
	c := pick("column", spots(n-q+1))
	s := sym.Mat("s", p, q)
	src := clone(s)
	A.SetSubMatrix(src, r, c)
	for i := range s {
		for j := range s[i] {
			x[r+i][c+j] = s[i][j]
		}
	}
	same(A, x, "entry after SetSubMatrix")
	samem(src, s, "SetSubMatrix changed its argument")
	scribble(src)
	same(A, x, "entry after the source of SetSubMatrix changed")
}
