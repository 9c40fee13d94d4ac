package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p04() []Harness {
	reps := []int{dense, block, foreign}
	small := l(a(1, 1), a(3, 4), a(4, 3))
	big := l(a(54, 3), a(3, 54), a(53, 105))
	return []Harness{
		{Prop: "P04", Name: "X04Lines", Mode: "fp", F: X04Lines, Quick: append(append(with(cross(reps), small...), with(cross([]int{dense, block}), big...)...), a(diag, 1, 1), a(diag, 4, 4)), Thorough: append(with(cross([]int{dense, block}), a(104, 53), a(106, 107)), a(diag, 60, 60)), Bound: "all entries symbolic; rows and columns at both ends, the middle and block boundaries"},
		{Prop: "P04", Name: "X04Sub", Mode: "fp", F: X04Sub, Quick: append(append(with(cross(reps), a(4, 4, 0), a(3, 5, 0)), with(cross([]int{dense, block}), a(54, 3, 0), a(3, 54, 0), a(54, 55, 1), a(106, 4, 0), a(4, 106, 0), a(106, 107, 1))...), a(diag, 4, 4, 0)), Thorough: append(with(cross([]int{dense, block}), a(7, 7, 0), a(106, 107, 2)), a(diag, 9, 9, 0)), Bound: "all entries symbolic; every contiguous submatrix with bounds at the ends, the middle and block boundaries (all four bounds on small shapes)"},
		{Prop: "P04", Name: "X04Blocks", Mode: "fp", F: X04Blocks, Quick: l(a(3, 170), a(170, 3), a(60, 110), a(110, 60), a(54, 160), a(107, 109)), Thorough: l(a(160, 54), a(160, 165), a(104, 156), a(156, 104)), Bound: "block matrices of two to four blocks, all entries symbolic; submatrices starting and ending before, at and after block boundaries"},
		{Prop: "P04", Name: "X04Lists", Mode: "fp", F: X04Lists, Quick: append(with(cross(reps), a(3, 4, 2, 2), a(3, 3, 3, 1), a(2, 3, 3, 2), a(2, 2, 2, 4), a(2, 2, 4, 2), a(2, 3, 1, 4), a(3, 2, 4, 1), a(1, 2, 1, 6), a(2, 1, 6, 1), a(1, 1, 4, 5)), a(diag, 3, 3, 2, 2), a(block, 54, 54, 2, 1)), Thorough: append(with(cross(reps), a(4, 4, 3, 2)), a(block, 54, 54, 2, 2)), Bound: "index lists of the listed lengths with every combination of indices (repeated and unsorted ones included)"},
	}
}

// X04Lines: extracted rows and columns.
func X04Lines(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := input(rep, "a", m, n)
	A := mk(rep, clone(x))
	r, c := pick("row", spots(m)), pick("column", spots(n))
	row := clonev(x[r])
	col := make([]float64, m)
	colm := zeros(m, 1)
	for i := range col {
		col[i] = x[i][c]
		colm[i][0] = col[i]
	}
	rs, cs := A.RowAt(r), A.ColumnAt(c)
	sames(rs, row, "extracted row")
	sames(cs, col, "extracted column")
	rv, cv := A.RowVectorAt(r), A.ColumnVectorAt(c)
	samev(rv, row, "extracted row vector")
	samev(cv, col, "extracted column vector")
	var rm, cm linear.RealMatrix
	whole := rep != diag || n == 1
	if whole {
		rm, cm = A.RowMatrixAt(r), A.ColumnMatrixAt(c)
		same(rm, [][]float64{row}, "extracted row matrix")
		same(cm, colm, "extracted column matrix")
	}
	same(A, x, "source after the extractions")
	// the source changes
	scribblem(A, rep)
	sames(rs, row, "extracted row after the source changed")
	sames(cs, col, "extracted column after the source changed")
	samev(rv, row, "extracted row vector after the source changed")
	samev(cv, col, "extracted column vector after the source changed")
	if whole {
		same(rm, [][]float64{row}, "extracted row matrix after the source changed")
		same(cm, colm, "extracted column matrix after the source changed")
	}
	// the extracted objects change
	A = mk(rep, clone(x))
	rs, cs = A.RowAt(r), A.ColumnAt(c)
	for i := range rs {
		rs[i] = 3.5
	}
	for i := range cs {
		cs[i] = 4.5
	}
	same(A, x, "source after an extracted slice changed")
	scribblev(A.RowVectorAt(r))
	scribblev(A.ColumnVectorAt(c))
	same(A, x, "source after an extracted vector changed")
	if whole {
		scribblem(A.RowMatrixAt(r), rep)
		scribblem(A.ColumnMatrixAt(c), rep)
		same(A, x, "source after an extracted matrix changed")
	}
}

// X04Blocks: contiguous submatrices over several blocks.
func X04Blocks(g []int) {
	m, n := g[0], g[1]
	x := input(block, "a", m, n)
	A := mk(block, x)
	bounds := func(name string, n int) (int, int) {
		if n < 50 {
			return pick(name, []int{0, 1}), n - 1
		}
		// alignment of the start, and where the end lies relative to the start
		lo := pick(name+"0", []int{0, 7, 50, 52})
		hi := []int{lo, lo + 46, lo + 51, lo + 53, lo + 100, lo + 104, n - 2}
		k := sym.IntIn(name+"1", 0, len(hi)-1)
		sym.Assume(hi[k] < n && (k == 6 || hi[k] < n-2))
		return lo, hi[k]
	}
	r0, r1 := bounds("r", m)
	c0, c1 := bounds("c", n)
	want := zeros(r1-r0+1, c1-c0+1)
	for i := range want {
		for j := range want[i] {
			want[i][j] = x[r0+i][c0+j]
		}
	}
	same(A.SubMatrix(r0, r1, c0, c1), want, "submatrix")
}

// X04Sub: contiguous submatrices.
func X04Sub(g []int) {
	rep, m, n, kind := g[0], g[1], g[2], g[3]
	x := input(rep, "a", m, n)
	A := mk(rep, clone(x))
	var r0, r1, c0, c1 int
	bounds := func(name string, n int) (int, int) {
		if n <= 8 {
			lo := sym.IntIn(name+"0", 0, n-1)
			return lo, sym.IntIn(name+"1", lo, n-1)
		}
		s := spots(n)
		if kind == 1 { // few
			s = []int{0, 51, 52, n - 1}
		}
		lo := pick(name+"0", s)
		hi := pick(name+"1", s)
		sym.Assume(hi >= lo)
		return lo, hi
	}
	r0, r1 = bounds("r", m)
	if rep == diag {
		c0, c1 = r0, r1
	} else {
		c0, c1 = bounds("c", n)
	}
	want := zeros(r1-r0+1, c1-c0+1)
	for i := range want {
		for j := range want[i] {
			want[i][j] = x[r0+i][c0+j]
		}
	}
	S := A.SubMatrix(r0, r1, c0, c1)
	same(S, want, "submatrix")
	d := zeros(len(want)+1, len(want[0])+1)
	linear.CopySubMatrix(A, r0, r1, c0, c1, d)
	full := zeros(len(d), len(d[0]))
	for i := range want {
		for j := range want[i] {
			full[i][j] = want[i][j]
		}
	}
	samem(d, full, "copied submatrix")
	same(A, x, "source after the extraction")
	scribble(d)
	scribblem(S, rep)
	same(A, x, "source after the extracted submatrix changed")
	S = A.SubMatrix(r0, r1, c0, c1)
	scribblem(A, rep)
	same(S, want, "submatrix after the source changed")
}

// X04Lists: submatrices by index lists.
func X04Lists(g []int) {
	rep, m, n, p, q := g[0], g[1], g[2], g[3], g[4]
	x := input(rep, "a", m, n)
	A := mk(rep, clone(x))
	rows := make([]int, p)
	cols := make([]int, q)
	for i := range rows {
		if m > 8 {
			rows[i] = pick("r"+string(rune('0'+i)), spots(m))
		} else {
			rows[i] = sym.IntIn("r"+string(rune('0'+i)), 0, m-1)
		}
	}
	for i := range cols {
		if n > 8 {
			cols[i] = pick("c"+string(rune('0'+i)), spots(n))
		} else {
			cols[i] = sym.IntIn("c"+string(rune('0'+i)), 0, n-1)
		}
	}
	want := zeros(p, q)
	for i := range want {
		for j := range want[i] {
			want[i][j] = x[rows[i]][cols[j]]
		}
	}
	S := linear.SubMatrix(A, rows, cols)
	same(S, want, "submatrix by lists")
	d := zeros(p, q)
	linear.CopySubMatrixFromIndices(A, rows, cols, d)
	samem(d, want, "copied submatrix by lists")
	same(A, x, "source after the extraction")
	scribblem(S, dense)
	scribble(d)
	same(A, x, "source after the extracted submatrix changed")
	S = linear.SubMatrix(A, rows, cols)
	scribblem(A, rep)
	same(S, want, "submatrix by lists after the source changed")
}
