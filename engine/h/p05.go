package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p05() []Harness {
	lib := []int{dense, block, foreign}
	return []Harness{
		{Prop: "P05", Name: "T05Transpose", Mode: "fp", F: T05Transpose, Quick: append(append(with(cross(lib), cross(sizes(1, 6), sizes(1, 6))...), append(with(cross([]int{block}), within(6000, cross(edges, edges))...), with(cross([]int{dense}), a(53, 3), a(3, 53), a(52, 52), a(54, 106), a(1, 104))...)...), a(diag, 1, 1), a(diag, 2, 2), a(diag, 3, 3), a(diag, 4, 4), a(diag, 8, 8), a(diag, 9, 9), a(diag, 16, 16), a(diag, 17, 17)), Thorough: append(with(cross([]int{dense, block}), cross(edges, edges)...), a(diag, 60, 60)), Bound: "all entries symbolic, listed shapes"},
		{Prop: "P05", Name: "T05Copy", Mode: "fp", F: T05Copy, Quick: append(append(with(cross(lib), cross(sizes(1, 5), sizes(1, 5))...), append(with(cross([]int{block}), within(6000, cross(edges, edges))...), with(cross([]int{dense}), a(53, 3), a(3, 53), a(52, 52), a(54, 106), a(64, 33))...)...), a(diag, 1, 1), a(diag, 2, 2), a(diag, 3, 3), a(diag, 4, 4), a(diag, 8, 8), a(diag, 9, 9), a(diag, 16, 16), a(diag, 17, 17)), Thorough: append(with(cross([]int{dense, block}), a(157, 54), a(51, 160)), a(diag, 60, 60)), Bound: "all entries symbolic, listed shapes"},
		{Prop: "P05", Name: "T05Vector", Mode: "fp", F: T05Vector, Quick: cross(sizes(0, 20, 31, 32, 33, 64, 100)), Thorough: l(a(300)), Bound: "all entries symbolic, listed lengths"},
		{Prop: "P05", Name: "T05Changed", Mode: "fp", F: T05Changed, Quick: append(with(cross([]int{dense, block}), a(2, 3), a(54, 53)), a(diag, 3, 3)), Bound: "a transposed or copied matrix is itself updated, transposed and copied again"},
	}
}

// T05Transpose: the transpose.
func T05Transpose(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := input(rep, "a", m, n)
	A := mk(rep, clone(x))
	want := transposed(x)
	T := A.Transpose()
	same(T, want, "transpose")
	same(A, x, "source after transposing")
	same(T.Transpose(), x, "transpose of the transpose")
	scribblem(A, rep)
	same(T, want, "transpose after the source changed")
	A = mk(rep, clone(x))
	T = A.Transpose()
	scribblem(T, rep)
	same(A, x, "source after the transpose changed")
}

// T05Copy: copies as matrix and as slices.
func T05Copy(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := input(rep, "a", m, n)
	A := mk(rep, clone(x))
	C := A.Copy()
	d := A.Data()
	same(C, x, "copy")
	samem(d, x, "data")
	same(A, x, "source after copying")
	scribblem(A, rep)
	same(C, x, "copy after the source changed")
	samem(d, x, "data after the source changed")
	A = mk(rep, clone(x))
	scribblem(A.Copy(), rep)
	same(A, x, "source after the copy changed")
	scribble(A.Data())
	same(A, x, "source after the data changed")
}

// T05Vector: copies of vectors.
func T05Vector(g []int) {
	n := g[0]
	x := sym.F64s("a", n)
	v := mkv(dense, clonev(x))
	c := v.Copy()
	s := v.ToArray()
	w, err := linear.NewArrayRealVectorCopy(v)
	sym.Assert(err == nil, "copy constructor refuses")
	f, err := linear.NewArrayRealVectorCopy(mkv(foreign, clonev(x)))
	sym.Assert(err == nil, "copy constructor refuses")
	samev(c, x, "copy")
	sames(s, x, "array")
	samev(w, x, "constructed copy")
	samev(f, x, "constructed copy of a foreign vector")
	scribblev(v)
	samev(c, x, "copy after the source changed")
	sames(s, x, "array after the source changed")
	samev(w, x, "constructed copy after the source changed")
	v = mkv(dense, clonev(x))
	scribblev(v.Copy())
	w, _ = linear.NewArrayRealVectorCopy(v)
	scribblev(w)
	s = v.ToArray()
	for i := range s {
		s[i] = -8
	}
	samev(v, x, "source after a copy changed")
}

// T05Changed: matrices obtained from the library behave like fresh ones.
func T05Changed(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := input(rep, "a", m, n)
	T := mk(rep, clone(x)).Transpose()
	y := transposed(x)
	v := sym.F64("v")
	k := 0
	if m == n {
		k = m - 1
	}
	T.SetEntry(k, k, v)
	y[k][k] = v
	same(T, y, "updated transpose")
	same(T.Copy(), y, "copy of the updated transpose")
	same(T.Transpose(), transposed(y), "transpose of the updated transpose")
	C := mk(rep, clone(x)).Copy()
	z := clone(x)
	C.AddToEntry(k, k, v)
	z[k][k] = z[k][k] + v
	same(C, z, "updated copy")
	same(C.Transpose(), transposed(z), "transpose of the updated copy")
	sym.Assert(C.RowDimension() == m && C.ColumnDimension() == n, "copy has the wrong shape")
}
