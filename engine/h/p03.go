package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p03() []Harness {
	idx := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
	sets := []int{0, 1, 2, 3, 4, 5}
	reps := []int{dense, block, diag}
	rg := make([]int, 13)
	for i := range rg {
		rg[i] = i
	}
	return []Harness{
		{Prop: "P03", Name: "R03Index", Mode: "fp", F: R03Index, Quick: append(with(cross(reps, idx), a(3, 3)), with(cross([]int{dense, block}, idx), a(2, 4), a(53, 2))...), Bound: "every 64-bit row and column index; all entries symbolic"},
		{Prop: "P03", Name: "R03Set", Mode: "fp", F: R03Set, Quick: append(with(cross(reps, sets), a(3, 3)), with(cross([]int{dense, block}, sets), a(2, 4), a(53, 2), a(2, 53))...), Bound: "every 64-bit row or column index; operands of every shape up to one more than fits"},
		{Prop: "P03", Name: "R03Range", Mode: "fp", F: R03Range, Quick: append(with(cross(reps, rg), a(3, 3)), with(cross([]int{dense, block}, rg), a(2, 3))...), Bound: "every combination of four 64-bit bounds"},
		{Prop: "P03", Name: "R03Sub", Mode: "fp", F: R03Sub, Quick: append(with(cross(reps), a(3, 3)), with(cross([]int{dense, block}), a(2, 3), a(53, 2))...), Bound: "every 64-bit start row and column; submatrix up to one more than fits"},
		{Prop: "P03", Name: "R03Shape", Mode: "fp", F: R03Shape, Quick: with(cross(reps, []int{dense, block, diag}, []int{0, 1, 2, 3}), a(3, 3)), Thorough: with(cross([]int{dense, block}, []int{dense, block}, []int{0, 1, 2, 3}), a(2, 4)), Bound: "operand shapes 1..4 by 1..4"},
		{Prop: "P03", Name: "R03Apply", Mode: "fp", F: R03Apply, Quick: append(with(cross(reps, []int{dense, foreign}, []int{0, 1, 2, 3}), a(3, 3)), with(cross([]int{dense, block}, []int{dense, foreign}, []int{0, 1, 2, 3}), a(2, 3))...), Bound: "operand lengths 0..5"},
		{Prop: "P03", Name: "R03Lists", Mode: "fp", F: R03Lists, Quick: with(cross(reps), a(3, 3)), Bound: "index lists of up to two symbolic 64-bit indices"},
		{Prop: "P03", Name: "R03Vector", Mode: "fp", F: R03Vector, Quick: cross([]int{3}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}), Thorough: cross([]int{1, 5}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}), Bound: "every 64-bit index and length; operands of every length up to n+2"},
	}
}

func in(i, n int) bool { return i >= 0 && i < n }

// verdict checks that an operation was refused exactly when it should be, and
// that a refused one changed nothing.
func verdict(p, bad bool, A linear.RealMatrix, x [][]float64) {
	if bad {
		sym.Cover("refused")
		sym.Assert(p, "an invalid call is accepted")
		same(A, x, "entry after a refused call")
	} else {
		sym.Cover("accepted")
		sym.Assert(!p, "a valid call is refused")
	}
}

// R03Index: operations with one position.
func R03Index(g []int) {
	rep, op, m, n := g[0], g[1], g[2], g[3]
	x := input(rep, "a", m, n)
	A := mk(rep, x)
	r := sym.Int("row")
	c := sym.Int("column")
	v := sym.F64("v")
	bad := false
	var f func()
	switch op {
	case 0:
		bad = !in(r, m) || !in(c, n)
		f = func() { A.At(r, c) }
	case 1:
		bad = !in(r, m) || !in(c, n)
		if rep == diag && r != c {
			v = 0
		}
		f = func() { A.SetEntry(r, c, v) }
	case 2:
		bad = !in(r, m) || !in(c, n)
		if rep == diag && r != c {
			v = 0
		}
		f = func() { A.AddToEntry(r, c, v) }
	case 3:
		bad = !in(r, m) || !in(c, n)
		f = func() { A.MultiplyEntry(r, c, v) }
	case 4:
		bad = !in(r, m)
		f = func() { A.RowAt(r) }
	case 5:
		bad = !in(c, n)
		f = func() { A.ColumnAt(c) }
	case 6:
		bad = !in(r, m) || rep == diag
		f = func() { A.RowMatrixAt(r) }
	case 7:
		bad = !in(c, n) || rep == diag
		f = func() { A.ColumnMatrixAt(c) }
	case 8:
		bad = !in(r, m)
		f = func() { A.RowVectorAt(r) }
	case 9:
		bad = !in(c, n)
		f = func() { A.ColumnVectorAt(c) }
	}
	p := refused(f)
	verdict(p, bad, A, x)
}

// R03Set: row and column updates.
func R03Set(g []int) {
	rep, op, m, n := g[0], g[1], g[2], g[3]
	x := input(rep, "a", m, n)
	A := mk(rep, x)
	r := sym.Int("index")
	size := n
	if op >= 3 {
		size = m
	}
	k := size - 1 + sym.IntIn("length", 0, 2)
	if sym.IntIn("empty", 0, 1) == 1 && op != 1 && op != 4 {
		k = 0
	}
	if k < 1 && (op == 1 || op == 4) {
		k = 1
	}
	s := sym.F64s("s", k)
	if rep == diag {
		for i := range s {
			if i != r {
				s[i] = 0
			}
		}
	}
	o := sym.IntIn("other", 1, 2)
	srep := []int{dense, block, foreign}[sym.IntIn("source", 0, 2)]
	bad := !in(r, m) || k != n
	if op >= 3 {
		bad = !in(r, n) || k != m
	}
	var f func()
	switch op {
	case 0:
		f = func() { A.SetRow(r, s) }
	case 1:
		d := sym.Mat("t", o, k)
		if rep == diag {
			d = zeros(o, k)
		}
		d[0] = s
		B := mk(srep, d)
		bad = bad || o != 1
		f = func() { A.SetRowMatrix(r, B) }
	case 2:
		v := mkv(srep, s)
		f = func() { A.SetRowVector(r, v) }
	case 3:
		f = func() { A.SetColumn(r, s) }
	case 4:
		d := sym.Mat("t", k, o)
		if rep == diag {
			d = zeros(k, o)
		}
		for i := range d {
			d[i][0] = s[i]
		}
		B := mk(srep, d)
		bad = bad || o != 1
		f = func() { A.SetColumnMatrix(r, B) }
	case 5:
		v := mkv(srep, s)
		f = func() { A.SetColumnVector(r, v) }
	}
	p := refused(f)
	verdict(p, bad, A, x)
}

// nop is a visitor that does nothing.
type nop struct{ n int }

func (v *nop) Start(rows, columns, startRow, endRow, startColumn, endColumn int) {}
func (v *nop) Visit(row, column int, value float64)                              { v.n++ }
func (v *nop) End() float64                                                      { return 0 }

// over replaces every visited entry (a diagonal matrix keeps its zeros).
type over struct{ rep int }

func (v *over) Start(rows, columns, startRow, endRow, startColumn, endColumn int) {}
func (v *over) Visit(row, column int, value float64) float64 {
	if v.rep == diag && row != column {
		return value
	}
	return 4711
}
func (v *over) End() float64 { return 0 }

// R03Range: operations with row and column bounds.
func R03Range(g []int) {
	rep, op, m, n := g[0], g[1], g[2], g[3]
	x := input(rep, "a", m, n)
	A := mk(rep, x)
	r, s, c, d := sym.Int("r0"), sym.Int("r1"), sym.Int("c0"), sym.Int("c1")
	bad := !in(r, m) || !in(s, m) || r > s || !in(c, n) || !in(d, n) || c > d
	var f func()
	switch op {
	case 0:
		f = func() { A.SubMatrix(r, s, c, d) }
		if rep == diag {
			// only what a diagonal matrix can represent
			sym.Assume(bad || r == c && s == d)
		}
	case 1:
		dst := zeros(m, n)
		f = func() { linear.CopySubMatrix(A, r, s, c, d, dst) }
	case 2:
		f = func() { A.WalkInRowOrderBounded(&nop{}, r, s, c, d) }
	case 3:
		f = func() { A.WalkInColumnOrderBounded(&nop{}, r, s, c, d) }
	case 4:
		f = func() { A.WalkInOptimizedOrderBounded(&nop{}, r, s, c, d) }
	case 5:
		f = func() { A.WalkInUpdateRowOrderBounded(&over{rep}, r, s, c, d) }
	case 6:
		f = func() { A.WalkInUpdateColumnOrderBounded(&over{rep}, r, s, c, d) }
	case 7:
		f = func() { A.WalkInUpdateOptimizedOrderBounded(&over{rep}, r, s, c, d) }
	case 8: // destination too small
		sym.Assume(!bad)
		r, s, c, d = split(r, 0, m), split(s, 0, m), split(c, 0, n), split(d, 0, n)
		h, w := sym.IntIn("h", 0, m), sym.IntIn("w", 0, n)
		dst := zeros(h, w)
		before := clone(dst)
		bad = h < s-r+1 || w < d-c+1
		f = func() { linear.CopySubMatrix(A, r, s, c, d, dst) }
		p := refused(f)
		verdict(p, bad, A, x)
		if bad {
			samem(dst, before, "destination after a refused copy")
		}
		return
	case 9:
		f = func() { A.WalkInRowOrderBounded(&nop{}, r, s, c, d) }
		sym.Assume(r == s)
	case 10:
		f = func() { A.WalkInUpdateRowOrderBounded(&over{rep}, r, s, c, d) }
		sym.Assume(c == d)
	case 11:
		f = func() { A.WalkInUpdateColumnOrderBounded(&over{rep}, r, s, c, d) }
		sym.Assume(r == c)
	default:
		f = func() { A.WalkInUpdateOptimizedOrderBounded(&over{rep}, r, s, c, d) }
		sym.Assume(s == d)
	}
	p := refused(f)
	verdict(p, bad, A, x)
}

// R03Sub: submatrix updates.
func R03Sub(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := input(rep, "a", m, n)
	A := mk(rep, x)
	r, c := sym.Int("row"), sym.Int("column")
	h := pick("h", []int{1, 2, m, m + 1})
	w := pick("w", []int{1, 2, n, n + 1})
	s := sym.Mat("s", h, w)
	bad := r < 0 || c < 0 || r > m-h || c > n-w
	if rep == diag {
		for i := range s {
			for j := range s[i] {
				if r > m || c > m || r+i != c+j {
					s[i][j] = 0
				}
			}
		}
	}
	ragged := sym.IntIn("ragged", 0, 1) == 1
	if ragged && h > 1 {
		if sym.IntIn("longer", 0, 1) == 1 {
			s[h-1] = append(clonev(s[h-1]), 0)
		} else {
			s[h-1] = s[h-1][:w-1]
		}
		bad = true
	}
	p := refused(func() { A.SetSubMatrix(s, r, c) })
	verdict(p, bad, A, x)
	for _, e := range [][][]float64{nil, {}, {{}}} {
		p := refused(func() { A.SetSubMatrix(e, 0, 0) })
		sym.Assert(p, "an empty submatrix is accepted")
	}
}

// R03Shape: operand matrices of the wrong shape.
func R03Shape(g []int) {
	rep, srep, op, m, n := g[0], g[1], g[2], g[3], g[4]
	x := input(rep, "a", m, n)
	A := mk(rep, x)
	h := sym.IntIn("h", 1, 4)
	w := h
	if srep != diag {
		w = sym.IntIn("w", 1, 4)
	}
	y := input(srep, "b", h, w)
	if rep == diag && srep != diag && op < 2 {
		for i := range y {
			for j := range y[i] {
				if i != j {
					y[i][j] = 0
				}
			}
		}
	}
	B := mk(srep, y)
	bad := h != m || w != n
	var f func()
	switch op {
	case 0:
		f = func() { A.Add(B) }
	case 1:
		f = func() { A.Subtract(B) }
	case 2:
		bad = h != n
		f = func() { A.Multiply(B) }
	case 3:
		bad = w != m
		f = func() { A.PreMultiplyMatrix(B) }
	}
	p := refused(f)
	verdict(p, bad, A, x)
	same(B, y, "operand after the call")
}

// R03Apply: operand vectors of the wrong length.
func R03Apply(g []int) {
	rep, srep, op, m, n := g[0], g[1], g[2], g[3], g[4]
	x := input(rep, "a", m, n)
	A := mk(rep, x)
	k := sym.IntIn("length", 0, 5)
	y := sym.F64s("v", k)
	v := mkv(srep, y)
	bad := k != n
	var f func()
	switch op {
	case 0:
		f = func() { A.Operate(clonev(y)) }
	case 1:
		f = func() { A.OperateVector(v) }
	case 2:
		bad = k != m
		f = func() { A.PreMultiply(clonev(y)) }
	case 3:
		bad = k != m
		f = func() { A.PreMultiplyVector(v) }
	}
	p := refused(f)
	verdict(p, bad, A, x)
	samev(v, y, "operand after the call")
}

// R03Lists: submatrices by index lists.
func R03Lists(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := input(rep, "a", m, n)
	A := mk(rep, x)
	r, s, c := sym.Int("r0"), sym.Int("r1"), sym.Int("c0")
	bad := !in(r, m) || !in(s, m) || !in(c, n)
	switch sym.IntIn("what", 0, 6) {
	case 0:
		p := refused(func() { linear.SubMatrix(A, []int{r, s}, []int{c}) })
		verdict(p, bad, A, x)
	case 1:
		d := zeros(2, 1)
		p := refused(func() { linear.CopySubMatrixFromIndices(A, []int{r, s}, []int{c}, d) })
		verdict(p, bad, A, x)
	case 2:
		sym.Assert(refused(func() { linear.SubMatrix(A, nil, []int{0}) }), "no row list accepted")
	case 3:
		sym.Assert(refused(func() { linear.SubMatrix(A, []int{0}, []int{}) }), "empty column list accepted")
	case 4:
		sym.Assert(refused(func() { linear.CopySubMatrixFromIndices(A, []int{0}, nil, zeros(2, 2)) }), "no column list accepted")
	case 5:
		sym.Assert(refused(func() { linear.CopySubMatrixFromIndices(A, []int{}, []int{0}, zeros(2, 2)) }), "empty row list accepted")
	case 6:
		sym.Assume(!bad)
		h, w := sym.IntIn("h", 1, 3), sym.IntIn("w", 1, 3)
		d := zeros(h, w)
		p := refused(func() { linear.CopySubMatrixFromIndices(A, []int{r, s}, []int{c, c}, d) })
		verdict(p, h < 2 || w < 2, A, x)
	}
}

// R03Vector: vector operations.
func R03Vector(g []int) {
	n, op := g[0], g[1]
	x := sym.F64s("a", n)
	v := mkv(dense, x)
	i, j := sym.Int("i"), sym.Int("j")
	val := sym.F64("v")
	bad := !in(i, n)
	k := 0
	var y []float64
	var w linear.RealVector
	srep := dense
	if op >= 3 && op <= 4 || op >= 11 {
		k = sym.IntIn("length", 0, n+2)
		y = sym.F64s("b", k)
		if sym.IntIn("foreign", 0, 1) == 1 {
			srep = foreign
		}
		w = mkv(srep, y)
	}
	own := v.(*linear.ArrayRealVector)
	var f func()
	switch op {
	case 0:
		f = func() { v.At(i) }
	case 1:
		f = func() { v.SetEntry(i, val) }
	case 2:
		f = func() { v.AddToEntry(i, val) }
	case 3:
		sym.Assume(k > 0)
		bad = i < 0 || i > n-k
		f = func() { v.SetSubVector(i, w) }
	case 4:
		sym.Assume(k > 0)
		bad = i < 0 || i > n-k
		f = func() { own.SetSubVectorWithSlice(i, y) }
	case 5:
		sym.Assume(j != 0)
		bad = i < 0 || j < 0 || i > n || j > n || i > n-j
		f = func() { v.SubVector(i, j) }
	case 6:
		bad = !in(i, n) || !in(j, n) || i > j
		f = func() { v.WalkInDefaultOrderBounded(&vnop{}, i, j) }
	case 7:
		bad = !in(i, n) || !in(j, n) || i > j
		f = func() { v.WalkInOptimizedOrderBounded(&vnop{}, i, j) }
	case 8:
		bad = !in(i, n) || !in(j, n) || i > j
		f = func() { v.WalkInUpdateDefaultOrderBounded(&vover{}, i, j) }
	case 9:
		bad = !in(i, n) || !in(j, n) || i > j
		f = func() { v.WalkInUpdateOptimizedOrderBounded(&vover{}, i, j) }
	case 10:
		it := v.Iterator()
		t := sym.IntIn("steps", 0, n+1)
		bad = t > n
		f = func() {
			for s := 0; s < t; s++ {
				it.Next()
			}
		}
	case 11:
		bad = k != n
		f = func() { v.Add(w) }
	case 12:
		bad = k != n
		f = func() { v.Subtract(w) }
	case 13:
		bad = k != n
		f = func() { v.EBEMultiply(w) }
	case 14:
		bad = k != n
		f = func() { v.EBEDivide(w) }
	case 15:
		bad = k != n
		f = func() { v.Combine(val, 2, w) }
	case 16:
		bad = k != n
		f = func() { v.CopyFrom(w) }
	case 17:
		bad = k != n
		f = func() { linear.VecDotProduct(v, w) }
		for t := 0; t < k && k != n; t++ {
			sym.Assume(sym.Real(y[t]))
		}
	case 18:
		bad = k != n
		u := sym.IntIn("which", 0, 2)
		f = func() {
			switch u {
			case 0:
				linear.VecDistance(v, w)
			case 1:
				linear.VecL1Distance(v, w)
			default:
				linear.VecLInfDistance(v, w)
			}
		}
	}
	p := refused(f)
	if bad {
		sym.Cover("refused")
		sym.Assert(p, "an invalid call is accepted")
		samev(v, x, "entry after a refused call")
	} else {
		sym.Cover("accepted")
		sym.Assert(!p, "a valid call is refused")
	}
}

type vnop struct{}

func (vnop) Start(dimension, start, end int) {}
func (vnop) Visit(index int, value float64)  {}
func (vnop) End() float64                    { return 0 }

type vover struct{}

func (vover) Start(dimension, start, end int)        {}
func (vover) Visit(index int, value float64) float64 { return 4711 }
func (vover) End() float64                           { return 0 }
