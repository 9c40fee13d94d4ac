package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p01() []Harness {
	return []Harness{
		{Prop: "P01", Name: "C01Dense", Mode: "fp", F: C01Dense, Quick: join(cross(sizes(1, 9), sizes(1, 9)), l(a(53, 2), a(2, 64), a(33, 20), a(16, 16), a(32, 64))), Thorough: l(a(7, 5), a(60, 60)), Bound: "all entries symbolic, listed shapes"},
		{Prop: "P01", Name: "C01Block", Mode: "fp", F: C01Block, Quick: join(cross(sizes(1, 5), sizes(1, 5)), within(6000, cross(edges, edges))), Thorough: cross(edges, edges), Bound: "all entries symbolic, listed shapes"},
		{Prop: "P01", Name: "C01Factory", Mode: "fp", F: C01Factory, Quick: l(a(2, 3), a(1, 5), a(5, 1), a(8, 8), a(16, 7), a(33, 33), a(64, 64), a(64, 65), a(4, 1025), a(1, 4097)), Thorough: l(a(65, 63), a(70, 70), a(105, 50)), Bound: "all entries symbolic, shapes around the 4096-cell switch"},
		{Prop: "P01", Name: "C01Diagonal", Mode: "fp", F: C01Diagonal, Quick: cross(sizes(1, 18, 24, 31, 32, 33, 40, 63, 64, 65)), Thorough: l(a(70)), Bound: "all entries symbolic"},
		{Prop: "P01", Name: "C01Vector", Mode: "fp", F: C01Vector, Quick: cross(sizes(0, 40, 52, 63, 64, 65, 100, 127, 128, 129, 256)), Thorough: l(a(200), a(1000)), Bound: "all entries symbolic"},
		{Prop: "P01", Name: "C01Zero", Mode: "fp", F: C01Zero, Quick: l(a(1, 1), a(3, 2), a(64, 64), a(65, 64), a(53, 105)), Bound: "concrete shapes"},
		{Prop: "P01", Name: "C01Dims", Mode: "fp", F: C01Dims, Quick: l(a(0), a(1), a(2), a(3), a(4)), Bound: "every row and column count from -1e9 (factories: -9) to 3"},
		{Prop: "P01", Name: "C01Ragged", Mode: "fp", F: C01Ragged, Quick: l(a(3, 2), a(2, 3), a(53, 2), a(2, 53)), Bound: "one row of any length 0..n+1 at any position"},
		{Prop: "P01", Name: "C01BlockData", Mode: "fp", F: C01BlockData, Quick: join(cross(sizes(1, 4), sizes(1, 4)), within(6000, cross(edges, edges))), Thorough: cross(edges, edges), Bound: "all entries symbolic"},
		{Prop: "P01", Name: "C01Shared", Mode: "fp", F: C01Shared, Quick: append(with(cross(sizes(0, 4)), a(2, 2), a(3, 1), a(5, 4), a(4, 53)), a(0, 53, 2), a(1, 53, 2), a(2, 60, 80)), Thorough: with(cross(sizes(0, 4)), a(53, 54), a(105, 3)), Bound: "all entries symbolic, the rows given as one, as two alternating or as neighbouring slices of one array"},
	}
}

// C01Dense: dense constructors store the given entries.
func C01Dense(g []int) {
	m, n := g[0], g[1]
	d := sym.Mat("d", m, n)
	want := clone(d)
	A, err := linear.NewArray2DRowRealMatrixFromSlices(d, true)
	sym.Assert(err == nil, "dense constructor refuses")
	same(A, want, "dense entry")
	scribble(d)
	same(A, want, "dense entry after the caller changed the source")
	d = clone(want)
	A, err = linear.NewArray2DRowRealMatrixFromSlices(d, true)
	sym.Assert(err == nil, "dense constructor refuses")
	scribblem(A, dense)
	samem(d, want, "source slice after the matrix was changed")
	B, err := linear.NewArray2DRowRealMatrixFromSlices(clone(want), false)
	sym.Assert(err == nil, "dense constructor refuses")
	same(B, want, "dense entry (no copy)")
	col := make([]float64, m)
	cw := zeros(m, 1)
	for i := range col {
		col[i] = want[i][0]
		cw[i][0] = col[i]
	}
	C, err := linear.NewArray2DRowRealMatrixFromSlice(col)
	sym.Assert(err == nil, "column constructor refuses")
	for i := range col {
		col[i] = -3
	}
	same(C, cw, "column matrix entry")
}

// C01Block: the block constructor stores the given entries.
func C01Block(g []int) {
	m, n := g[0], g[1]
	d := sym.Mat("d", m, n)
	want := clone(d)
	A, err := linear.NewBlockRealMatrixFromSlices(d)
	sym.Assert(err == nil, "block constructor refuses")
	same(A, want, "block entry")
	scribble(d)
	same(A, want, "block entry after the caller changed the source")
	d = clone(want)
	A, _ = linear.NewBlockRealMatrixFromSlices(d)
	scribblem(A, block)
	samem(d, want, "source slice after the matrix was changed")
}

// C01Factory: the factory stores the given entries in either representation.
func C01Factory(g []int) {
	m, n := g[0], g[1]
	d := sym.Mat("d", m, n)
	want := clone(d)
	A, err := linear.NewRealMatrixFromSlices(d)
	sym.Assert(err == nil, "factory refuses")
	same(A, want, "factory entry")
	scribble(d)
	same(A, want, "factory entry after the caller changed the source")
	d = clone(want)
	A, _ = linear.NewRealMatrixFromSlices(d)
	scribblem(A, dense)
	samem(d, want, "source slice after the matrix was changed")
}

// C01Diagonal: diagonal constructors store the diagonal and zeros elsewhere.
func C01Diagonal(g []int) {
	n := g[0]
	d := sym.F64s("d", n)
	w := zeros(n, n)
	for i := range d {
		w[i][i] = d[i]
	}
	vals := clonev(d)
	A, err := linear.NewDiagonalMatrixFromSlice(d)
	sym.Assert(err == nil, "diagonal constructor refuses")
	B, err := linear.NewDiagonalMatrix(d, true)
	sym.Assert(err == nil, "diagonal constructor refuses")
	C, err := linear.NewDiagonalMatrix(clonev(d), false)
	sym.Assert(err == nil, "diagonal constructor refuses")
	D, err := linear.NewRealDiagonalMatrix(d)
	sym.Assert(err == nil, "diagonal factory refuses")
	E, err := linear.NewRealMatrixWithDiagonal(d)
	sym.Assert(err == nil, "matrix-with-diagonal factory refuses")
	for i := range d {
		d[i] = 99
	}
	same(A, w, "diagonal entry (slice)")
	same(B, w, "diagonal entry (copy)")
	same(C, w, "diagonal entry (no copy)")
	same(D, w, "diagonal entry (factory)")
	same(E, w, "matrix with diagonal entry")
	d = clonev(vals)
	A, _ = linear.NewDiagonalMatrixFromSlice(d)
	scribblem(A, diag)
	sames(d, vals, "source slice after the diagonal matrix was changed")
}

// C01Vector: vector constructors store the given entries.
func C01Vector(g []int) {
	n := g[0]
	d := sym.F64s("d", n)
	e := sym.F64s("e", 2)
	want := clonev(d)
	both := append(clonev(d), e...)
	A, err := linear.NewArrayRealVectorFromSlice(d)
	sym.Assert(err == nil, "vector constructor refuses")
	B, _ := linear.NewArrayRealVector(d, true)
	C, _ := linear.NewArrayRealVector(clonev(d), false)
	D, _ := linear.NewRealVector(d)
	E, _ := linear.NewArrayRealVectorCopy(A)
	F, _ := linear.NewArrayRealVectorCopy(vec{A})
	w, _ := linear.NewArrayRealVectorFromSlice(e)
	G, _ := linear.NewArrayRealVectorFromTwoArrayRealVector(A, w)
	H, _ := linear.NewArrayRealVectorFromTwoRealVector(vec{A}, vec{w})
	for i := range d {
		d[i] = 99
	}
	samev(A, want, "vector entry (slice)")
	samev(B, want, "vector entry (copy)")
	samev(C, want, "vector entry (no copy)")
	samev(D, want, "vector entry (factory)")
	samev(E, want, "vector entry (of a vector)")
	samev(F, want, "vector entry (of any vector)")
	samev(G, both, "concatenated entry")
	samev(H, both, "concatenated entry (any vector)")
	scribblev(A)
	scribblev(w)
	samev(E, want, "copied vector after the source was changed")
	samev(F, want, "copied vector after the source was changed")
	samev(G, both, "concatenation after a source was changed")
	samev(H, both, "concatenation after a source was changed")
	d = clonev(want)
	B, _ = linear.NewArrayRealVector(d, true)
	scribblev(B)
	sames(d, want, "source slice after the vector was changed")
	p := sym.F64("preset")
	V, _ := linear.NewSizedArrayRealVectorWithPreset(n, p)
	sym.Assert(V.Dimension() == n, "preset dimension")
	for i := 0; i < n; i++ {
		sym.Same(V.At(i), p, "preset entry")
	}
	Z, _ := linear.NewSizedArrayRealVector(n)
	samev(Z, make([]float64, n), "zero vector")
}

// C01Zero: zero-initialised and identity matrices.
func C01Zero(g []int) {
	m, n := g[0], g[1]
	w := zeros(m, n)
	A, err := linear.NewArray2DRowRealMatrix(m, n)
	sym.Assert(err == nil, "dense constructor refuses")
	same(A, w, "dense zero")
	B, err := linear.NewBlockRealMatrix(m, n)
	sym.Assert(err == nil, "block constructor refuses")
	same(B, w, "block zero")
	C, err := linear.NewRealMatrixWithDimension(m, n)
	sym.Assert(err == nil, "factory refuses")
	same(C, w, "factory zero")
	D, err := linear.NewDiagonalMatrixWithDimension(n)
	sym.Assert(err == nil, "diagonal constructor refuses")
	same(D, zeros(n, n), "diagonal zero")
	E, err := linear.NewRealIdentityMatrix(n)
	sym.Assert(err == nil, "identity refuses")
	same(E, eye(n), "identity")
}

// C01Dims: which row and column counts are accepted.
func C01Dims(g []int) {
	r := sym.Int("rows")
	c := sym.Int("columns")
	sym.Assume(r <= 3)
	sym.Assume(c <= 3)
	low := -1000000000
	if g[0] == 2 || g[0] == 4 {
		low = -9
	}
	sym.Assume(r > low)
	sym.Assume(c > low)
	if r >= 1 && c >= 1 {
		r, c = split(r, 1, 3), split(c, 1, 3)
	}
	var e error
	var m linear.RealMatrix
	p, _ := sym.Panics(func() {
		switch g[0] {
		case 0:
			x, err := linear.NewArray2DRowRealMatrix(r, c)
			m, e = x, err
		case 1:
			x, err := linear.NewBlockRealMatrix(r, c)
			m, e = x, err
		case 2:
			m, e = linear.NewRealMatrixWithDimension(r, c)
		case 3:
			sym.Assume(r == c)
			x, err := linear.NewDiagonalMatrixWithDimension(r)
			m, e = x, err
		case 4:
			sym.Assume(r == c)
			m, e = linear.NewRealIdentityMatrix(r)
		}
	})
	if r < 1 || c < 1 {
		sym.Assert(p || e != nil, "a non-positive dimension is accepted")
		sym.Cover("refused")
		return
	}
	sym.Assert(!p && e == nil, "a positive dimension is refused")
	if p || e != nil {
		return
	}
	sym.Assert(m.RowDimension() == r, "row count")
	sym.Assert(m.ColumnDimension() == c, "column count")
	sym.Cover("accepted")
}

// C01Ragged: rows of different length are refused.
func C01Ragged(g []int) {
	m, n := g[0], g[1]
	d := sym.Mat("d", m, n)
	r := pick("row", spots(m))
	k := sym.IntIn("length", 0, 1) * (n + 1)
	if sym.IntIn("by one", 0, 1) == 1 {
		k = n - 1
	}
	d[r] = sym.F64s("e", k)
	try := func(f func() error, msg string) {
		var e error
		p, _ := sym.Panics(func() { e = f() })
		sym.Assert(p || e != nil, msg)
	}
	try(func() error { _, e := linear.NewArray2DRowRealMatrixFromSlices(d, true); return e }, "ragged rows accepted (dense, copy)")
	try(func() error { _, e := linear.NewArray2DRowRealMatrixFromSlices(d, false); return e }, "ragged rows accepted (dense)")
	try(func() error { _, e := linear.NewBlockRealMatrixFromSlices(d); return e }, "ragged rows accepted (block)")
	try(func() error { _, e := linear.NewRealMatrixFromSlices(d); return e }, "ragged rows accepted (factory)")
	// empty and missing data
	for _, x := range [][][]float64{nil, {}, {{}}, {{}, {}}, {nil}} {
		try(func() error { _, e := linear.NewArray2DRowRealMatrixFromSlices(x, true); return e }, "no data accepted (dense, copy)")
		try(func() error { _, e := linear.NewArray2DRowRealMatrixFromSlices(x, false); return e }, "no data accepted (dense)")
		try(func() error { _, e := linear.NewBlockRealMatrixFromSlices(x); return e }, "no data accepted (block)")
		try(func() error { _, e := linear.NewRealMatrixFromSlices(x); return e }, "no data accepted (factory)")
	}
	try(func() error { _, e := linear.NewDiagonalMatrixFromSlice(nil); return e }, "nil accepted (diagonal)")
	try(func() error { _, e := linear.NewArrayRealVectorFromSlice(nil); return e }, "nil accepted (vector)")
	try(func() error { _, e := linear.NewRealVector(nil); return e }, "nil accepted (vector factory)")
	try(func() error { _, e := linear.NewArrayRealVector(nil, false); return e }, "nil accepted (vector reference)")
}

// C01BlockData: block data laid out block by block gives the matrix.
func C01BlockData(g []int) {
	m, n := g[0], g[1]
	const b = 52
	d := sym.Mat("d", m, n)
	var bl [][]float64
	for i := 0; i < m; i += b {
		for j := 0; j < n; j += b {
			var x []float64
			for p := i; p < m && p < i+b; p++ {
				for q := j; q < n && q < j+b; q++ {
					x = append(x, d[p][q])
				}
			}
			bl = append(bl, x)
		}
	}
	A, err := linear.NewBlockRealMatrixFromBlockData(m, n, bl)
	sym.Assert(err == nil, "block data refused")
	if err == nil {
		same(A, d, "entry from block data")
	}
	k := sym.IntIn("block", 0, len(bl)-1)
	bl[k] = append(clonev(bl[k]), 1)
	_, err = linear.NewBlockRealMatrixFromBlockData(m, n, bl)
	sym.Assert(err != nil, "a block of the wrong size is accepted")
	bl[k] = bl[k][:len(bl[k])-1]
	_, err = linear.NewBlockRealMatrixFromBlockData(m, n, append(bl[:len(bl):len(bl)], []float64{1}))
	sym.Assert(err != nil, "too many blocks are accepted")
	_, err = linear.NewBlockRealMatrixFromBlockData(m, n, bl[:len(bl)-1])
	sym.Assert(err != nil, "too few blocks are accepted")
}

// C01Shared: the caller may give one slice as several rows.
func C01Shared(g []int) {
	kind, m, n := g[0], g[1], g[2]
	back := sym.F64s("d", m*n)
	x, want := make([][]float64, m), make([][]float64, m)
	two := sym.IntIn("rows", 0, 2)
	for i := range x {
		switch two {
		case 0: // one slice for all rows
			x[i] = back[:n]
		case 1: // two slices in turn
			x[i] = back[i%2*n : i%2*n+n]
		case 2: // neighbours on one array
			x[i] = back[i*n : i*n+n]
		}
		want[i] = clonev(x[i])
	}
	var A linear.RealMatrix
	var err error
	switch kind {
	case 0:
		A, err = linear.NewArray2DRowRealMatrixFromSlices(x, true)
	case 1:
		A, err = linear.NewBlockRealMatrixFromSlices(x)
	case 2:
		A, err = linear.NewRealMatrixFromSlices(x)
	case 3:
		A, err = linear.NewArray2DRowRealMatrix(m, n)
		sym.Assert(err == nil, "constructor refuses")
		A.SetSubMatrix(x, 0, 0)
	case 4:
		A, err = linear.NewBlockRealMatrix(m, n)
		sym.Assert(err == nil, "constructor refuses")
		A.SetSubMatrix(x, 0, 0)
	}
	sym.Assert(err == nil, "constructor refuses")
	same(A, want, "entry")
	i, j, v := pick("row", few(m)), pick("column", few(n)), sym.F64("v")
	A.SetEntry(i, j, v)
	want[i][j] = v
	same(A, want, "entry after one was set")
	A.SetRow((i+1)%m, make([]float64, n))
	want[(i+1)%m] = make([]float64, n)
	same(A, want, "entry after a row was set")
	for k := range back {
		back[k] = 7
	}
	same(A, want, "entry after the caller changed the source")
}
