package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p08() []Harness {
	walks := []int{0, 1, 2, 3, 4, 5}
	return []Harness{
		{Prop: "P08", Name: "W08Whole", Mode: "fp", F: W08Whole, Quick: append(append(with(cross([]int{dense, block, foreign}, walks), a(1, 1), a(2, 3), a(3, 2)), with(cross([]int{dense, block}, walks), a(1, 4), a(4, 1), a(5, 5), a(53, 2), a(2, 54), a(54, 53), a(157, 2), a(2, 157), a(106, 54), a(54, 106))...), with(cross([]int{diag}, walks), a(1, 1), a(2, 2), a(3, 3), a(4, 4), a(5, 5))...), Thorough: append(with(cross([]int{dense, block}, walks), a(105, 54), a(52, 157)), with(cross([]int{diag}, walks), a(8, 8))...), Bound: "all entries and all stored values symbolic, listed shapes"},
		{Prop: "P08", Name: "W08Bounded", Mode: "fp", F: W08Bounded, Quick: append(append(with(cross([]int{dense, block}, walks), a(3, 3, 0), a(2, 4, 0), a(4, 2, 0), a(1, 5, 0), a(5, 1, 0)), with(cross([]int{block}, walks), a(54, 3, 1), a(3, 54, 1), a(53, 105, 2), a(110, 2, 1), a(2, 110, 1), a(2, 160, 2), a(160, 2, 2), a(110, 55, 2), a(55, 110, 2))...), with(cross([]int{diag}, walks), a(3, 3, 0))...), Thorough: append(with(cross([]int{dense, block}, walks), a(5, 5, 0), a(105, 54, 1)), with(cross([]int{diag}, walks), a(5, 5, 0))...), Bound: "every rectangle of the small shapes; rectangles with bounds at the ends and block boundaries on the larger ones"},
		{Prop: "P08", Name: "W08Vector", Mode: "fp", F: W08Vector, Quick: cross([]int{0, 1, 2, 3}, []int{1, 2, 3, 4, 5, 6, 9}), Thorough: cross([]int{0, 1, 2, 3}, []int{9}), Bound: "every range; all entries and stored values symbolic"},
		{Prop: "P08", Name: "W08Nested", Mode: "fp", F: W08Nested, Quick: with(cross([]int{dense, block}, walks), a(2, 3), a(53, 2)), Bound: "the visitor reads the matrix during the walk"},
	}
}

// rec records a walk.
type rec struct {
	began, ended, n int
	args            [6]int
	order           int
	is, js          []int
	vals            []float64
	result          float64
	lastI, lastJ    int
	bad             bool
	look            linear.RealMatrix
}

func (v *rec) Start(rows, columns, startRow, endRow, startColumn, endColumn int) {
	v.began++
	v.bad = v.bad || v.n > 0 || v.ended > 0
	v.args = [6]int{rows, columns, startRow, endRow, startColumn, endColumn}
}

func (v *rec) visit(i, j int, x float64) {
	v.bad = v.bad || v.began != 1 || v.ended > 0
	if v.n > 0 {
		switch v.order {
		case 1: // rows
			v.bad = v.bad || i < v.lastI || i == v.lastI && j <= v.lastJ
		case 2: // columns
			v.bad = v.bad || j < v.lastJ || j == v.lastJ && i <= v.lastI
		}
	}
	v.lastI, v.lastJ = i, j
	v.n++
	v.is = append(v.is, i)
	v.js = append(v.js, j)
	v.vals = append(v.vals, x)
	if v.look != nil {
		sym.Same(v.look.At(i, j), x, "value shown to the visitor")
	}
}

func (v *rec) End() float64 {
	v.bad = v.bad || v.began != 1
	v.ended++
	return v.result
}

// keep is a preserving visitor.
type keep struct{ rec }

func (v *keep) Visit(i, j int, x float64) { v.visit(i, j, x) }

// change is an updating visitor storing w.
type change struct {
	rec
	w [][]float64
}

func (v *change) Visit(i, j int, x float64) float64 {
	v.visit(i, j, x)
	if i < 0 || i >= len(v.w) || j < 0 || j >= len(v.w[0]) {
		v.bad = true
		return 0
	}
	return v.w[i][j]
}

// fill gives the values an updating walk stores.
func fill(rep, m, n int) [][]float64 {
	if rep == diag {
		return input(diag, "w", m, n)
	}
	return sym.Mat("w", m, n)
}

func (v *rec) check(x [][]float64, r0, r1, c0, c1 int) {
	sym.Assert(v.began == 1 && v.ended == 1 && !v.bad, "walk out of order")
	sym.Assert(v.args == [6]int{len(x), len(x[0]), r0, r1, c0, c1}, "walk announces the wrong dimensions or bounds")
	sym.Assert(v.n == (r1-r0+1)*(c1-c0+1), "number of visited entries")
	seen := make([]bool, len(x)*len(x[0]))
	for k := range v.is {
		i, j := v.is[k], v.js[k]
		if i < r0 || i > r1 || j < c0 || j > c1 || seen[i*len(x[0])+j] {
			sym.Assert(false, "entry outside the bounds or visited twice")
			continue
		}
		seen[i*len(x[0])+j] = true
		sym.Same(v.vals[k], x[i][j], "visited value")
	}
}

func walk(A linear.RealMatrix, rep, kind int, x [][]float64, bounded bool, r0, r1, c0, c1 int, look bool) {
	m, n := len(x), len(x[0])
	res := sym.F64("result")
	var got float64
	if kind < 3 {
		v := &keep{}
		v.result = res
		if look {
			v.look = A
		}
		v.order = []int{1, 2, 0}[kind]
		switch {
		case kind == 0 && bounded:
			got = A.WalkInRowOrderBounded(v, r0, r1, c0, c1)
		case kind == 1 && bounded:
			got = A.WalkInColumnOrderBounded(v, r0, r1, c0, c1)
		case bounded:
			got = A.WalkInOptimizedOrderBounded(v, r0, r1, c0, c1)
		case kind == 0:
			got = A.WalkInRowOrder(v)
		case kind == 1:
			got = A.WalkInColumnOrder(v)
		default:
			got = A.WalkInOptimizedOrder(v)
		}
		v.check(x, r0, r1, c0, c1)
		same(A, x, "matrix after a preserving walk")
	} else {
		v := &change{}
		v.result = res
		if look {
			v.look = A
		}
		v.order = []int{1, 2, 0}[kind-3]
		v.w = fill(rep, m, n)
		switch {
		case kind == 3 && bounded:
			got = A.WalkInUpdateRowOrderBounded(v, r0, r1, c0, c1)
		case kind == 4 && bounded:
			got = A.WalkInUpdateColumnOrderBounded(v, r0, r1, c0, c1)
		case bounded:
			got = A.WalkInUpdateOptimizedOrderBounded(v, r0, r1, c0, c1)
		case kind == 3:
			got = A.WalkInUpdateRowOrder(v)
		case kind == 4:
			got = A.WalkInUpdateColumnOrder(v)
		default:
			got = A.WalkInUpdateOptimizedOrder(v)
		}
		v.check(x, r0, r1, c0, c1)
		y := clone(x)
		for i := r0; i <= r1; i++ {
			for j := c0; j <= c1; j++ {
				y[i][j] = v.w[i][j]
			}
		}
		same(A, y, "matrix after an updating walk")
	}
	sym.Same(got, res, "value returned by the walk")
}

// W08Whole: walks over the whole matrix.
func W08Whole(g []int) {
	rep, kind, m, n := g[0], g[1], g[2], g[3]
	x := input(rep, "a", m, n)
	walk(mk(rep, clone(x)), rep, kind, x, false, 0, m-1, 0, n-1, false)
}

// W08Nested: the visitor looks at the matrix.
func W08Nested(g []int) {
	rep, kind, m, n := g[0], g[1], g[2], g[3]
	x := input(rep, "a", m, n)
	walk(mk(rep, clone(x)), rep, kind, x, false, 0, m-1, 0, n-1, true)
	walk(mk(rep, clone(x)), rep, kind, x, true, 0, m-1, 0, n-1, true)
}

// W08Bounded: walks over a rectangle.
func W08Bounded(g []int) {
	rep, kind, m, n, few := g[0], g[1], g[2], g[3], g[4]
	x := input(rep, "a", m, n)
	bounds := func(name string, n int) (int, int) {
		if n <= 8 {
			lo := sym.IntIn(name+"0", 0, n-1)
			return lo, sym.IntIn(name+"1", lo, n-1)
		}
		s := []int{0, 51, 52, n - 2, n - 1}
		if few == 2 {
			s = []int{0, 51, 52, n - 1}
		}
		lo := pick(name+"0", s)
		hi := pick(name+"1", s)
		sym.Assume(hi >= lo)
		return lo, hi
	}
	r0, r1 := bounds("r", m)
	c0, c1 := bounds("c", n)
	walk(mk(rep, clone(x)), rep, kind, x, true, r0, r1, c0, c1, false)
}

// vrec records a vector walk.
type vrec struct {
	began, ended, n int
	args            [3]int
	last            int
	bad, any        bool
	is              []int
	vals            []float64
	result          float64
}

func (v *vrec) Start(dimension, start, end int) {
	v.began++
	v.bad = v.bad || v.n > 0 || v.ended > 0
	v.args = [3]int{dimension, start, end}
}

func (v *vrec) visit(i int, x float64) {
	v.bad = v.bad || v.began != 1 || v.ended > 0 || !v.any && v.n > 0 && i <= v.last
	v.last = i
	v.n++
	v.is = append(v.is, i)
	v.vals = append(v.vals, x)
}

func (v *vrec) End() float64 {
	v.bad = v.bad || v.began != 1
	v.ended++
	return v.result
}

type vkeep struct{ vrec }

func (v *vkeep) Visit(i int, x float64) { v.visit(i, x) }

type vchange struct {
	vrec
	w []float64
}

func (v *vchange) Visit(i int, x float64) float64 {
	v.visit(i, x)
	if i < 0 || i >= len(v.w) {
		v.bad = true
		return 0
	}
	return v.w[i]
}

func (v *vrec) check(x []float64, lo, hi int) {
	sym.Assert(v.began == 1 && v.ended == 1 && !v.bad, "walk out of order")
	sym.Assert(v.args == [3]int{len(x), lo, hi}, "walk announces the wrong dimension or bounds")
	sym.Assert(v.n == hi-lo+1, "number of visited entries")
	seen := make([]bool, len(x))
	for k, i := range v.is {
		if i < lo || i > hi || seen[i] {
			sym.Assert(false, "entry outside the bounds or visited twice")
			continue
		}
		seen[i] = true
		sym.Same(v.vals[k], x[i], "visited value")
	}
}

// W08Vector: walks over vectors.
func W08Vector(g []int) {
	kind, n := g[0], g[1]
	x := sym.F64s("a", n)
	v := mkv(dense, clonev(x))
	res := sym.F64("result")
	bounded := sym.IntIn("bounded", 0, 1) == 1
	lo, hi := 0, n-1
	if bounded {
		lo = sym.IntIn("lo", 0, n-1)
		hi = sym.IntIn("hi", lo, n-1)
	}
	var got float64
	if kind < 2 {
		r := &vkeep{}
		r.result = res
		r.any = kind == 1
		switch {
		case kind == 0 && bounded:
			got = v.WalkInDefaultOrderBounded(r, lo, hi)
		case kind == 0:
			got = v.WalkInDefaultOrder(r)
		case bounded:
			got = v.WalkInOptimizedOrderBounded(r, lo, hi)
		default:
			got = v.WalkInOptimizedOrder(r)
		}
		r.check(x, lo, hi)
		samev(v, x, "vector after a preserving walk")
	} else {
		r := &vchange{}
		r.result = res
		r.any = kind == 3
		r.w = sym.F64s("w", n)
		switch {
		case kind == 2 && bounded:
			got = v.WalkInUpdateDefaultOrderBounded(r, lo, hi)
		case kind == 2:
			got = v.WalkInUpdateDefaultOrder(r)
		case bounded:
			got = v.WalkInUpdateOptimizedOrderBounded(r, lo, hi)
		default:
			got = v.WalkInUpdateOptimizedOrder(r)
		}
		r.check(x, lo, hi)
		y := clonev(x)
		for i := lo; i <= hi; i++ {
			y[i] = r.w[i]
		}
		samev(v, y, "vector after an updating walk")
	}
	sym.Same(got, res, "value returned by the walk")
}
