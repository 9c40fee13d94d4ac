package h

import (
	"verif/engine/sym"
)

func p06() []Harness {
	lib := []int{dense, block, foreign}
	op := []int{0, 1}
	return []Harness{
		{Prop: "P06", Name: "E06Sum", Mode: "fp", F: E06Sum, Quick: append(append(with(cross(lib, lib, op), a(1, 1), a(2, 3), a(3, 2)), with(cross([]int{dense, block}, lib, op), a(1, 4), a(5, 5), a(53, 2), a(2, 53), a(54, 106), a(105, 54), a(2, 157), a(157, 2))...), with(cross([]int{dense, block, diag, foreign}, []int{diag}, op), a(1, 1), a(2, 2), a(3, 3), a(4, 4), a(5, 5), a(8, 8))...), Thorough: with(cross([]int{dense, block}, lib, op), a(157, 54), a(104, 105)), Bound: "all entries of both operands symbolic, listed shapes, every pair of representations"},
		{Prop: "P06", Name: "E06Diagonal", Mode: "fp", F: E06Diagonal, Quick: with(cross([]int{dense, block, foreign}, op), a(1), a(2), a(3), a(4)), Thorough: with(cross([]int{dense, block, foreign}, op), a(6)), Bound: "diagonal receiver, diagonal operand stored densely; off-diagonal zeros of either sign"},
		{Prop: "P06", Name: "E06Scalar", Mode: "fp", F: E06Scalar, Quick: append(with(cross(lib), a(1, 1), a(2, 3), a(3, 2)), with(cross([]int{dense, block}), a(1, 4), a(5, 5), a(53, 2), a(2, 53), a(54, 106), a(105, 54), a(2, 157), a(157, 2))...), Thorough: with(cross([]int{dense, block}), a(157, 54), a(104, 105)), Bound: "all entries and the scalar symbolic"},
		{Prop: "P06", Name: "E06DiagScalar", Mode: "fp", F: E06DiagScalar, Quick: l(a(1), a(2), a(3), a(4), a(5), a(8)), Thorough: l(a(6)), Bound: "all diagonal entries and the finite scalar symbolic"},
		{Prop: "P06", Name: "E06Self", Mode: "fp", F: E06Self, Quick: append(with(cross([]int{dense, block}), a(2, 3), a(54, 53)), a(diag, 3, 3)), Bound: "a matrix added to and subtracted from itself"},
	}
}

func plus(op int, x, y float64) float64 {
	if op == 0 {
		return x + y
	}
	return x - y
}

// E06Sum: sum and difference.
func E06Sum(g []int) {
	rep, srep, op, m, n := g[0], g[1], g[2], g[3], g[4]
	x, y := input(rep, "a", m, n), input(srep, "b", m, n)
	A, B := mk(rep, clone(x)), mk(srep, clone(y))
	want := zeros(m, n)
	for i := range want {
		for j := range want[i] {
			want[i][j] = plus(op, x[i][j], y[i][j])
		}
	}
	R := A.Add
	if op == 1 {
		R = A.Subtract
	}
	C := R(B)
	same(C, want, "result")
	same(A, x, "left operand")
	same(B, y, "right operand")
	scribblem(A, rep)
	scribblem(B, srep)
	same(C, want, "result after the operands changed")
	A, B = mk(rep, clone(x)), mk(srep, clone(y))
	if op == 0 {
		C = A.Add(B)
	} else {
		C = A.Subtract(B)
	}
	crep := rep
	if rep == diag && srep == diag {
		crep = diag
	}
	scribblem(C, crep)
	same(A, x, "left operand after the result changed")
	same(B, y, "right operand after the result changed")
}

// E06Diagonal: a diagonal receiver with a diagonal operand in another
// representation.
func E06Diagonal(g []int) {
	srep, op, n := g[0], g[1], g[2]
	x := input(diag, "a", n, n)
	y := sym.Mat("b", n, n)
	for i := range y {
		for j := range y[i] {
			if i != j {
				sym.Assume(y[i][j] == 0)
			}
		}
	}
	A, B := mk(diag, clone(x)), mk(srep, clone(y))
	want := zeros(n, n)
	for i := range want {
		want[i][i] = plus(op, x[i][i], y[i][i])
	}
	C := A.Add
	if op == 1 {
		C = A.Subtract
	}
	R := C(B)
	same(R, want, "result")
	same(A, x, "left operand")
	same(B, y, "right operand")
	scribblem(R, diag)
	same(A, x, "left operand after the result changed")
	same(B, y, "right operand after the result changed")
}

// E06Scalar: scalar sum and product.
func E06Scalar(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := input(rep, "a", m, n)
	A := mk(rep, clone(x))
	s := sym.F64("s")
	sum, prod := zeros(m, n), zeros(m, n)
	for i := range x {
		for j := range x[i] {
			sum[i][j] = x[i][j] + s
			prod[i][j] = x[i][j] * s
		}
	}
	S, P := A.ScalarAdd(s), A.ScalarMultiply(s)
	same(S, sum, "scalar sum")
	same(P, prod, "scalar product")
	same(A, x, "operand")
	scribblem(A, rep)
	same(S, sum, "scalar sum after the operand changed")
	same(P, prod, "scalar product after the operand changed")
	A = mk(rep, clone(x))
	scribblem(A.ScalarAdd(s), rep)
	scribblem(A.ScalarMultiply(s), rep)
	same(A, x, "operand after the result changed")
}

// E06DiagScalar: scalar product of a diagonal matrix.
func E06DiagScalar(g []int) {
	n := g[0]
	x := input(diag, "a", n, n)
	A := mk(diag, clone(x))
	s := sym.F64("s")
	sym.Assume(sym.Real(s))
	P := A.ScalarMultiply(s)
	want := zeros(n, n)
	for i := range want {
		want[i][i] = x[i][i] * s
	}
	same(P, want, "scalar product")
	same(A.ScalarAdd(0), addZero(x), "scalar sum with zero")
	if n == 1 {
		sym.Same(A.ScalarAdd(s).At(0, 0), x[0][0]+s, "scalar sum")
	}
	same(A, x, "operand")
	scribblem(P, diag)
	same(A, x, "operand after the result changed")
}

func addZero(x [][]float64) [][]float64 {
	r := zeros(len(x), len(x))
	for i := range r {
		r[i][i] = x[i][i] + 0
	}
	return r
}

// E06Self: both operands are the same object.
func E06Self(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := input(rep, "a", m, n)
	A := mk(rep, clone(x))
	S, D := A.Add(A), A.Subtract(A)
	two, none := zeros(m, n), zeros(m, n)
	for i := range x {
		for j := range x[i] {
			two[i][j] = x[i][j] + x[i][j]
			none[i][j] = x[i][j] - x[i][j]
		}
	}
	same(S, two, "sum with itself")
	same(D, none, "difference with itself")
	same(A, x, "operand")
	scribblem(S, rep)
	scribblem(D, rep)
	same(A, x, "operand after the result changed")
}
