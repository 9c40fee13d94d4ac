package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p07() []Harness {
	lib := []int{dense, block, foreign}
	own := []int{dense, block}
	return []Harness{
		{Prop: "P07", Name: "M07Full", Mode: "real", F: M07Full, Quick: append(with(cross(own, []int{dense, block, foreign}), a(1, 1, 1), a(2, 3, 2), a(3, 2, 4), a(1, 4, 1), a(3, 1, 3)), append(with(cross(own, []int{diag}), a(3, 2, 2), a(2, 3, 3)), with(cross([]int{diag}, []int{dense, block, diag, foreign}), a(3, 3, 3), a(2, 2, 2))...)...), Thorough: with(cross(own, lib), a(5, 6, 4), a(4, 7, 5)), Bound: "all entries of both operands symbolic, over the reals"},
		{Prop: "P07", Name: "M07Linear", Mode: "lin", F: M07Linear, Quick: append(with(cross([]int{0, 1}, own, own), a(53, 2, 2), a(2, 53, 3), a(2, 2, 53), a(1, 105, 1), a(2, 107, 2), a(1, 157, 1), a(54, 53, 2), a(2, 54, 106)), append(with(cross([]int{0, 1}, own, []int{foreign}), a(2, 53, 2), a(53, 2, 2)), with(cross([]int{0, 1}), a(block, diag, 2, 53, 53), a(diag, block, 53, 53, 2))...)...), Thorough: with(cross([]int{0, 1}, own, own), a(53, 54, 55), a(105, 54, 53), a(52, 104, 52)), Bound: "integer entries in one operand, all entries of the other symbolic, dimensions across block boundaries"},
		{Prop: "P07", Name: "M07Wide", Mode: "real", F: M07Wide, Quick: append(with(cross(own, own), a(53, 54, 53)), a(block, foreign, 54, 53, 53)), Thorough: with(cross(own, own), a(60, 105, 3), a(105, 106, 54), a(104, 52, 53), a(52, 104, 104), a(54, 54, 157)), Bound: "integer entries with one symbolic entry in each operand, at the ends, the middle and block boundaries"},
		{Prop: "P07", Name: "M07Apply", Mode: "real", F: M07Apply, Quick: append(with(cross(lib), a(1, 1), a(2, 3), a(3, 2), a(4, 5)), a(diag, 1, 1), a(diag, 3, 3), a(diag, 5, 5), a(diag, 9, 9), a(diag, 17, 17)), Bound: "all entries of matrix and vector symbolic, over the reals"},
		{Prop: "P07", Name: "M07ApplyLinear", Mode: "lin", F: M07ApplyLinear, Quick: with(cross([]int{0, 1}, own), a(53, 2), a(2, 53), a(54, 54), a(3, 105), a(105, 3), a(106, 2), a(110, 3), a(157, 2), a(2, 157), a(3, 107)), Thorough: with(cross([]int{0, 1}, own), a(105, 106), a(157, 3), a(3, 157)), Bound: "integer entries in the matrix (or the vectors), all entries of the other symbolic, dimensions across block boundaries"},
		{Prop: "P07", Name: "M07Power", Mode: "real", F: M07Power, Quick: append(with(cross([]int{dense, block, diag, foreign}), a(2, 0), a(2, 1), a(2, 2), a(2, 3), a(2, 4), a(2, 5), a(2, 6), a(2, 7), a(1, 9), a(1, 13), a(1, 21), a(1, 64), a(1, 8), a(1, 10), a(1, 11), a(1, 12), a(1, 15), a(1, 16), a(1, 17), a(1, 33), a(1, 50), a(1, 30), a(1, 32), a(1, 45), a(1, 48), a(1, 63), a(1, 65)), with(cross(own), a(3, 2), a(3, 3))...), Thorough: with(cross(own), a(3, 4), a(2, 8), a(2, 9), a(1, 100), a(1, 255)), Bound: "all entries symbolic, listed exponents, over the reals"},
		{Prop: "P07", Name: "M07PowerSparse", Mode: "real", F: M07PowerSparse, Quick: with(cross(own), a(4, 11), a(5, 23), a(53, 2), a(53, 3)), Thorough: with(cross(own), a(6, 64), a(54, 5)), Bound: "shift matrices with one symbolic entry, listed exponents"},
		{Prop: "P07", Name: "M07PowerExponent", Mode: "real", F: M07PowerExponent, Quick: l(a(dense, 0, 131), a(block, 0, 80), a(foreign, 0, 40), a(dense, 1, 9), a(dense, 2, 30), a(block, 3, 30)), Thorough: l(a(dense, 131, 400), a(block, 80, 260), a(dense, 4, 30), a(dense, 5, 30)), Bound: "every exponent of the listed ranges (and within 4 of 2^8, 2^12, 2^18, 2^24), on a 2 by 2 matrix whose powers grow linearly"},
		{Prop: "P07", Name: "M07PowerRefused", Mode: "fp", F: M07PowerRefused, Quick: l(a(dense), a(block), a(diag)), Bound: "every negative 64-bit exponent; non-square shapes"},
		{Prop: "P07", Name: "M07Special", Mode: "fp", F: M07Special, Quick: append(with(cross(own, lib), a(1, 1, 1), a(2, 3, 2), a(3, 2, 5), a(1, 9, 1)), with(cross([]int{block}, own), a(54, 3, 2), a(2, 3, 54))...), Thorough: with(cross(own, lib), a(54, 53, 3), a(9, 17, 9)), Bound: "small integers (zeros included) with one symbolic infinity or NaN in either operand, or in the vector; dense, block and other representations"},
		{Prop: "P07", Name: "M07Self", Mode: "real", F: M07Self, Quick: append(with(cross(own), a(1), a(2), a(3)), a(diag, 3)), Bound: "a matrix multiplied by itself and by its own transpose"},
	}
}

// M07Full: products of matrices.
func M07Full(g []int) {
	rep, srep, m, k, n := g[0], g[1], g[2], g[3], g[4]
	x, y := input(rep, "a", m, k), input(srep, "b", k, n)
	A, B := mk(rep, clone(x)), mk(srep, clone(y))
	want := mul(x, y)
	near(A.Multiply(B), want, 1e-9, "product")
	near(B.PreMultiplyMatrix(A), want, 1e-9, "premultiplied product")
	same(A, x, "left operand")
	same(B, y, "right operand")
}

// M07Linear: products with integer entries on one side.
func M07Linear(g []int) {
	side, rep, srep, m, k, n := g[0], g[1], g[2], g[3], g[4], g[5]
	x, y := integers(rep, m, k, 0), integers(srep, k, n, 3)
	if side == 0 {
		x = input(rep, "a", m, k)
	} else {
		y = input(srep, "b", k, n)
	}
	A, B := mk(rep, clone(x)), mk(srep, clone(y))
	want := mul(x, y)
	near(A.Multiply(B), want, 1e-9, "product")
	near(B.PreMultiplyMatrix(A), want, 1e-9, "premultiplied product")
	same(A, x, "left operand")
	same(B, y, "right operand")
}

func integers(rep, m, n, k int) [][]float64 {
	d := numbers(m, n, k)
	if rep == diag {
		for i := range d {
			for j := range d[i] {
				if i != j {
					d[i][j] = 0
				}
			}
		}
	}
	return d
}

// numbers is a family of small integers.
func numbers(m, n, k int) [][]float64 {
	d := zeros(m, n)
	for i := range d {
		for j := range d[i] {
			d[i][j] = float64((i*7+j*3+i*j+k)%11 - 5)
		}
	}
	return d
}

// M07Wide: products across blocks.
func M07Wide(g []int) {
	rep, srep, m, k, n := g[0], g[1], g[2], g[3], g[4]
	x, y := numbers(m, k, 0), numbers(k, n, 3)
	x[pick("i", few(m))][pick("k", few(k))] = sym.F64("u")
	t := pick("l", []int{0, 1})
	y[(k-1)*t][(n-1)*t] = sym.F64("v")
	A, B := mk(rep, clone(x)), mk(srep, clone(y))
	near(A.Multiply(B), mul(x, y), 1e-9, "product")
	same(A, x, "left operand")
	same(B, y, "right operand")
}

// M07Apply: matrices applied to slices and vectors.
func M07Apply(g []int) {
	rep, m, n := g[0], g[1], g[2]
	x := input(rep, "a", m, n)
	apply(rep, x, sym.F64s("v", n), sym.F64s("w", m))
}

// M07ApplyLinear: the same with integer entries on one side.
func M07ApplyLinear(g []int) {
	side, rep, m, n := g[0], g[1], g[2], g[3]
	if side == 0 {
		apply(rep, input(rep, "a", m, n), numbers(1, n, 1)[0], numbers(1, m, 2)[0])
	} else {
		apply(rep, integers(rep, m, n, 0), sym.F64s("v", n), sym.F64s("w", m))
	}
}

func apply(rep int, x [][]float64, y, z []float64) {
	m, n := len(x), len(x[0])
	A := mk(rep, clone(x))
	right, left := make([]float64, m), make([]float64, n)
	for i := range x {
		for j := range x[i] {
			right[i] += x[i][j] * y[j]
		}
	}
	for j := range left {
		for i := range x {
			left[j] += z[i] * x[i][j]
		}
	}
	s, t := clonev(y), clonev(z)
	nearv(mkv(dense, A.Operate(s)), right, 1e-9, "product with a slice")
	nearv(mkv(dense, A.PreMultiply(t)), left, 1e-9, "slice times matrix")
	sames(s, y, "slice operand")
	sames(t, z, "slice operand")
	for _, r := range []int{dense, foreign} {
		v, w := mkv(r, clonev(y)), mkv(r, clonev(z))
		nearv(A.OperateVector(v), right, 1e-9, "product with a vector")
		nearv(A.PreMultiplyVector(w), left, 1e-9, "vector times matrix")
		samev(v, y, "vector operand")
		samev(w, z, "vector operand")
	}
	same(A, x, "matrix")
}

// M07Power: powers.
func M07Power(g []int) {
	rep, n, p := g[0], g[1], g[2]
	x := input(rep, "a", n, n)
	A := mk(rep, clone(x))
	want := eye(n)
	for i := 0; i < p; i++ {
		want = mul(want, x)
	}
	R := linear.Power(A, p)
	near(R, want, 1e-9, "power")
	same(A, x, "base")
	scribblem(R, rep)
	same(A, x, "base after the power changed")
}

// M07PowerSparse: powers of a cyclic shift with one symbolic weight.
func M07PowerSparse(g []int) {
	rep, n, p := g[0], g[1], g[2]
	x := zeros(n, n)
	for i := range x {
		x[i][(i+1)%n] = 1
	}
	x[n-1][0] = sym.F64("u")
	x[0][0] = sym.F64("v")
	if n > 8 {
		x[0][0] = 0
	}
	A := mk(rep, clone(x))
	want := eye(n)
	for i := 0; i < p; i++ {
		want = mul(want, x)
	}
	near(linear.Power(A, p), want, 1e-9, "power")
	same(A, x, "base")
}

// M07PowerExponent: every exponent.
func M07PowerExponent(g []int) {
	rep, lo, hi := g[0], g[1], g[2]
	if lo > 0 && lo < 6 && hi < 40 {
		c := []int{0, 256, 4096, 1 << 18, 1 << 24, 1 << 30}[lo]
		lo, hi = c-hi/7, c+hi/7
	}
	u := sym.F64("u")
	sym.Within(u, 1000)
	x := [][]float64{{1 - u, -u}, {u, 1 + u}}
	A := mk(rep, clone(x))
	p := sym.IntIn("p", lo, hi)
	q := float64(p)
	near(linear.Power(A, p), [][]float64{{1 - q*u, -q * u}, {q * u, 1 + q*u}}, 1e-9, "power")
	same(A, x, "base")
}

// M07PowerRefused: powers that do not exist.
func M07PowerRefused(g []int) {
	rep := g[0]
	x := input(rep, "a", 2, 2)
	A := mk(rep, clone(x))
	p := sym.Int("p")
	sym.Assume(p < 0)
	sym.Assert(refused(func() { linear.Power(A, p) }), "negative power accepted")
	same(A, x, "base")
	if rep != diag {
		m, n := sym.IntIn("m", 1, 3), sym.IntIn("n", 1, 3)
		q := sym.IntIn("q", 0, 4)
		sym.Assume(m != n)
		y := sym.Mat("b", m, n)
		B := mk(rep, clone(y))
		sym.Assert(refused(func() { linear.Power(B, q) }), "power of a non-square matrix accepted")
		same(B, y, "base")
	}
}

// M07Self: both operands the same object.
func M07Self(g []int) {
	rep, n := g[0], g[1]
	x := input(rep, "a", n, n)
	A := mk(rep, clone(x))
	near(A.Multiply(A), mul(x, x), 1e-9, "square")
	near(A.PreMultiplyMatrix(A), mul(x, x), 1e-9, "square")
	near(A.Multiply(A.Transpose()), mul(x, transposed(x)), 1e-9, "product with the transpose")
	same(A, x, "operand")
}

// M07Special: one entry that is no finite number.
func M07Special(g []int) {
	rep, srep, m, k, n := g[0], g[1], g[2], g[3], g[4]
	x, y := numbers(m, k, 5), numbers(k, n, 5)
	u := sym.F64("u")
	sym.Assume(u-u != u-u)
	some := few
	if m*k*n <= 64 {
		some = every
	}
	c := pick("inner", some(k))
	if pick("side", []int{0, 1}) == 0 {
		x[pick("row", some(m))][c] = u
	} else {
		y[c][pick("column", some(n))] = u
	}
	want := zeros(m, n)
	for i := range want {
		for j := range want[i] {
			for t := range y {
				want[i][j] += x[i][t] * y[t][j]
			}
		}
	}
	A, B := mk(rep, clone(x)), mk(srep, clone(y))
	same(A.Multiply(B), want, "product with an infinity or NaN")
	same(B.PreMultiplyMatrix(A), want, "premultiplied product with an infinity or NaN")
	if n == 1 {
		w := transposed(want)[0]
		sames(A.Operate(transposed(y)[0]), w, "product with a slice")
		for _, r := range []int{dense, foreign} {
			samev(A.OperateVector(mkv(r, transposed(y)[0])), w, "product with a vector")
		}
	}
	if m == 1 {
		sames(B.PreMultiply(x[0]), want[0], "slice times matrix")
		for _, r := range []int{dense, foreign} {
			samev(B.PreMultiplyVector(mkv(r, clonev(x[0]))), want[0], "vector times matrix")
		}
	}
}
