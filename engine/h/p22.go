package h

import (
	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p22() []Harness {
	return []Harness{
		{Prop: "P22", Name: "S22Small", Mode: "real", F: S22Small, Quick: l(a(dense, 1), a(block, 1), a(diag, 1), a(foreign, 1), a(diag, 2), a(diag, 3), a(diag, 5)), Bound: "all matrices of the listed sizes, over the reals"},
		{Prop: "P22", Name: "S22Zero", Mode: "real", F: S22Zero, Quick: l(a(1), a(2), a(3), a(5)), Bound: "zero matrix"},
		{Prop: "P22", Name: "S22Two", Mode: "real", F: S22Two, Quick: l(a(dense, 0), a(block, 0), a(foreign, 0), a(dense, 1)), Thorough: l(a(block, 1), a(foreign, 1)), Bound: "all 2 by 2 matrices with complex (0) or real (1) eigenvalues"},
		{Prop: "P22", Name: "S22Blocks", Mode: "real", F: S22Blocks, Quick: l(a(1, 1), a(2, 1), a(1, 2), a(1, 3), a(1, 1, 1), a(2, 2), a(4, 2), a(2, 4), a(4, 4), a(1, 2, 1), a(1, 1, 4, 1), a(2, 9, 9), a(9, 9, 2), a(9, 2, 9), a(9, 9, 9, 2), a(9, 9, 1, 9), a(9, 4, 9, 9)), Thorough: l(a(4, 1, 4), a(3, 1), a(2, 1, 4), a(4, 2, 1), a(3, 2), a(2, 3), a(3, 3), a(3, 4), a(4, 3), a(1, 3, 1), a(2, 1, 3)), Bound: "block upper triangular matrices of the listed 1 by 1 (1) and 2 by 2 blocks with complex (2) and real (3, 4) eigenvalues, entries symbolic within 1000"},
		{Prop: "P22", Name: "S22Turned", Mode: "real", F: S22Turned, Thorough: l(a(5, 1), a(4, 1), a(1, 1, 1), a(5, 5), a(4, 5), a(1, 1, 1, 1)), Bound: "such matrices turned by a symbolic reflection"},
		{Prop: "P22", Name: "S22Step", Mode: "real", F: S22Step, Quick: cross([]int{0, 1, 2, 3, 4}, []int{-2, 1}, []int{0}), Thorough: cross([]int{0, 1, 2}, []int{-2, 1}, []int{1}), Bound: "3 by 3 matrices for which one double step converges, plus a symbolic multiple of the identity"},
		{Prop: "P22", Name: "S22Tiny", Mode: "real", F: S22Tiny, Quick: l(a(2, 0), a(3, 0), a(3, 1)), Bound: "matrices within 1000 with one symbolic negligible entry below the diagonal"},
		{Prop: "P22", Name: "S22Long", Mode: "lin", F: S22Long, Quick: l(a(84)), Thorough: l(a(60), a(120)), Bound: "concrete matrices with many complex pairs and no real eigenvalue between them, applied to a plane of vectors", Steps: 10},
		{Prop: "P22", Name: "S22Any", Mode: "lin", F: S22Any, Quick: l(a(2), a(3), a(4), a(6)), Thorough: l(a(5), a(7), a(10)), Bound: "the decomposition of concrete matrices of the listed size and of scales 1e-20 to 1e20 applied to every vector in [-1,1]^n"},
	}
}

// schur checks a Schur decomposition.
func schur(A linear.RealMatrix, x [][]float64) {
	n := len(x)
	d, err := linear.NewSchurTransformer(A)
	sym.Assert(err == nil, "Schur form of a square matrix")
	P, PT, T := entries(d.P()), entries(d.PT()), entries(d.T())
	sym.Assert(len(P) == n && len(P[0]) == n && len(T) == n && len(T[0]) == n, "shape of the factors")
	equals(PT, transposed(P), "PT is the transpose of P")
	orthogonal(P, "P")
	for i := range T {
		for j := 0; j < i-1; j++ {
			sym.Assert(T[i][j] == 0, "T is quasi-triangular")
		}
	}
	for i := 1; i < n; i++ {
		if T[i][i-1] == 0 {
			continue
		}
		sym.Assert(i == 1 || T[i-1][i-2] == 0, "blocks of T do not overlap")
		sym.Assert(i == n-1 || T[i+1][i] == 0, "blocks of T do not overlap")
		h := T[i-1][i-1] - T[i][i]
		sym.Assert(h*h+4*T[i][i-1]*T[i-1][i] < 0, "a 2 by 2 block of T has complex eigenvalues")
	}
	equals(mul(mul(P, T), PT), x, "P*T*PT is the matrix")
	same(A, x, "decomposed matrix")
}

// S22Small: all matrices.
func S22Small(g []int) {
	rep, n := g[0], g[1]
	x := input(rep, "a", n, n)
	schur(mk(rep, clone(x)), x)
}

// S22Zero: the zero matrix in every representation.
func S22Zero(g []int) {
	for _, rep := range []int{dense, block, diag, foreign} {
		x := zeros(g[0], g[0])
		schur(mk(rep, clone(x)), x)
	}
}

// complexBlock is any 2 by 2 matrix with complex eigenvalues.
func complexBlock(name string) [][]float64 {
	s, p, c, m := sym.F64(name+"s"), sym.F64(name+"p"), sym.F64(name+"c"), sym.F64(name+"m")
	sym.Size(c, 0.001, 1000)
	sym.Assume(c != 0)
	sym.Assume(m > 0)
	return limit([][]float64{{s + p, -(m*m + p*p) / c}, {c, s - p}})
}

// realBlock is any 2 by 2 matrix with real eigenvalues, up to a reflection of
// the axes.
func realBlock(name string, v float64) [][]float64 {
	s, m, w := sym.F64(name+"s"), sym.F64(name+"m"), sym.F64(name+"w")
	// upper triangular with gap m(1-v^2) and corner 2mv, then turned
	x := [][]float64{{s, 2 * m * v}, {0, s + m*(1-v*v)}}
	turn(x, 0, []float64{w})
	x = transposed(x)
	turn(x, 0, []float64{w})
	x = transposed(x)
	sign(m)
	sign(1 - v*v)
	sign(x[1][0])
	sign(x[0][0] - x[1][1])
	apart(x[1][0])
	return limit(x)
}

// limit bounds the entries of x.
func limit(x [][]float64) [][]float64 {
	for i := range x {
		for j := range x[i] {
			sym.Within(x[i][j], 1000)
		}
	}
	return x
}

// S22Two: 2 by 2 matrices.
func S22Two(g []int) {
	rep, kind := g[0], g[1]
	x := complexBlock("z")
	if kind == 1 {
		x = realBlock("z", sym.F64("zv"))
	}
	schur(mk(rep, clone(x)), x)
}

// blocks is a block upper triangular matrix.
func blocks(kinds []int) [][]float64 {
	n := 0
	for _, k := range kinds {
		n++
		if k > 1 && k < 9 {
			n++
		}
	}
	x := sym.Mat("t", n, n)
	at := 0
	for b, k := range kinds {
		name := "b" + string(rune('0'+b))
		var y [][]float64
		switch k {
		case 1:
			y = [][]float64{{x[at][at]}}
		case 2:
			y = complexBlock(name)
		case 3:
			y = realBlock(name, 0.5)
		case 5:
			s, m := sym.F64(name+"s"), sym.F64(name+"m")
			apart(m)
			y = [][]float64{{s + m, -5 * m}, {m, s - m}}
		case 4:
			s, m := sym.F64(name+"s"), sym.F64(name+"m")
			apart(m)
			y = [][]float64{{s + 3*m, 8 * m}, {9 * m, s - 3*m}}
		case 9:
			y = [][]float64{{[]float64{6, -0.25, 40, 1.5, -3, 11}[b]}}
		}
		for i := range y {
			for j := 0; j < at; j++ {
				x[at+i][j] = 0
			}
			copy(x[at+i][at:], y[i])
		}
		at += len(y)
	}
	return x
}

// S22Blocks: decoupled larger matrices.
func S22Blocks(g []int) {
	x := limit(blocks(g))
	schur(mk(dense, clone(x)), x)
}

// S22Turned: decoupled matrices in other coordinates.
func S22Turned(g []int) {
	x := limit(blocks(g))
	n := len(x)
	for i := range x {
		for j := i + 2; j < n; j++ {
			x[i][j] = float64((i+j)%3 - 1)
		}
	}
	u := make([]float64, n-2)
	for i := range u {
		u[i] = float64(i - 1)
	}
	u[0] = sym.F64("u")
	turn(x, 1, u)
	x = transposed(x)
	turn(x, 1, u)
	x = transposed(x)
	for i := 1; i < n; i++ {
		sign(x[i][0])
	}
	schur(mk(dense, clone(x)), x)
}

// S22Tiny: a negligible entry below the diagonal.
func S22Tiny(g []int) {
	n, k := g[0], g[1]
	x := sym.Mat("t", n, n)
	for i := range x {
		for j := 0; j < i; j++ {
			x[i][j] = 0
		}
	}
	limit(x)
	c := sym.F64("c")
	sym.Assume(c > 0)
	sym.Assume(c <= 1e-17)
	x[k+1][k] = c
	sym.Assume(x[k][k] > 1)
	schur(mk(dense, clone(x)), x)
}

// scales are powers of ten.
func scales() []float64 { return []float64{1, 1e-20, 1e-12, 1e-6, 1e6, 1e12, 1e20} }

// reach are the scales for what neither iterates nor has a threshold.
func reach() []float64 { return append(scales(), 1e-60, 1e60) }

// some is the k-th dense m by n matrix, times f. Some of its entries are zero.
func some(m, n, k int, f float64) [][]float64 {
	x := zeros(m, n)
	s := 12345 + 777*k
	for i := range x {
		for j := range x[i] {
			s = (s*1103515245 + 12345) % 2147483648
			x[i][j] = float64(s/65536%2001-1000) / 100 * f
			if k%3 == 2 && s/1048576%3 == 0 {
				x[i][j] = 0
			}
		}
	}
	return x
}

// vary is any column in [-1,1]^n.
func vary(n int) [][]float64 {
	return column(small([][]float64{sym.F64s("v", n)})[0])
}

// special lists matrices that are hard for iterations: cyclic, companion,
// defective, graded, rotation, with repeated rows.
func special(n int) [][][]float64 {
	var r [][][]float64
	add := func(f func(i, j int) float64) {
		x := zeros(n, n)
		for i := range x {
			for j := range x[i] {
				x[i][j] = f(i, j)
			}
		}
		r = append(r, x)
	}
	is := func(b bool) float64 {
		if b {
			return 1
		}
		return 0
	}
	add(func(i, j int) float64 { return is(j == (i+1)%n) })
	add(func(i, j int) float64 { return is(j == (i+2)%n) - is(j == (i+1)%n) })
	add(func(i, j int) float64 { return is(j == i+1) - is(i == n-1)*float64(j*j+1) })
	add(func(i, j int) float64 { return is(j == i+1) + 2*is(i == j) })
	add(func(i, j int) float64 { return is(i == j+1) + 3*is(i == j) })
	add(func(i, j int) float64 {
		p := 1.
		for k := 0; k < i+j; k++ {
			p /= 8
		}
		return p * float64((i*3+j*5)%7-3)
	})
	add(func(i, j int) float64 { return is(j == i+1) - is(i == j+1) })
	add(func(i, j int) float64 { return is(i/2 == j/2) * (is(j > i) - is(i > j) + 0.5*is(i == j)) })
	add(func(i, j int) float64 { return float64(i%2*3 + 1 + j) })
	add(func(i, j int) float64 { return 1 })
	add(func(i, j int) float64 { return is(i+j == n-1) })
	return r
}

// stray lists m by n matrices with entries so small that their squares vanish.
func stray(m, n int) [][][]float64 {
	var r [][][]float64
	add := func(f func(i, j int) float64) {
		x := zeros(m, n)
		for i := range x {
			for j := range x[i] {
				x[i][j] = f(i, j)
			}
		}
		r = append(r, x)
	}
	add(func(i, j int) float64 {
		if i == j {
			return float64(i + 1)
		}
		return 1e-170
	})
	add(func(i, j int) float64 {
		if i == j {
			return 2 - float64(j%2)
		}
		if i+j == 1 {
			return 3e-190
		}
		return 0
	})
	add(func(i, j int) float64 {
		if i == j {
			return 1
		}
		if i-j == 1 || j-i == 1 {
			return 2e-174
		}
		return 0
	})
	add(func(i, j int) float64 {
		if j == 0 || i == 0 {
			return 5e-180 * float64(i+j+1)
		}
		return float64((i*3 + j*3 + i*j) % 7)
	})
	add(func(i, j int) float64 {
		if j == min(m, n)-1 || i == min(m, n)-1 {
			return 1e-300
		}
		return float64((i+j)%5 + 1)
	})
	return r
}

// S22Any: P*T*PT and A act alike on every vector.
func S22Any(g []int) {
	n := g[0]
	v := vary(n)
	for k := 1; k < 6; k++ {
		for _, f := range scales() {
			acting(some(n, n, k, f), v, f)
		}
	}
	for _, x := range special(n) {
		acting(x, v, 1)
		acting(scaled(x, 1e12), v, 1e12)
		acting(scaled(x, 1e-12), v, 1e-12)
	}
	for _, x := range stray(n, n) {
		acting(x, v, 1)
	}
}

// S22Long: the steps taken for one pair do not count for the next.
func S22Long(g []int) {
	n := g[0]
	v := plane(n)
	x := zeros(n, n)
	for i := range x {
		for j := i + 1; j < n; j++ {
			t := float64((i*i*7+j*13+i*j*3)%17) - 8
			x[i][j], x[j][i] = t, -t
		}
	}
	acting(x, v, 1)
}

// plane is any combination of two columns, with coefficients in [-1,1].
func plane(n int) [][]float64 {
	c := small([][]float64{sym.F64s("v", 2)})[0]
	v := zeros(n, 1)
	for i := range v {
		v[i][0] = c[0]*float64(i%5-1)/4 + c[1]*float64(i%7-2)/5
	}
	return v
}

// scaled is f*x.
func scaled(x [][]float64, f float64) [][]float64 {
	x = clone(x)
	for i := range x {
		for j := range x[i] {
			x[i][j] *= f
		}
	}
	return x
}

// acting checks the Schur decomposition of x, of scale f.
func acting(x, v [][]float64, f float64) {
	d, err := linear.NewSchurTransformer(mk(dense, clone(x)))
	sym.Assert(err == nil, "Schur form of a square matrix")
	P, PT, T := entries(d.P()), entries(d.PT()), entries(d.T())
	y := mul(P, mul(T, mul(PT, v)))
	z := mul(x, v)
	for i := range z {
		sym.Near(y[i][0]/f, z[i][0]/f, 1e-8, "P*T*PT acts like the matrix")
	}
	y = mul(P, mul(PT, v))
	for i := range z {
		sym.Near(y[i][0], v[i][0], 1e-10, "P is orthogonal")
	}
	for i := range T {
		for j := 0; j < i-1; j++ {
			sym.Assert(T[i][j] == 0, "T is quasi-triangular")
		}
		if i == 0 || T[i][i-1] == 0 {
			continue
		}
		sym.Assert(i == 1 || T[i-1][i-2] == 0, "blocks of T do not overlap")
		h := (T[i-1][i-1] - T[i][i]) / 2 / f
		sym.Assert(h*h+T[i][i-1]/f*T[i-1][i]/f < 0, "a 2 by 2 block of T has complex eigenvalues")
	}
}

// S22Step: a matrix that one double step brings to its form. The shift has
// the eigenvalues of the trailing block; (p, q, r) is the direction of the
// eigenvector of the other one.
func S22Step(g []int) {
	w := []float64{0.5, -0.5, 2, -3, 0.25}[g[0]]
	c := []float64{2, -1, 0.5, 4, -3}[g[0]]
	a := sym.F64("a")
	if g[2] == 1 {
		c = sym.F64("c")
		sym.Assume(c <= 1000)
		sym.Assume(c >= 0.001)
	}
	sym.Assume(a <= 1000)
	sym.Assume(a >= -1000)
	p, q, r := 5-5*w*w, 8*w, 6*w
	b11 := a - q + float64(g[1])
	x := [][]float64{{a, 0, 0}, {c, b11, ((a-b11)*q - p*c) / r}, {0, r, a - q}}
	schur(mk(dense, clone(x)), x)
}
