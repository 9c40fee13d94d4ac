package h

import (
	"math"

	"github.com/jtejido/linear"
	"verif/engine/sym"
)

func p12() []Harness {
	src := []int{dense, foreign}
	return []Harness{
		{Prop: "P12", Name: "N12Norm", Mode: "real", F: N12Norm, Quick: cross(src, sizes(0, 9, 16, 20)), Thorough: cross(src, []int{100}), Bound: "all entries symbolic, over the reals"},
		{Prop: "P12", Name: "N12Abs", Mode: "real", F: N12Abs, Quick: cross(src, []int{0, 1, 2, 3}), Thorough: cross(src, []int{4, 5}), Bound: "all entries symbolic (every sign pattern and order), over the reals"},
		{Prop: "P12", Name: "N12AbsLong", Mode: "real", F: N12AbsLong, Quick: cross(src, sizes(2, 9, 16, 40)), Bound: "alternating signs; one symbolic dominant entry at the ends and the middle"},
		{Prop: "P12", Name: "N12Dist", Mode: "real", F: N12Dist, Quick: cross(src, src, []int{0, 1, 2, 3}), Thorough: cross(src, src, []int{4, 5}), Bound: "all entries of both vectors symbolic, over the reals"},
		{Prop: "P12", Name: "N12Dot", Mode: "real", F: N12Dot, Quick: cross(src, src, sizes(0, 9, 16, 30)), Bound: "all entries symbolic, over the reals"},
		{Prop: "P12", Name: "N12DotLong", Mode: "lin", F: N12DotLong, Quick: cross(src, src, []int{33, 64, 65, 130, 600}), Thorough: cross(src, src, []int{1030, 4100}), Bound: "all entries of one vector symbolic within [-1,1], the other concrete"},
		{Prop: "P12", Name: "N12Cosine", Mode: "real", F: N12Cosine, Quick: cross(src, src, []int{1, 2, 3}), Thorough: cross(src, src, []int{5}), Bound: "all entries symbolic, zero vectors included"},
		{Prop: "P12", Name: "N12Extreme", Mode: "fp", F: N12Extreme, Quick: cross(src, []int{0, 1, 2, 3, 4}), Thorough: cross(src, []int{4}), Bound: "all entries symbolic, NaN and infinities included"},
		{Prop: "P12", Name: "N12Unit", Mode: "real", F: N12Unit, Quick: cross(src, []int{1, 2, 3}), Thorough: cross(src, []int{6}), Bound: "all entries symbolic, zero vectors included"},
		{Prop: "P12", Name: "N12Project", Mode: "real", F: N12Project, Quick: cross(src, src, []int{1, 2, 3}), Thorough: cross(src, src, []int{5}), Bound: "all entries symbolic, zero vectors included"},
		{Prop: "P12", Name: "N12Long", Mode: "real", F: N12Long, Quick: cross(src, src, []int{4, 5, 6, 7, 8, 9, 17, 33}), Thorough: cross(src, src, []int{12, 16, 65, 120}), Bound: "distances, angle, direction and projection of integer vectors with a symbolic entry in each, at the ends and the middle"},
		{Prop: "P12", Name: "N12ExtremeLong", Mode: "fp", F: N12ExtremeLong, Quick: cross(src, []int{5, 6, 7, 8, 9, 16, 17, 33}), Thorough: cross(src, []int{65, 120}), Bound: "concrete entries with ties and NaN; a symbolic entry at the ends and the middle"},
		{Prop: "P12", Name: "N12Self", Mode: "real", F: N12Self, Quick: l(a(1), a(2), a(3)), Bound: "both arguments the same object"},
		{Prop: "P12", Name: "N12Special", Mode: "fp", F: N12Special, Quick: l(a(1), a(2)), Bound: "zero vectors with zeros of either sign"},
	}
}

func dot(x, y []float64) float64 {
	s := 0.
	for i := range x {
		s += x[i] * y[i]
	}
	return s
}

// root asserts that r is the square root of q.
func root(r, q float64, msg string) {
	sym.Near(r*r, q, 1e-9, msg)
	sym.AtMost(0, r, 1e-9, msg+" (sign)")
}

// N12Norm: Euclidean norm.
func N12Norm(g []int) {
	rep, n := g[0], g[1]
	x := sym.F64s("a", n)
	v := mkv(rep, clonev(x))
	root(linear.VecNorm(v), dot(x, x), "Euclidean norm")
	samev(v, x, "argument")
}

func largest(r float64, xs []float64, msg string) {
	hit := len(xs) == 0 && r == 0
	for _, x := range xs {
		sym.AtMost(math.Abs(x), r, 1e-9, msg)
		hit = hit || math.Abs(x) == r
	}
	sym.Assert(hit, msg+" is attained")
}

// N12Abs: sum and maximum norms.
func N12Abs(g []int) {
	rep, n := g[0], g[1]
	x := sym.F64s("a", n)
	v := mkv(rep, clonev(x))
	s := 0.
	for i := range x {
		s += math.Abs(x[i])
	}
	sym.Near(linear.VecL1Norm(v), s, 1e-9, "sum norm")
	largest(linear.VecLInfNorm(v), x, "maximum norm")
	samev(v, x, "argument")
}

// N12AbsLong: the same for longer vectors.
func N12AbsLong(g []int) {
	rep, n := g[0], g[1]
	x := sym.F64s("a", n)
	k := pick("big", spots(n))
	s := 0.
	for i := range x {
		if i != k {
			x[i] = float64(i%5+1) / 8
		} else {
			sym.Assume(x[i] > 2)
		}
		s += x[i]
	}
	for i := range x {
		if i%2 == 0 {
			x[i] = -x[i]
		}
	}
	v := mkv(rep, clonev(x))
	w := mkv(rep, make([]float64, n))
	sym.Near(linear.VecL1Norm(v), s, 1e-9, "sum norm")
	sym.Near(linear.VecLInfNorm(v), math.Abs(x[k]), 1e-9, "maximum norm")
	sym.Near(linear.VecL1Distance(v, w), s, 1e-9, "sum distance")
	sym.Near(linear.VecLInfDistance(w, v), math.Abs(x[k]), 1e-9, "maximum distance")
	root(linear.VecDistance(w, v), dot(x, x), "Euclidean distance")
}

// N12Dist: distances.
func N12Dist(g []int) {
	rep, srep, n := g[0], g[1], g[2]
	dist(rep, srep, sym.F64s("a", n), sym.F64s("b", n))
}

func dist(rep, srep int, x, y []float64) {
	v, w := mkv(rep, clonev(x)), mkv(srep, clonev(y))
	d := make([]float64, len(x))
	s := 0.
	for i := range d {
		d[i] = x[i] - y[i]
	}
	root(linear.VecDistance(v, w), dot(d, d), "Euclidean distance")
	for i := range d {
		s += math.Abs(d[i])
	}
	sym.Near(linear.VecL1Distance(v, w), s, 1e-9, "sum distance")
	largest(linear.VecLInfDistance(v, w), d, "maximum distance")
	samev(v, x, "first argument")
	samev(w, y, "second argument")
}

// N12Dot: inner product.
func N12Dot(g []int) {
	rep, srep, n := g[0], g[1], g[2]
	x, y := sym.F64s("a", n), sym.F64s("b", n)
	v, w := mkv(rep, clonev(x)), mkv(srep, clonev(y))
	sym.Near(linear.VecDotProduct(v, w), dot(x, y), 1e-9, "inner product")
	samev(v, x, "first argument")
	samev(w, y, "second argument")
}

// N12DotLong: inner product of long vectors.
func N12DotLong(g []int) {
	rep, srep, n := g[0], g[1], g[2]
	x := small([][]float64{sym.F64s("a", n)})[0]
	y := transposed(numbers(n, 1, 3))[0]
	v, w := mkv(rep, clonev(x)), mkv(srep, clonev(y))
	sym.Near(linear.VecDotProduct(v, w), dot(x, y), 1e-9, "inner product")
	sym.Near(linear.VecDotProduct(w, v), dot(x, y), 1e-9, "inner product")
	samev(v, x, "first argument")
	samev(w, y, "second argument")
}

func allZero(x []float64) bool {
	for _, t := range x {
		if t != 0 {
			return false
		}
	}
	return true
}

// N12Cosine: cosine of the angle.
func N12Cosine(g []int) {
	rep, srep, n := g[0], g[1], g[2]
	x, y := sym.F64s("a", n), sym.F64s("b", n)
	v, w := mkv(rep, clonev(x)), mkv(srep, clonev(y))
	bad := allZero(x) || allZero(y)
	var c float64
	p := refused(func() { c = linear.VecCosine(v, w) })
	sym.Assert(p == bad, "cosine is refused exactly for zero vectors")
	if !p {
		sym.Cover("cosine")
		sym.Near(c*math.Sqrt(dot(x, x))*math.Sqrt(dot(y, y)), dot(x, y), 1e-9, "cosine")
	} else {
		sym.Cover("refused")
	}
	samev(v, x, "first argument")
	samev(w, y, "second argument")
}

// N12Extreme: minimum and maximum.
func N12Extreme(g []int) {
	rep, n := g[0], g[1]
	extreme(rep, sym.F64s("a", n))
}

func extreme(rep int, x []float64) {
	n := len(x)
	v := mkv(rep, clonev(x))
	none := true
	for _, t := range x {
		none = none && t != t
	}
	i, j := linear.MinIndex(v), linear.MaxIndex(v)
	lo, hi := linear.MinValue(v), linear.MaxValue(v)
	if none {
		sym.Assert(i == -1 && j == -1, "index of an extremum that does not exist")
		sym.Assert(lo != lo && hi != hi, "value of an extremum that does not exist")
	} else {
		sym.Cover("some")
		sym.Assert(in(i, n) && in(j, n), "index of an extremum")
		if in(i, n) && in(j, n) {
			sym.Assert(x[i] == x[i] && x[j] == x[j], "NaN reported as extremum")
			for _, t := range x {
				sym.Assert(!(t < x[i]), "a smaller entry exists")
				sym.Assert(!(t > x[j]), "a larger entry exists")
			}
			sym.Assert(lo == x[i] && hi == x[j], "value of an extremum")
		}
	}
	samev(v, x, "argument")
}

// N12Unit: unit vectors.
func N12Unit(g []int) {
	rep, n := g[0], g[1]
	x := sym.F64s("a", n)
	v := mkv(rep, clonev(x))
	bad := allZero(x)
	var u linear.RealVector
	p := refused(func() { u = linear.UnitVector(v) })
	sym.Assert(p == bad, "unit vector is refused exactly for zero vectors")
	samev(v, x, "argument")
	w := mkv(dense, clonev(x))
	q := refused(func() { w.Unitize() })
	sym.Assert(q == bad, "normalisation is refused exactly for zero vectors")
	if q {
		samev(w, x, "vector after a refused normalisation")
	}
	if !p && !q {
		sym.Cover("unit")
		r := math.Sqrt(dot(x, x))
		s := 0.
		sym.Assert(u.Dimension() == n && w.Dimension() == n, "dimension of the unit vector")
		for i := range x {
			sym.Near(u.At(i)*r, x[i], 1e-9, "unit vector")
			sym.Near(w.At(i)*r, x[i], 1e-9, "normalised vector")
			s += u.At(i) * u.At(i)
		}
		sym.Near(s, 1, 1e-9, "norm of the unit vector")
		scribblev(u)
		samev(v, x, "argument after the result changed")
	}
}

// N12Long: longer vectors.
func N12Long(g []int) {
	rep, srep, n := g[0], g[1], g[2]
	x, y := make([]float64, n), make([]float64, n)
	k := pick("at", spots(n))
	for i := range x {
		x[i], y[i] = float64(i*7%11-5), float64(i*5%13-6)
	}
	x[k], y[k] = sym.F64("a"), sym.F64("b")
	if k%2 == 0 {
		y[k] = 0.5
	}
	dist(rep, srep, x, y)
	v, w := mkv(rep, clonev(x)), mkv(srep, clonev(y))
	nx, ny := math.Sqrt(dot(x, x)), math.Sqrt(dot(y, y))
	sym.Near(linear.VecNorm(v), nx, 1e-9, "Euclidean norm")
	sym.Near(linear.VecCosine(v, w)*nx*ny, dot(x, y), 1e-9, "cosine")
	u := linear.UnitVector(w)
	r := linear.Projection(v, w)
	sym.Assert(u.Dimension() == n && r.Dimension() == n, "dimension")
	for i := range y {
		sym.Near(u.At(i)*ny, y[i], 1e-9, "unit vector")
		sym.Near(r.At(i)*dot(y, y), dot(x, y)*y[i], 1e-9, "projection")
	}
	samev(v, x, "first argument")
	samev(w, y, "second argument")
	o := mkv(dense, clonev(x))
	o.Unitize()
	for i := range x {
		sym.Near(o.At(i)*nx, x[i], 1e-9, "normalised vector")
	}
}

// N12ExtremeLong: extremes of longer vectors.
func N12ExtremeLong(g []int) {
	rep, n := g[0], g[1]
	x := sym.F64s("a", n)
	k := pick("at", spots(n))
	for i := range x {
		if i != k {
			x[i] = float64(i*7%11 - 5)
			if i%6 == 4 {
				x[i] = math.NaN()
			}
		}
	}
	extreme(rep, x)
}

// N12Project: orthogonal projection of src onto dest.
func N12Project(g []int) {
	rep, srep, n := g[0], g[1], g[2]
	x, y := sym.F64s("a", n), sym.F64s("b", n)
	v, w := mkv(rep, clonev(x)), mkv(srep, clonev(y))
	bad := allZero(y)
	var r linear.RealVector
	p := refused(func() { r = linear.Projection(v, w) })
	sym.Assert(p == bad, "projection is refused exactly onto zero vectors")
	samev(v, x, "projected vector")
	samev(w, y, "vector projected onto")
	if !p {
		sym.Cover("projected")
		sym.Assert(r.Dimension() == n, "dimension of the projection")
		s := 0.
		for i := range x {
			s += (x[i] - r.At(i)) * y[i]
			for j := 0; j < i; j++ {
				sym.Near(r.At(i)*y[j], r.At(j)*y[i], 1e-9, "the projection is parallel")
			}
		}
		sym.Near(s, 0, 1e-9, "the residual is orthogonal")
		scribblev(r)
		samev(v, x, "projected vector after the result changed")
		samev(w, y, "vector projected onto after the result changed")
	}
}

// N12Self: the same vector twice.
func N12Self(g []int) {
	n := g[0]
	x := sym.F64s("a", n)
	sym.Assume(!allZero(x))
	v := mkv(dense, clonev(x))
	sym.Near(linear.VecDistance(v, v), 0, 1e-9, "distance to itself")
	sym.Near(linear.VecL1Distance(v, v), 0, 1e-9, "distance to itself")
	sym.Near(linear.VecLInfDistance(v, v), 0, 1e-9, "distance to itself")
	sym.Near(linear.VecCosine(v, v), 1, 1e-9, "cosine with itself")
	nearv(linear.Projection(v, v), x, 1e-9, "projection onto itself")
	samev(v, x, "argument")
}

// N12Special: zero vectors.
func N12Special(g []int) {
	n := g[0]
	x := make([]float64, n)
	for i := range x {
		if sym.IntIn("sign"+string(rune('0'+i)), 0, 1) == 1 {
			x[i] = math.Copysign(0, -1)
		}
	}
	v := mkv(dense, clonev(x))
	o := mkv(dense, make([]float64, n))
	one := mkv(dense, make([]float64, n))
	one.Set(1)
	sym.Assert(refused(func() { linear.UnitVector(v) }), "direction of a zero vector")
	sym.Assert(refused(func() { linear.VecCosine(v, one) }), "angle with a zero vector")
	sym.Assert(refused(func() { linear.VecCosine(one, v) }), "angle with a zero vector")
	sym.Assert(refused(func() { linear.Projection(one, v) }), "projection onto a zero vector")
	sym.Assert(!refused(func() { linear.Projection(v, one) }), "projection of a zero vector")
	sym.Assert(linear.VecNorm(v) == 0 && linear.VecL1Norm(v) == 0 && linear.VecLInfNorm(v) == 0, "norm of a zero vector")
	sym.Assert(linear.VecDistance(v, o) == 0 && linear.VecL1Distance(v, o) == 0 && linear.VecLInfDistance(v, o) == 0, "distance of zero vectors")
	samev(v, x, "argument")
}
