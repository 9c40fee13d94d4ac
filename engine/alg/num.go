package alg

import (
	"math/big"
	"sort"
	"strings"
)

// Fac is a power of a denominator factor.
type Fac struct {
	P *Poly
	E int
}

// Num is the rational function C * N / prod(D).
type Num struct {
	C *big.Rat
	N *Poly // primitive, positive leading coefficient; zero polynomial for 0
	D []Fac // sorted by key; primitive, positive leading coefficient, non-constant
}

// Field does arithmetic on Num.
type Field struct {
	*Ring
	known    []*Poly
	knownKey map[string]bool
	RatLimit int // largest product of sizes for which denominators are rationalised
	// MayVanish is asked before a conjugate is multiplied in; true means that
	// the norm is zero on the current path.
	MayVanish func(*Poly) bool
}

// NewField returns a fresh field.
func NewField() *Field {
	return &Field{Ring: NewRing(), knownKey: map[string]bool{}, RatLimit: 4000}
}

var ratOne = big.NewRat(1, 1)

// FromRat converts a rational.
func FromRat(q *big.Rat) *Num {
	if q.Sign() == 0 {
		return &Num{C: new(big.Rat), N: &Poly{}}
	}
	return &Num{C: q, N: One}
}

// FromPoly converts a polynomial.
func FromPoly(p *Poly) *Num {
	if p.IsZero() {
		return FromRat(new(big.Rat))
	}
	c := p.Content()
	return &Num{C: new(big.Rat).SetInt(c), N: p.DivInt(c)}
}

// IsZero tests the normal form.
func (x *Num) IsZero() bool { return x.N.IsZero() }

// Rat returns the value when x is constant.
func (x *Num) Rat() (*big.Rat, bool) {
	if x.N.IsZero() {
		return new(big.Rat), true
	}
	if len(x.D) == 0 && x.N.IsConst() {
		return new(big.Rat).Mul(x.C, new(big.Rat).SetInt(x.N.ConstVal())), true
	}
	return nil, false
}

// Key is a canonical string of the representation.
func (x *Num) Key() string {
	var b strings.Builder
	b.WriteString(x.C.String())
	b.WriteString(x.N.Key())
	for _, f := range x.D {
		b.WriteString("/")
		b.WriteString(f.P.Key())
		b.WriteByte(byte(f.E))
	}
	return b.String()
}

func facMerge(a, b []Fac, comb func(int, int) int) []Fac {
	var r []Fac
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i].P.Key() < b[j].P.Key():
			if e := comb(a[i].E, 0); e > 0 {
				r = append(r, Fac{a[i].P, e})
			}
			i++
		case i >= len(a) || a[i].P.Key() > b[j].P.Key():
			if e := comb(0, b[j].E); e > 0 {
				r = append(r, Fac{b[j].P, e})
			}
			j++
		default:
			if e := comb(a[i].E, b[j].E); e > 0 {
				r = append(r, Fac{a[i].P, e})
			}
			i++
			j++
		}
	}
	return r
}

func (f *Field) facPoly(d []Fac) *Poly {
	p := One
	for _, x := range d {
		for k := 0; k < x.E; k++ {
			p = f.Mul(p, x.P)
		}
	}
	return p
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// Neg returns -x.
func (f *Field) Neg(x *Num) *Num { return &Num{new(big.Rat).Neg(x.C), x.N, x.D} }

// cancel removes denominator factors dividing n; returns primitive numerator.
func (f *Field) cancel(c *big.Rat, n *Poly, d []Fac) *Num {
	if n.IsZero() {
		return FromRat(new(big.Rat))
	}
	ct := n.Content()
	if !(ct.IsInt64() && ct.Int64() == 1) {
		n = n.DivInt(ct)
		c = new(big.Rat).Mul(c, new(big.Rat).SetInt(ct))
	}
	var out []Fac
	for _, x := range d {
		e := x.E
		for e > 0 {
			q := f.TryDiv(n, x.P)
			if q == nil {
				break
			}
			n = q
			e--
		}
		if e > 0 {
			out = append(out, Fac{x.P, e})
		}
	}
	return &Num{c, n, out}
}

// AddN returns x+y.
func (f *Field) AddN(x, y *Num) *Num {
	if x.IsZero() {
		return y
	}
	if y.IsZero() {
		return x
	}
	l := facMerge(x.D, y.D, maxi)
	sub := func(d []Fac) []Fac { return facMerge(l, d, func(a, b int) int { return a - b }) }
	nx, ny := x.N, y.N
	if mx := sub(x.D); len(mx) > 0 {
		nx = f.Mul(nx, f.facPoly(mx))
	}
	if my := sub(y.D); len(my) > 0 {
		ny = f.Mul(ny, f.facPoly(my))
	}
	// x.C*nx + y.C*ny over a common rational
	ax := new(big.Int).Mul(x.C.Num(), y.C.Denom())
	ay := new(big.Int).Mul(y.C.Num(), x.C.Denom())
	g := new(big.Int).GCD(nil, nil, new(big.Int).Abs(ax), new(big.Int).Abs(ay))
	den := new(big.Int).Mul(x.C.Denom(), y.C.Denom())
	if g.Sign() != 0 {
		ax.Quo(ax, g)
		ay.Quo(ay, g)
	} else {
		g.SetInt64(1)
	}
	n := Add(nx.Scale(ax), ny.Scale(ay))
	return f.cancel(new(big.Rat).SetFrac(g, den), n, l)
}

// SubN returns x-y.
func (f *Field) SubN(x, y *Num) *Num { return f.AddN(x, f.Neg(y)) }

// MulN returns x*y.
func (f *Field) MulN(x, y *Num) *Num {
	if x.IsZero() || y.IsZero() {
		return FromRat(new(big.Rat))
	}
	c := new(big.Rat).Mul(x.C, y.C)
	nx, ny := x.N, y.N
	dx, dy := x.D, y.D
	if len(dy) > 0 {
		t := f.cancel(ratOne, nx, dy)
		nx, dy = t.N, t.D
		if t.C != ratOne {
			c.Mul(c, t.C)
		}
	}
	if len(dx) > 0 {
		t := f.cancel(ratOne, ny, dx)
		ny, dx = t.N, t.D
		if t.C != ratOne {
			c.Mul(c, t.C)
		}
	}
	n := f.Mul(nx, ny)
	l := facMerge(dx, dy, func(a, b int) int { return a + b })
	if f.HasAlgebraic(nx) && f.HasAlgebraic(ny) {
		return f.cancel(c, n, l)
	}
	ct := n.Content()
	if !(ct.IsInt64() && ct.Int64() == 1) {
		n = n.DivInt(ct)
		c.Mul(c, new(big.Rat).SetInt(ct))
	}
	return &Num{c, n, l}
}

func (f *Field) remember(p *Poly) {
	if !f.knownKey[p.Key()] {
		f.knownKey[p.Key()] = true
		f.known = append(f.known, p)
		sort.SliceStable(f.known, func(i, j int) bool { return len(f.known[i].T) < len(f.known[j].T) })
	}
}

// Factor splits a primitive polynomial into known factors, monomials, perfect
// squares and a remainder. Returns the sign/content separately.
func (f *Field) Factor(p *Poly) (*big.Int, []Fac) {
	var out []Fac
	add := func(q *Poly, e int) {
		out = facMerge(out, []Fac{{q, e}}, func(a, b int) int { return a + b })
	}
	c := p.Content()
	p = p.DivInt(c)
	// monomial content
	for a := range f.Names {
		m := uint8(255)
		for i := range p.T {
			if e := p.T[i].M[a]; e < m {
				m = e
			}
		}
		if m > 0 && m != 255 {
			ap := AtomPoly(a)
			for k := uint8(0); k < m; k++ {
				p = f.TryDiv(p, ap)
			}
			add(ap, int(m))
		}
	}
	f.split(p, 1, add)
	return c, out
}

func (f *Field) split(p *Poly, mult int, add func(*Poly, int)) {
	for _, k := range f.known {
		if p.IsConst() {
			return
		}
		for {
			q := f.TryDiv(p, k)
			if q == nil {
				break
			}
			add(k, mult)
			p = q
		}
	}
	if p.IsConst() {
		return
	}
	if !f.HasAlgebraic(p) {
		if s := f.Sqrt(p); s != nil {
			f.split(s, 2*mult, add)
			return
		}
	}
	f.remember(p)
	add(p, mult)
}

// Inv returns 1/x for x with a non-zero normal form.
func (f *Field) Inv(x *Num) *Num {
	num := f.facPoly(x.D)
	c := new(big.Rat).Inv(x.C)
	n := x.N
	var den []Fac
	addDen := func(p *Poly) {
		ct, fs := f.Factor(p)
		c.Mul(c, new(big.Rat).SetFrac(big.NewInt(1), ct))
		den = facMerge(den, fs, func(a, b int) int { return a + b })
	}
	// monomial content
	for a := range f.Names {
		m := uint8(255)
		for i := range n.T {
			if e := n.T[i].M[a]; e < m {
				m = e
			}
		}
		if m == 0 || m == 255 {
			continue
		}
		ap := AtomPoly(a)
		for k := uint8(0); k < m; k++ {
			n = f.TryDiv(n, ap)
			if f.Sq[a] != nil {
				num = f.Mul(num, ap)
				addDen(f.Sq[a])
			} else {
				addDen(ap)
			}
		}
	}
	// rationalise
	for !n.IsConst() {
		top := -1
		for a := len(f.Names) - 1; a >= 0 && top < 0; a-- {
			if f.Sq[a] == nil {
				continue
			}
			for i := range n.T {
				if n.T[i].M[a] != 0 {
					top = a
					break
				}
			}
		}
		if top < 0 {
			break
		}
		if len(n.T)*len(n.T) > f.RatLimit || len(n.T)*len(num.T) > f.RatLimit {
			break
		}
		conj := &Poly{T: make([]Term, len(n.T))}
		for i := range n.T {
			conj.T[i] = n.T[i]
			if n.T[i].M[top] == 1 {
				conj.T[i].C = new(big.Int).Neg(n.T[i].C)
			}
		}
		norm := f.Mul(n, conj)
		if norm.IsZero() || f.MayVanish != nil && f.MayVanish(norm) {
			break
		}
		num = f.Mul(num, conj)
		n = norm
	}
	if n.IsConst() {
		c.Mul(c, new(big.Rat).SetFrac(big.NewInt(1), n.ConstVal()))
	} else {
		addDen(n)
	}
	return f.cancel(c, num, den)
}

// OddPart returns the polynomial with the sign of x wherever x is defined:
// sign(C) * N * product of the factors of odd exponent. positive reports
// factors known to be positive.
func (f *Field) OddPart(x *Num, positive func(*Poly) bool) *Poly {
	p := x.N
	if x.C.Sign() < 0 {
		p = p.Neg()
	}
	for _, d := range x.D {
		if d.E&1 == 1 && !positive(d.P) {
			p = f.Mul(p, d.P)
		}
	}
	return p
}
