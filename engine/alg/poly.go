// Package alg implements multivariate integer polynomials over "atoms" (input
// variables, square roots, absolute values) and rational functions of them.
package alg

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"
)

// MaxAtoms bounds the number of atoms per path.
const MaxAtoms = 64

// Mono is a vector of exponents.
type Mono [MaxAtoms]uint8

// Poly is a polynomial with integer coefficients; terms sorted by descending
// lexicographic order with the highest atom most significant.
type Poly struct {
	T   []Term
	key string
}

// Term is one monomial.
type Term struct {
	M Mono
	C *big.Int
}

// LimitError is thrown when an expression outgrows the configured bounds.
type LimitError struct{ What string }

// Ring holds the atoms of one path.
type Ring struct {
	Names    []string
	Sq       []*Poly // square of the atom when it is a root or absolute value
	Kind     []byte  // 'v', 's' (root), 'a' (abs)
	Arg      []*Poly // argument for abs
	index    map[string]int
	MaxTerms int
	Until    time.Time // products after this time are refused, unless it is zero
}

// NewRing returns an empty ring.
func NewRing() *Ring { return &Ring{index: map[string]int{}, MaxTerms: 40000} }

func (r *Ring) add(name string, kind byte, sq, arg *Poly) int {
	if len(r.Names) >= MaxAtoms {
		panic(LimitError{"too many atoms"})
	}
	r.Names = append(r.Names, name)
	r.Sq = append(r.Sq, sq)
	r.Kind = append(r.Kind, kind)
	r.Arg = append(r.Arg, arg)
	return len(r.Names) - 1
}

// Var returns the atom for an input variable.
func (r *Ring) Var(name string) int {
	if i, ok := r.index["v:"+name]; ok {
		return i
	}
	i := r.add(name, 'v', nil, nil)
	r.index["v:"+name] = i
	return i
}

// Root returns the atom for the non-negative square root of p.
func (r *Ring) Root(p *Poly) int {
	k := "s:" + p.Key()
	if i, ok := r.index[k]; ok {
		return i
	}
	i := r.add(fmt.Sprintf("!s%d", len(r.Names)), 's', p, nil)
	r.index[k] = i
	return i
}

// AbsAtom returns the atom for |p|.
func (r *Ring) AbsAtom(p *Poly) int {
	k := "a:" + p.Key()
	if i, ok := r.index[k]; ok {
		return i
	}
	if i, ok := r.index["a:"+p.Neg().Key()]; ok {
		return i
	}
	sq := r.Mul(p, p)
	i := r.add(fmt.Sprintf("!a%d", len(r.Names)), 'a', sq, p)
	r.index[k] = i
	return i
}

func cmpMono(a, b *Mono) int {
	for i := MaxAtoms - 1; i >= 0; i-- {
		if a[i] != b[i] {
			if a[i] > b[i] {
				return 1
			}
			return -1
		}
	}
	return 0
}

// ConstPoly returns the polynomial of an integer.
func ConstPoly(c *big.Int) *Poly {
	if c.Sign() == 0 {
		return &Poly{}
	}
	return &Poly{T: []Term{{Mono{}, new(big.Int).Set(c)}}}
}

// One is the polynomial 1.
var One = ConstPoly(big.NewInt(1))

// AtomPoly returns the polynomial of one atom.
func AtomPoly(i int) *Poly {
	var m Mono
	m[i] = 1
	return &Poly{T: []Term{{m, big.NewInt(1)}}}
}

// IsZero reports p == 0 as a normal form.
func (p *Poly) IsZero() bool { return len(p.T) == 0 }

// IsConst reports whether p has no atoms.
func (p *Poly) IsConst() bool { return len(p.T) == 0 || len(p.T) == 1 && p.T[0].M == Mono{} }

// ConstVal returns the value of a constant polynomial.
func (p *Poly) ConstVal() *big.Int {
	if len(p.T) == 0 {
		return new(big.Int)
	}
	return p.T[0].C
}

// Key is a canonical string.
func (p *Poly) Key() string {
	if p.key == "" {
		var b strings.Builder
		for i := range p.T {
			b.WriteString(p.T[i].C.Text(62))
			for k := 0; k < MaxAtoms; k++ {
				if e := p.T[i].M[k]; e != 0 {
					b.WriteByte('.')
					b.WriteByte(byte(k) + 33)
					b.WriteByte(e + 33)
				}
			}
			b.WriteByte(';')
		}
		p.key = b.String() + "|"
	}
	return p.key
}

// Equal compares normal forms.
func (p *Poly) Equal(q *Poly) bool {
	if len(p.T) != len(q.T) {
		return false
	}
	for i := range p.T {
		if p.T[i].M != q.T[i].M || p.T[i].C.Cmp(q.T[i].C) != 0 {
			return false
		}
	}
	return true
}

// Neg returns -p.
func (p *Poly) Neg() *Poly {
	r := &Poly{T: make([]Term, len(p.T))}
	for i := range p.T {
		r.T[i] = Term{p.T[i].M, new(big.Int).Neg(p.T[i].C)}
	}
	return r
}

// Scale returns c*p.
func (p *Poly) Scale(c *big.Int) *Poly {
	if c.Sign() == 0 {
		return &Poly{}
	}
	if c.IsInt64() && c.Int64() == 1 {
		return p
	}
	r := &Poly{T: make([]Term, len(p.T))}
	for i := range p.T {
		r.T[i] = Term{p.T[i].M, new(big.Int).Mul(p.T[i].C, c)}
	}
	return r
}

// Add returns p+q.
func Add(p, q *Poly) *Poly {
	if len(p.T) == 0 {
		return q
	}
	if len(q.T) == 0 {
		return p
	}
	r := &Poly{T: make([]Term, 0, len(p.T)+len(q.T))}
	i, j := 0, 0
	for i < len(p.T) && j < len(q.T) {
		switch cmpMono(&p.T[i].M, &q.T[j].M) {
		case 1:
			r.T = append(r.T, p.T[i])
			i++
		case -1:
			r.T = append(r.T, q.T[j])
			j++
		default:
			c := new(big.Int).Add(p.T[i].C, q.T[j].C)
			if c.Sign() != 0 {
				r.T = append(r.T, Term{p.T[i].M, c})
			}
			i++
			j++
		}
	}
	r.T = append(r.T, p.T[i:]...)
	r.T = append(r.T, q.T[j:]...)
	return r
}

// Sub returns p-q.
func Sub(p, q *Poly) *Poly { return Add(p, q.Neg()) }

func fromMap(m map[Mono]*big.Int) *Poly {
	r := &Poly{T: make([]Term, 0, len(m))}
	for k, c := range m {
		if c.Sign() != 0 {
			r.T = append(r.T, Term{k, c})
		}
	}
	sort.Slice(r.T, func(i, j int) bool { return cmpMono(&r.T[i].M, &r.T[j].M) > 0 })
	return r
}

func mulMono(a, b *Mono) Mono {
	var m Mono
	for i := 0; i < MaxAtoms; i++ {
		s := int(a[i]) + int(b[i])
		if s > 200 {
			panic(LimitError{"degree"})
		}
		m[i] = uint8(s)
	}
	return m
}

// Mul returns p*q reduced by the squares of the atoms.
func (r *Ring) Mul(p, q *Poly) *Poly {
	if len(p.T) == 0 || len(q.T) == 0 {
		return &Poly{}
	}
	if len(p.T)*len(q.T) > 64*r.MaxTerms {
		panic(LimitError{"polynomial size"})
	}
	if len(p.T)*len(q.T) > 500 && !r.Until.IsZero() && time.Now().After(r.Until) {
		panic(LimitError{"time"})
	}
	if p.IsConst() {
		return q.Scale(p.T[0].C)
	}
	if q.IsConst() {
		return p.Scale(q.T[0].C)
	}
	if len(p.T) == 1 || len(q.T) == 1 {
		if len(q.T) == 1 {
			p, q = q, p
		}
		res := &Poly{T: make([]Term, len(q.T))}
		for j := range q.T {
			res.T[j] = Term{mulMono(&p.T[0].M, &q.T[j].M), new(big.Int).Mul(p.T[0].C, q.T[j].C)}
		}
		return r.reduce(res)
	}
	m := make(map[Mono]*big.Int, len(p.T)*len(q.T)/2)
	var t big.Int
	for i := range p.T {
		for j := range q.T {
			k := mulMono(&p.T[i].M, &q.T[j].M)
			t.Mul(p.T[i].C, q.T[j].C)
			if c, ok := m[k]; ok {
				c.Add(c, &t)
			} else {
				m[k] = new(big.Int).Set(&t)
			}
		}
	}
	res := fromMap(m)
	if len(res.T) > r.MaxTerms {
		panic(LimitError{"polynomial size"})
	}
	return r.reduce(res)
}

// reduce rewrites even powers of root and abs atoms, highest atom first.
func (r *Ring) reduce(p *Poly) *Poly {
	for a := len(r.Names) - 1; a >= 0; a-- {
		if r.Sq[a] == nil {
			continue
		}
		need := false
		for i := range p.T {
			if p.T[i].M[a] >= 2 {
				need = true
				break
			}
		}
		if !need {
			continue
		}
		byPow := map[int][]Term{}
		for i := range p.T {
			t := p.T[i]
			k := int(t.M[a] / 2)
			t.M[a] &= 1
			byPow[k] = append(byPow[k], t)
		}
		res := &Poly{}
		pow := One
		max := 0
		for k := range byPow {
			if k > max {
				max = k
			}
		}
		for k := 0; k <= max; k++ {
			if k > 0 {
				pow = r.Mul(pow, r.Sq[a])
			}
			if ts := byPow[k]; len(ts) > 0 {
				q := &Poly{T: ts}
				sort.Slice(q.T, func(i, j int) bool { return cmpMono(&q.T[i].M, &q.T[j].M) > 0 })
				res = Add(res, r.Mul(q, pow))
			}
		}
		p = res
		if len(p.T) > r.MaxTerms {
			panic(LimitError{"polynomial size"})
		}
	}
	return p
}

// Content returns the positive gcd of the coefficients, signed so that the
// primitive part has a positive leading coefficient.
func (p *Poly) Content() *big.Int {
	g := new(big.Int)
	for i := range p.T {
		var a big.Int
		a.Abs(p.T[i].C)
		if g.Sign() == 0 {
			g.Set(&a)
		} else {
			g.GCD(nil, nil, g, &a)
		}
		if g.IsInt64() && g.Int64() == 1 {
			break
		}
	}
	if len(p.T) > 0 && p.T[0].C.Sign() < 0 {
		g.Neg(g)
	}
	return g
}

// DivInt divides all coefficients exactly.
func (p *Poly) DivInt(c *big.Int) *Poly {
	if c.IsInt64() && c.Int64() == 1 {
		return p
	}
	r := &Poly{T: make([]Term, len(p.T))}
	for i := range p.T {
		r.T[i] = Term{p.T[i].M, new(big.Int).Quo(p.T[i].C, c)}
	}
	return r
}

func divides(a, b *Mono) bool {
	for i := 0; i < MaxAtoms; i++ {
		if a[i] > b[i] {
			return false
		}
	}
	return true
}

// HasAtomKind reports whether p uses root or abs atoms.
func (r *Ring) HasAlgebraic(p *Poly) bool {
	for a := range r.Names {
		if r.Sq[a] == nil {
			continue
		}
		for i := range p.T {
			if p.T[i].M[a] != 0 {
				return true
			}
		}
	}
	return false
}

// TryDiv divides p by q exactly as polynomials (q free of algebraic atoms) and
// returns nil when it does not divide.
func (r *Ring) TryDiv(p, q *Poly) *Poly {
	if q.IsConst() {
		return nil
	}
	if len(p.T) == 0 {
		return p
	}
	lq := &q.T[0]
	// quick reject on degrees per atom
	for a := range r.Names {
		var dp, dq uint8
		for i := range q.T {
			if q.T[i].M[a] > dq {
				dq = q.T[i].M[a]
			}
		}
		if dq == 0 {
			continue
		}
		for i := range p.T {
			if p.T[i].M[a] > dp {
				dp = p.T[i].M[a]
			}
		}
		if dp < dq {
			return nil
		}
	}
	if !divides(&lq.M, &p.T[0].M) || !divides(&q.T[len(q.T)-1].M, &p.T[len(p.T)-1].M) {
		return nil
	}
	if len(q.T) == 1 {
		res := &Poly{T: make([]Term, len(p.T))}
		for i := range p.T {
			if !divides(&lq.M, &p.T[i].M) {
				return nil
			}
			var quo, rem big.Int
			quo.QuoRem(p.T[i].C, lq.C, &rem)
			if rem.Sign() != 0 {
				return nil
			}
			m := p.T[i].M
			for a := range m {
				m[a] -= lq.M[a]
			}
			res.T[i] = Term{m, &quo}
		}
		return res
	}
	// geometric heap-free division with a map
	rem := make(map[Mono]*big.Int, len(p.T))
	order := make([]Mono, 0, len(p.T))
	for i := range p.T {
		rem[p.T[i].M] = new(big.Int).Set(p.T[i].C)
		order = append(order, p.T[i].M)
	}
	// priority: keep sorted slice as a max-heap
	h := &monoHeap{order}
	h.init()
	var quot []Term
	var t big.Int
	for h.len() > 0 {
		m := h.pop()
		c, ok := rem[m]
		if !ok {
			continue
		}
		delete(rem, m)
		if c.Sign() == 0 {
			continue
		}
		if !divides(&lq.M, &m) {
			return nil
		}
		var quo, rr big.Int
		quo.QuoRem(c, lq.C, &rr)
		if rr.Sign() != 0 {
			return nil
		}
		qm := m
		for a := range qm {
			qm[a] -= lq.M[a]
		}
		quot = append(quot, Term{qm, &quo})
		if len(quot) > r.MaxTerms {
			return nil
		}
		for i := 1; i < len(q.T); i++ {
			k := mulMono(&qm, &q.T[i].M)
			t.Mul(&quo, q.T[i].C)
			if cc, ok := rem[k]; ok {
				cc.Sub(cc, &t)
			} else {
				rem[k] = new(big.Int).Neg(&t)
				h.push(k)
			}
		}
	}
	return &Poly{T: quot}
}

type monoHeap struct{ a []Mono }

func (h *monoHeap) len() int { return len(h.a) }
func (h *monoHeap) init() {
	// input sorted descending: already a heap
}
func (h *monoHeap) push(m Mono) {
	h.a = append(h.a, m)
	i := len(h.a) - 1
	for i > 0 {
		p := (i - 1) / 2
		if cmpMono(&h.a[i], &h.a[p]) <= 0 {
			break
		}
		h.a[i], h.a[p] = h.a[p], h.a[i]
		i = p
	}
}
func (h *monoHeap) pop() Mono {
	m := h.a[0]
	n := len(h.a) - 1
	h.a[0] = h.a[n]
	h.a = h.a[:n]
	i := 0
	for {
		l := 2*i + 1
		if l >= n {
			break
		}
		if l+1 < n && cmpMono(&h.a[l+1], &h.a[l]) > 0 {
			l++
		}
		if cmpMono(&h.a[i], &h.a[l]) >= 0 {
			break
		}
		h.a[i], h.a[l] = h.a[l], h.a[i]
		i = l
	}
	return m
}

// Sqrt returns q with q*q == p when p (free of algebraic atoms) is a perfect
// square of a polynomial, else nil.
func (r *Ring) Sqrt(p *Poly) *Poly {
	if len(p.T) == 0 {
		return p
	}
	for i := range p.T[0].M {
		if p.T[0].M[i]&1 != 0 {
			return nil
		}
	}
	for a := range r.Names {
		var d uint8
		for i := range p.T {
			if p.T[i].M[a] > d {
				d = p.T[i].M[a]
			}
		}
		if d&1 != 0 {
			return nil
		}
	}
	lc := p.T[0].C
	if lc.Sign() <= 0 {
		return nil
	}
	s := new(big.Int).Sqrt(lc)
	if new(big.Int).Mul(s, s).Cmp(lc) != 0 {
		return nil
	}
	lm := p.T[0].M
	for i := range lm {
		lm[i] /= 2
	}
	q := &Poly{T: []Term{{lm, s}}}
	if len(p.T) == 1 {
		return q
	}
	rem := Sub(p, rawMul(q, q))
	two := new(big.Int).Lsh(s, 1)
	for steps := 0; len(rem.T) > 0; steps++ {
		if steps > len(p.T)+4 {
			return nil
		}
		lt := rem.T[0]
		if !divides(&lm, &lt.M) {
			return nil
		}
		var c, rr big.Int
		c.QuoRem(lt.C, two, &rr)
		if rr.Sign() != 0 {
			return nil
		}
		m := lt.M
		for a := range m {
			m[a] -= lm[a]
		}
		if cmpMono(&m, &q.T[len(q.T)-1].M) >= 0 {
			return nil
		}
		t := &Poly{T: []Term{{m, &c}}}
		// rem -= 2*q*t + t*t
		u := rawMul(q, t).Scale(big.NewInt(2))
		rem = Sub(rem, Add(u, rawMul(t, t)))
		q = Add(q, t)
	}
	return q
}

func rawMul(p, q *Poly) *Poly {
	m := make(map[Mono]*big.Int, len(p.T)*len(q.T))
	var t big.Int
	for i := range p.T {
		for j := range q.T {
			k := mulMono(&p.T[i].M, &q.T[j].M)
			t.Mul(p.T[i].C, q.T[j].C)
			if c, ok := m[k]; ok {
				c.Add(c, &t)
			} else {
				m[k] = new(big.Int).Set(&t)
			}
		}
	}
	return fromMap(m)
}

// Atoms lists the atoms used by p.
func (p *Poly) Atoms(into map[int]bool) {
	for i := range p.T {
		for a, e := range p.T[i].M {
			if e != 0 {
				into[a] = true
			}
		}
	}
}

// SMT prints p as an SMT-LIB real term.
func (r *Ring) SMT(p *Poly) string {
	if len(p.T) == 0 {
		return "0.0"
	}
	var ts []string
	for i := range p.T {
		var fs []string
		c := p.T[i].C
		cs := new(big.Int).Abs(c).String() + ".0"
		if c.Sign() < 0 {
			cs = "(- " + cs + ")"
		}
		one := c.IsInt64() && c.Int64() == 1
		for a, e := range p.T[i].M {
			for k := 0; k < int(e); k++ {
				fs = append(fs, "|"+r.Names[a]+"|")
			}
		}
		if !one || len(fs) == 0 {
			fs = append([]string{cs}, fs...)
		}
		if len(fs) == 1 {
			ts = append(ts, fs[0])
		} else {
			ts = append(ts, "(* "+strings.Join(fs, " ")+")")
		}
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return "(+ " + strings.Join(ts, " ") + ")"
}

// Eval evaluates p at rational atom values (missing atoms panic).
func (p *Poly) Eval(val func(int) *big.Rat) *big.Rat {
	s := new(big.Rat)
	for i := range p.T {
		t := new(big.Rat).SetInt(p.T[i].C)
		for a, e := range p.T[i].M {
			for k := 0; k < int(e); k++ {
				t.Mul(t, val(a))
			}
		}
		s.Add(s, t)
	}
	return s
}

// Degree is the total degree.
func (m *Mono) Degree() int {
	d := 0
	for _, e := range m {
		d += int(e)
	}
	return d
}
