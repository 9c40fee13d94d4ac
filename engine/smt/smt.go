// Package smt holds hash-consed terms and a pipe to an SMT solver.
package smt

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/engine/alg"
)

// Sort of a term.
type Sort uint8

// Sorts.
const (
	Bool Sort = iota
	BV64
	FP
	FP32
	Real
)

func (s Sort) String() string {
	switch s {
	case Bool:
		return "Bool"
	case BV64:
		return "(_ BitVec 64)"
	case FP:
		return "(_ FloatingPoint 11 53)"
	case FP32:
		return "(_ FloatingPoint 8 24)"
	}
	return "Real"
}

// Term is a hash-consed node.
type Term struct {
	ID   int
	Op   string // SMT operator, or "var", "bv", "fpc", "true", "false", "poly>", "poly=", "lin>", "lin="
	Name string
	U    uint64
	Args []*Term
	S    Sort
	P    *alg.Poly
	L    *Lin
}

// Lin is a linear form with float64 coefficients.
type Lin struct {
	C float64
	K map[int]float64 // variable index
}

// Table interns terms of one path.
type Table struct {
	m       map[string]*Term
	n       int
	True    *Term
	False   *Term
	LinVars []string
	linIdx  map[string]int
}

// NewTable returns an empty table.
func NewTable() *Table {
	t := &Table{m: map[string]*Term{}, linIdx: map[string]int{}}
	t.True = t.mk(&Term{Op: "true", S: Bool})
	t.False = t.mk(&Term{Op: "false", S: Bool})
	return t
}

func (t *Table) mk(x *Term) *Term {
	var b strings.Builder
	b.WriteString(x.Op)
	b.WriteByte('|')
	b.WriteString(x.Name)
	b.WriteByte('|')
	b.WriteString(strconv.FormatUint(x.U, 16))
	for _, a := range x.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	if x.P != nil {
		b.WriteString(x.P.Key())
	}
	if x.L != nil {
		b.WriteString(x.L.key())
	}
	k := b.String()
	if y, ok := t.m[k]; ok {
		return y
	}
	x.ID = t.n
	t.n++
	t.m[k] = x
	return x
}

func (l *Lin) key() string {
	ks := make([]int, 0, len(l.K))
	for k := range l.K {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var b strings.Builder
	fmt.Fprintf(&b, "%x", math.Float64bits(l.C))
	for _, k := range ks {
		fmt.Fprintf(&b, ",%d:%x", k, math.Float64bits(l.K[k]))
	}
	return b.String()
}

// LinVar interns a linear variable.
func (t *Table) LinVar(name string) int {
	if i, ok := t.linIdx[name]; ok {
		return i
	}
	t.linIdx[name] = len(t.LinVars)
	t.LinVars = append(t.LinVars, name)
	return len(t.LinVars) - 1
}

// FPVar is a float input; its bits are the BV64 variable of the same name.
func (t *Table) FPVar(name string) *Term { return t.mk(&Term{Op: "fpvar", Name: name, S: FP}) }

// IntVar is an integer input.
func (t *Table) IntVar(name string) *Term { return t.mk(&Term{Op: "bvvar", Name: name, S: BV64}) }

// BV is an integer constant.
func (t *Table) BV(v uint64) *Term { return t.mk(&Term{Op: "bv", U: v, S: BV64}) }

// F is a float constant.
func (t *Table) F(v float64) *Term {
	if math.IsNaN(v) {
		v = math.NaN()
	}
	return t.mk(&Term{Op: "fpc", U: math.Float64bits(v), S: FP})
}

// App applies an SMT operator.
func (t *Table) App(s Sort, op string, args ...*Term) *Term {
	return t.mk(&Term{Op: op, Args: args, S: s})
}

// PolyPos is p > 0; PolyZero is p = 0.
func (t *Table) PolyPos(p *alg.Poly) *Term {
	if p.IsConst() {
		return t.BoolC(p.ConstVal().Sign() > 0)
	}
	c := p.Content()
	if c.Sign() < 0 {
		c.Neg(c)
	}
	return t.mk(&Term{Op: "poly>", P: p.DivInt(c), S: Bool})
}

// PolyZero is p = 0.
func (t *Table) PolyZero(p *alg.Poly) *Term {
	if p.IsConst() {
		return t.BoolC(p.ConstVal().Sign() == 0)
	}
	return t.mk(&Term{Op: "poly=", P: p.DivInt(p.Content()), S: Bool})
}

// PolyVal is the value of p.
func (t *Table) PolyVal(p *alg.Poly) *Term { return t.mk(&Term{Op: "polyv", P: p, S: Real}) }

// RatEq is a = b with the denominators multiplied across.
func (t *Table) RatEq(a, b *alg.Num) *Term {
	side := func(x, y *alg.Num) *Term {
		k := alg.ConstPoly(new(big.Int).Mul(x.C.Num(), y.C.Denom()))
		fs := []*Term{t.PolyVal(k), t.PolyVal(x.N)}
		for _, d := range y.D {
			for i := 0; i < d.E; i++ {
				fs = append(fs, t.PolyVal(d.P))
			}
		}
		return t.App(Real, "*", fs...)
	}
	return t.App(Bool, "=", side(a, b), side(b, a))
}

// LinPos is l > 0.
func (t *Table) LinPos(l *Lin) *Term {
	if len(l.K) == 0 {
		return t.BoolC(l.C > 0)
	}
	return t.mk(&Term{Op: "lin>", L: l, S: Bool})
}

// LinZero is l = 0.
func (t *Table) LinZero(l *Lin) *Term {
	if len(l.K) == 0 {
		return t.BoolC(l.C == 0)
	}
	return t.mk(&Term{Op: "lin=", L: l, S: Bool})
}

// BoolC is a boolean constant.
func (t *Table) BoolC(b bool) *Term {
	if b {
		return t.True
	}
	return t.False
}

// Not negates.
func (t *Table) Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return t.False
	case "false":
		return t.True
	case "not":
		return a.Args[0]
	}
	return t.App(Bool, "not", a)
}

// And conjoins.
func (t *Table) And(xs ...*Term) *Term { return t.nary("and", t.True, t.False, xs) }

// Or disjoins.
func (t *Table) Or(xs ...*Term) *Term { return t.nary("or", t.False, t.True, xs) }

func (t *Table) nary(op string, unit, zero *Term, xs []*Term) *Term {
	var ys []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x == zero {
			return zero
		}
		if x == unit || seen[x.ID] {
			continue
		}
		seen[x.ID] = true
		ys = append(ys, x)
	}
	for _, y := range ys {
		if n := t.Not(y); seen[n.ID] {
			return zero
		}
	}
	switch len(ys) {
	case 0:
		return unit
	case 1:
		return ys[0]
	}
	return t.App(Bool, op, ys...)
}

// Printer renders a query.
type Printer struct {
	T       *Table
	Ring    *alg.Ring
	defs    []string
	name    map[int]string
	Decls   map[string]Sort // variables used
	atoms   map[int]bool
	order   []string
	linUsed map[int]bool
	// Relax replaces every nonlinear monomial by an independent variable; what
	// is unsatisfiable then is unsatisfiable.
	Relax  bool
	mons   map[string]alg.Mono
	Nonlin bool // some monomial is nonlinear
	Exact  bool // some term cannot be relaxed
}

// NewPrinter returns a printer for one query.
func NewPrinter(t *Table, r *alg.Ring) *Printer {
	return &Printer{T: t, Ring: r, name: map[int]string{}, Decls: map[string]Sort{}, atoms: map[int]bool{}, linUsed: map[int]bool{}}
}

func ratSMT(v float64) string {
	if v == 0 {
		return "0.0"
	}
	neg := v < 0
	if neg {
		v = -v
	}
	s := ""
	m, e := math.Frexp(v)
	mi := uint64(m * (1 << 53))
	e -= 53
	for mi&1 == 0 {
		mi >>= 1
		e++
	}
	if e >= 0 && e < 900 {
		s = strconv.FormatUint(mi, 10)
		s = alg.ShiftString(s, e) + ".0"
	} else if e < 0 {
		s = fmt.Sprintf("(/ %d.0 %s.0)", mi, alg.ShiftString("1", -e))
	} else {
		s = alg.ShiftString(strconv.FormatUint(mi, 10), e) + ".0"
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}

func (p *Printer) poly(q *alg.Poly) string {
	for i := range q.T {
		if q.T[i].M.Degree() > 1 {
			p.Nonlin = true
			break
		}
	}
	if !p.Relax {
		return p.Ring.SMT(q)
	}
	if len(q.T) == 0 {
		return "0.0"
	}
	ts := make([]string, len(q.T))
	for i := range q.T {
		m, c := q.T[i].M, q.T[i].C
		cs := new(big.Int).Abs(c).String() + ".0"
		if c.Sign() < 0 {
			cs = "(- " + cs + ")"
		}
		n := ""
		switch m.Degree() {
		case 0:
			ts[i] = cs
			continue
		case 1:
			for a, e := range m {
				if e == 1 {
					n = p.Ring.Names[a]
				}
			}
		default:
			n = "m!"
			for a, e := range m {
				if e > 0 {
					n += p.Ring.Names[a] + "^" + strconv.Itoa(int(e)) + " "
				}
			}
			n = strings.ReplaceAll(n, "|", "")
			if p.mons == nil {
				p.mons = map[string]alg.Mono{}
			}
			p.mons[n] = m
			p.Decls[n] = Real
		}
		ts[i] = "(* " + cs + " |" + n + "|)"
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return "(+ " + strings.Join(ts, " ") + ")"
}

func (p *Printer) lin(l *Lin) string {
	ks := make([]int, 0, len(l.K))
	for k := range l.K {
		ks = append(ks, k)
		p.linUsed[k] = true
		p.Decls[p.T.LinVars[k]] = Real
	}
	sort.Ints(ks)
	var b strings.Builder
	b.WriteString("(+ " + ratSMT(l.C))
	for _, k := range ks {
		b.WriteString(" (* " + ratSMT(l.K[k]) + " |" + p.T.LinVars[k] + "|)")
	}
	b.WriteString(")")
	return b.String()
}

// Str returns the SMT-LIB text of a term, emitting definitions for inner nodes.
func (p *Printer) Str(x *Term) string {
	if s, ok := p.name[x.ID]; ok {
		return s
	}
	var s string
	switch x.Op {
	case "true", "false":
		return x.Op
	case "fpvar":
		p.Decls[x.Name] = BV64
		s = "((_ to_fp 11 53) |" + x.Name + "|)"
	case "bvvar":
		p.Decls[x.Name] = BV64
		s = "|" + x.Name + "|"
		p.name[x.ID] = s
		return s
	case "bv":
		return fmt.Sprintf("#x%016x", x.U)
	case "fpc":
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", x.U)
	case "poly>":
		x.P.Atoms(p.atoms)
		s = "(> " + p.poly(x.P) + " 0.0)"
	case "polyv":
		x.P.Atoms(p.atoms)
		p.Exact = true
		s = p.Ring.SMT(x.P)
	case "poly=":
		x.P.Atoms(p.atoms)
		s = "(= " + p.poly(x.P) + " 0.0)"
	case "lin>":
		s = "(> " + p.lin(x.L) + " 0.0)"
	case "lin=":
		s = "(= " + p.lin(x.L) + " 0.0)"
	case "not":
		return "(not " + p.Str(x.Args[0]) + ")"
	default:
		var b strings.Builder
		b.WriteString("(" + x.Op)
		for _, a := range x.Args {
			b.WriteByte(' ')
			b.WriteString(p.Str(a))
		}
		b.WriteString(")")
		s = b.String()
	}
	n := fmt.Sprintf("!t%d", len(p.defs))
	p.defs = append(p.defs, fmt.Sprintf("(define-fun %s () %s %s)", n, x.S, s))
	p.name[x.ID] = n
	return n
}

// Script builds the text up to and including the assertions, and lists the
// variables whose values make up a model.
func (p *Printer) Script(as []*Term) (string, []string) {
	var body []string
	for _, a := range as {
		body = append(body, "(assert "+p.Str(a)+")")
	}
	// close the atoms under definitions
	var side []string
	done := map[int]bool{}
	for {
		progress := false
		var todo []int
		for a := range p.atoms {
			if !done[a] {
				todo = append(todo, a)
			}
		}
		sort.Ints(todo)
		for _, a := range todo {
			done[a] = true
			progress = true
			n := "|" + p.Ring.Names[a] + "|"
			p.Decls[p.Ring.Names[a]] = Real
			switch p.Ring.Kind[a] {
			case 's':
				p.Ring.Sq[a].Atoms(p.atoms)
				side = append(side, "(assert (>= "+n+" 0.0))")
				if p.Relax {
					side = append(side, "(assert (>= "+p.poly(p.Ring.Sq[a])+" 0.0))")
				} else {
					side = append(side, "(assert (= (* "+n+" "+n+") "+p.Ring.SMT(p.Ring.Sq[a])+"))")
				}
			case 'a':
				p.Ring.Arg[a].Atoms(p.atoms)
				q := p.poly(p.Ring.Arg[a])
				side = append(side, "(assert (>= "+n+" 0.0))", "(assert (or (= "+n+" "+q+") (= "+n+" (- "+q+"))))")
			}
		}
		if !progress {
			break
		}
	}
	for n, m := range p.mons {
		// products of roots, magnitudes and squares are not negative
		ok := true
		for a, e := range m {
			if e&1 == 1 && p.Ring.Kind[a] == 'v' {
				ok = false
			}
		}
		if ok {
			side = append(side, "(assert (>= |"+n+"| 0.0))")
		}
	}
	sort.Strings(side)
	var vars []string
	for v := range p.Decls {
		vars = append(vars, v)
	}
	sort.Strings(vars)
	var b strings.Builder
	for _, v := range vars {
		fmt.Fprintf(&b, "(declare-const |%s| %s)\n", v, p.Decls[v])
	}
	for _, d := range p.defs {
		b.WriteString(d + "\n")
	}
	for _, s := range side {
		b.WriteString(s + "\n")
	}
	for _, s := range body {
		b.WriteString(s + "\n")
	}
	return b.String(), vars
}

// Result of a query.
type Result int

// Results.
const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Stats are global counters.
type Stats struct {
	Queries, SatN, UnsatN, UnknownN, Errors, Cached int64
	Nanos                                           int64
}

// S is the global statistics.
var S Stats

// Model maps variable names to values; BV64 as uint64 (hex), reals as decimal text.
type Model map[string]string

// Solver is one solver process.
type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	lines chan string
	Bin   []string
}

var cache sync.Map

type cached struct {
	r Result
	m Model
}

// NewSolver starts lazily.
func NewSolver(bin ...string) *Solver { return &Solver{Bin: bin} }

func (s *Solver) start() error {
	s.cmd = exec.Command(s.Bin[0], s.Bin[1:]...)
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	rd := bufio.NewReaderSize(o, 1<<20)
	ch := make(chan string, 1000)
	s.lines = ch
	go func() {
		for {
			l, err := rd.ReadString('\n')
			if l != "" {
				ch <- strings.TrimRight(l, "\n")
			}
			if err != nil {
				close(ch)
				return
			}
		}
	}()
	return nil
}

// Close ends the process.
func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		ch := s.lines
		go func() {
			for range ch {
			}
		}()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Check runs one query. logic selects the preprocessing; wantModel asks for values.
func (s *Solver) Check(logic, script string, vars []string, timeoutMS int, wantModel bool) (Result, Model) {
	key := logic + fmt.Sprint(wantModel) + script
	if c, ok := cache.Load(key); ok {
		atomic.AddInt64(&S.Cached, 1)
		cc := c.(cached)
		return cc.r, cc.m
	}
	t0 := time.Now()
	r, m := s.check(logic, script, vars, timeoutMS, wantModel)
	atomic.AddInt64(&S.Nanos, int64(time.Since(t0)))
	atomic.AddInt64(&S.Queries, 1)
	switch r {
	case Sat:
		atomic.AddInt64(&S.SatN, 1)
	case Unsat:
		atomic.AddInt64(&S.UnsatN, 1)
	default:
		atomic.AddInt64(&S.UnknownN, 1)
	}
	if len(key) < 1<<16 {
		cache.Store(key, cached{r, m})
	}
	return r, m
}

func (s *Solver) check(logic, script string, vars []string, timeoutMS int, wantModel bool) (Result, Model) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			atomic.AddInt64(&S.Errors, 1)
			return Unknown, nil
		}
	}
	var b strings.Builder
	b.WriteString("(reset)\n(set-option :print-success false)\n")
	fmt.Fprintf(&b, "(set-option :timeout %d)\n", timeoutMS)
	if wantModel {
		b.WriteString("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n")
	}
	b.WriteString("(set-logic " + logic + ")\n")
	b.WriteString(script)
	b.WriteString("(check-sat)\n(echo \"@@\")\n")
	deadline := time.After(time.Duration(timeoutMS)*time.Millisecond + 3*time.Second)
	if _, err := io.WriteString(s.in, b.String()); err != nil {
		s.Close()
		atomic.AddInt64(&S.Errors, 1)
		return Unknown, nil
	}
	lines, ok := s.read(deadline)
	if !ok {
		s.Close()
		return Unknown, nil
	}
	res := Unknown
	for _, l := range lines {
		switch {
		case l == "sat":
			res = Sat
		case l == "unsat":
			res = Unsat
		case strings.HasPrefix(l, "(error"):
			atomic.AddInt64(&S.Errors, 1)
			LastError.Store(l + "\n" + script)
			return Unknown, nil
		}
	}
	if res != Sat || !wantModel {
		return res, nil
	}
	m := Model{}
	if len(vars) > 0 {
		q := "(get-value ("
		for _, v := range vars {
			q += "|" + v + "| "
		}
		q += "))\n(echo \"@@\")\n"
		io.WriteString(s.in, q)
		lines, ok = s.read(time.After(5 * time.Second))
		if !ok {
			s.Close()
			return Unknown, nil
		}
		parseModel(strings.Join(lines, " "), m)
	}
	return res, m
}

// LastError keeps the last solver error for diagnosis.
var LastError atomic.Value

func (s *Solver) read(deadline <-chan time.Time) ([]string, bool) {
	var ls []string
	for {
		select {
		case l, ok := <-s.lines:
			if !ok {
				return ls, false
			}
			if strings.Trim(l, "\"") == "@@" {
				return ls, true
			}
			ls = append(ls, l)
		case <-deadline:
			return ls, false
		}
	}
}

func parseModel(s string, m Model) {
	// ((|x| v) (|y| v) ...)
	toks := tokenize(s)
	pos := 0
	if pos >= len(toks) || toks[pos] != "(" {
		return
	}
	pos++
	for pos < len(toks) && toks[pos] == "(" {
		pos++
		name := strings.Trim(toks[pos], "|")
		pos++
		v, np := sexp(toks, pos)
		pos = np + 1
		m[name] = v
	}
}

func tokenize(s string) []string {
	var r []string
	i := 0
	for i < len(s) {
		switch c := s[i]; {
		case c == ' ' || c == '\n' || c == '\t':
			i++
		case c == '(' || c == ')':
			r = append(r, string(c))
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|') + i + 2
			r = append(r, s[i:j])
			i = j
		default:
			j := i
			for j < len(s) && s[j] != ' ' && s[j] != '(' && s[j] != ')' && s[j] != '\n' {
				j++
			}
			r = append(r, s[i:j])
			i = j
		}
	}
	return r
}

// sexp evaluates a value: #x..., decimals, (- v), (/ a b).
func sexp(t []string, i int) (string, int) {
	if t[i] != "(" {
		return strings.TrimRight(t[i], "?"), i + 1
	}
	op := t[i+1]
	i += 2
	var args []string
	for i < len(t) && t[i] != ")" {
		var v string
		v, i = sexp(t, i)
		args = append(args, v)
	}
	i++
	switch {
	case op == "-" && len(args) == 1:
		return "-" + args[0], i
	case op == "/" && len(args) == 2:
		return alg.DivString(args[0], args[1]), i
	}
	return "?", i
}
