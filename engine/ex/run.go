package ex

import (
	"fmt"
	"go/token"
	"math"
	"math/big"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/engine/alg"
	"verif/engine/smt"

	"golang.org/x/tools/go/ssa"
)

type stepLimit struct{}
type infeasible struct{}
type outOfTime struct{}

type obligation struct {
	msg  string
	cond *smt.Term // property assertion
	diff *alg.Num  // or: |diff| <= tol
	tol  float64
}

// decisions recorded along a path
const (
	dFalse byte = iota
	dTrue
	dForcedFalse
	dForcedTrue
)

// Ctx executes one path.
type Ctx struct {
	P    *Program
	E    *Engine
	I    *Instance
	T    *smt.Table
	F    *alg.Field
	Mode Mode

	globals     map[*ssa.Global]*Value
	seen        map[*fnInfo]bool
	depth       int
	deferFrames []*frame
	steps       int
	MaxSteps    int
	timed       int // steps at the last look at the clock

	pc       []*smt.Term
	pcSet    map[int]bool
	fixed    map[int]int
	bits     map[int]*alg.Num // real mode: the value whose bit pattern a term stands for
	bitsID   map[string]int
	spans    map[int]interval
	zeroMemo map[string]*smt.Term
	lemmas   map[int][]*smt.Term // consequences of a term
	argFac   map[int][]*alg.Poly // factors of the argument of an absolute value

	subst      map[int]Value
	substMemo  map[string]*alg.Num
	substDepth int

	at ssa.Instruction // being executed

	sized   []sized        // values of known magnitude
	sizeMap map[string]int // their keys under the equations of the path
	sizeAge int

	inputs, intInputs map[string]bool
	covers            []string
	notes             map[string]int
	normalised        int
	obl               []obligation
	idents            []ident
	pairs             []*smt.Term

	prefix []byte
	trace  []byte
	pos    int
	forks  [][]byte

	vmemo map[int][]int
	vname map[string]int
	intID map[int]bool

	solvers []*smt.Solver
}

// ident is an identity decided by normalisation, kept for solver confirmation.
type ident struct{ a, b *alg.Num }

func newCtx(e *Engine, in *Instance, prefix []byte, sv []*smt.Solver) *Ctx {
	c := &Ctx{
		P: e.P, E: e, I: in, T: smt.NewTable(), F: alg.NewField(), Mode: in.Mode,
		globals: map[*ssa.Global]*Value{}, seen: map[*fnInfo]bool{}, MaxSteps: e.MaxSteps * max(1, in.Steps),
		pcSet: map[int]bool{}, fixed: map[int]int{}, bits: map[int]*alg.Num{}, bitsID: map[string]int{}, spans: map[int]interval{}, zeroMemo: map[string]*smt.Term{},
		lemmas: map[int][]*smt.Term{}, argFac: map[int][]*alg.Poly{},
		subst: map[int]Value{}, substMemo: map[string]*alg.Num{},
		inputs: map[string]bool{}, intInputs: map[string]bool{}, notes: map[string]int{},
		prefix: prefix, vmemo: map[int][]int{}, vname: map[string]int{}, intID: map[int]bool{}, solvers: sv,
	}
	c.F.Ring.Until = e.Deadline.Add(5 * time.Second)
	c.F.MayVanish = func(p *alg.Poly) bool { return c.Branch(c.zeroTerm(p)) }
	return c
}

func (c *Ctx) note(s string) { c.notes[s]++ }

func (c *Ctx) feasMS() int {
	if c.I.Feas != 0 {
		return c.I.Feas
	}
	switch c.Mode {
	case FP:
		return c.E.FeasFP
	case Real:
		return c.E.FeasReal
	}
	return 2000
}

func (c *Ctx) logic() string {
	switch c.Mode {
	case FP:
		return "QF_BVFP"
	case Real:
		return "QF_NRA"
	}
	return "QF_LRA"
}

// ---- variables of a term ----

func (c *Ctx) vid(n string) int {
	if i, ok := c.vname[n]; ok {
		return i
	}
	i := len(c.vname)
	c.vname[n] = i
	return i
}

func (c *Ctx) atomVars(a int, into map[int]bool) {
	switch c.F.Kind[a] {
	case 'v':
		into[c.vid(c.F.Names[a])] = true
	case 's':
		// two roots of the same constant share the atom itself
		into[c.vid(c.F.Names[a])] = true
		c.polyVars(c.F.Sq[a], into)
	case 'a':
		into[c.vid(c.F.Names[a])] = true
		c.polyVars(c.F.Arg[a], into)
	}
}

func (c *Ctx) polyVars(p *alg.Poly, into map[int]bool) {
	m := map[int]bool{}
	p.Atoms(m)
	for a := range m {
		c.atomVars(a, into)
	}
}

func (c *Ctx) vars(t *smt.Term) []int {
	if v, ok := c.vmemo[t.ID]; ok {
		return v
	}
	m := map[int]bool{}
	switch t.Op {
	case "fpvar":
		m[c.vid(t.Name)] = true
	case "bvvar":
		m[c.vid(t.Name)] = true
		c.intID[c.vid(t.Name)] = true
	case "poly>", "poly=", "polyv":
		c.polyVars(t.P, m)
	case "lin>", "lin=":
		for k := range t.L.K {
			m[c.vid(c.T.LinVars[k])] = true
		}
	}
	for _, a := range t.Args {
		for _, v := range c.vars(a) {
			m[v] = true
		}
	}
	r := make([]int, 0, len(m))
	for v := range m {
		r = append(r, v)
	}
	sort.Ints(r)
	c.vmemo[t.ID] = r
	return r
}

// cone selects the conjuncts of the path condition that share variables,
// transitively, with the given terms.
func (c *Ctx) cone(ts []*smt.Term) []*smt.Term {
	in := map[int]bool{}
	for _, t := range ts {
		for _, v := range c.vars(t) {
			in[v] = true
		}
	}
	used := make([]bool, len(c.pc))
	for changed := true; changed; {
		changed = false
		for i, t := range c.pc {
			if used[i] {
				continue
			}
			hit := false
			vs := c.vars(t)
			for _, v := range vs {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for _, v := range vs {
					in[v] = true
				}
			}
		}
	}
	var r []*smt.Term
	for i, t := range c.pc {
		if used[i] {
			r = append(r, t)
		}
	}
	return r
}

// query decides pc && extra. Without a model only the relevant cone of the
// path condition is sent.
func (c *Ctx) query(extra []*smt.Term, wantModel bool, ms int) (smt.Result, smt.Model) {
	c.checkTime()
	if ms < 0 {
		return smt.Unknown, nil
	}
	as := c.pc
	if extra != nil && !wantModel {
		as = c.cone(extra)
	}
	all := append(append([]*smt.Term{}, as...), extra...)
	return c.solve(all, wantModel, ms)
}

func (c *Ctx) solve(all []*smt.Term, wantModel bool, ms int) (smt.Result, smt.Model) {
	if c.Mode == FP {
		return c.solveIn(c.logic(), all, wantModel, ms)
	}
	// machine integers and reals share no variables: decide them apart
	var ints, rest []*smt.Term
	logic := c.logic()
	for _, t := range all {
		hasInt, hasReal := false, false
		for _, v := range c.vars(t) {
			if c.intID[v] {
				hasInt = true
			} else {
				hasReal = true
			}
		}
		switch {
		case hasInt && hasReal:
			logic = "ALL"
			rest = append(rest, t)
		case hasInt:
			ints = append(ints, t)
		default:
			rest = append(rest, t)
		}
	}
	if len(ints) == 0 || logic == "ALL" {
		return c.solveIn(logic, all, wantModel, ms)
	}
	r, m := c.solveIn("QF_BV", ints, wantModel, ms)
	if r != smt.Sat || len(rest) == 0 {
		return r, m
	}
	q, n := c.solveIn(logic, rest, wantModel, ms)
	if q == smt.Sat && wantModel {
		for k, v := range m {
			n[k] = v
		}
	}
	return q, n
}

func (c *Ctx) solveIn(logic string, all []*smt.Term, wantModel bool, ms int) (smt.Result, smt.Model) {
	if left := int(time.Until(c.E.Deadline).Milliseconds()); ms > left && left > 100 {
		ms = left
	}
	pr := smt.NewPrinter(c.T, c.F.Ring)
	text, vars := pr.Script(all)
	if logic == "QF_NRA" && !wantModel && pr.Nonlin && !pr.Exact {
		rp := smt.NewPrinter(c.T, c.F.Ring)
		rp.Relax = true
		rtext, rvars := rp.Script(all)
		if r, _ := c.solvers[0].Check("QF_LRA", rtext, rvars, 300, false); r == smt.Unsat {
			return r, nil
		}
	}
	for i, s := range c.solvers {
		r, m := s.Check(logic, text, vars, ms, wantModel)
		if r != smt.Unknown || ms < 1000 || i == len(c.solvers)-1 {
			return r, m
		}
	}
	return smt.Unknown, nil
}

func (c *Ctx) checkTime() {
	if time.Now().After(c.E.Deadline) || c.E.stop.Load() {
		panic(outOfTime{})
	}
}

// ---- branching ----

func (c *Ctx) known(t *smt.Term) (val, ok bool) {
	if t == c.T.True || c.pcSet[t.ID] {
		return true, true
	}
	if t == c.T.False || c.pcSet[c.T.Not(t).ID] {
		return false, true
	}
	switch t.Op {
	case "bvslt", "=":
		return c.knownInt(t)
	case "not":
		v, ok := c.known(t.Args[0])
		return !v, ok
	case "and":
		all := true
		for _, a := range t.Args {
			v, k := c.known(a)
			if k && !v {
				return false, true
			}
			all = all && k
		}
		return true, all
	case "or":
		all := true
		for _, a := range t.Args {
			v, k := c.known(a)
			if k && v {
				return true, true
			}
			all = all && k
		}
		return false, all
	case "poly=":
		// p > 0 or -p > 0 excludes p = 0
		if c.pcSet[c.T.PolyPos(t.P).ID] || c.pcSet[c.T.PolyPos(t.P.Neg()).ID] {
			return false, true
		}
	case "poly>":
		if c.pcSet[c.T.PolyZero(t.P).ID] || c.pcSet[c.T.PolyPos(t.P.Neg()).ID] {
			return false, true
		}
	}
	return false, false
}

func (c *Ctx) learn(t *smt.Term) {
	if c.pcSet[t.ID] {
		return
	}
	c.pcSet[t.ID] = true
	for _, x := range c.lemmas[t.ID] {
		c.learn(x)
	}
	switch t.Op {
	case "and":
		for _, a := range t.Args {
			c.learn(a)
		}
	case "bvslt", "=":
		c.learnInt(t, true)
	case "not":
		c.learnInt(t.Args[0], false)
		if t.Args[0].Op == "or" {
			for _, a := range t.Args[0].Args {
				c.learn(c.T.Not(a))
			}
		}
	case "poly=":
		c.learnZero(t.P)
	}
}

// assume adds a conjunct to the path condition.
func (c *Ctx) assume(t *smt.Term) {
	if t == c.T.True {
		return
	}
	if t == c.T.False {
		panic(infeasible{})
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			c.assume(a)
		}
		return
	}
	if c.pcSet[t.ID] {
		return
	}
	c.pc = append(c.pc, t)
	c.learn(t)
}

// Branch decides a condition on this path, forking when both sides are
// feasible.
func (c *Ctx) Branch(t *smt.Term) bool {
	if v, ok := c.known(t); ok {
		return v
	}
	n := c.T.Not(t)
	if c.pos < len(c.prefix) {
		d := c.prefix[c.pos]
		c.pos++
		c.trace = append(c.trace, d)
		switch d {
		case dTrue:
			c.assume(t)
		case dFalse:
			c.assume(n)
		case dForcedTrue:
			c.learn(t)
		case dForcedFalse:
			c.learn(n)
		}
		return d == dTrue || d == dForcedTrue
	}
	atomic.AddInt64(&c.E.Branches, 1)
	rt, _ := c.query([]*smt.Term{t}, false, c.feasMS())
	if rt == smt.Unsat {
		c.trace = append(c.trace, dForcedFalse)
		c.learn(n)
		return false
	}
	rf, _ := c.query([]*smt.Term{n}, false, c.feasMS())
	if rf == smt.Unsat {
		c.trace = append(c.trace, dForcedTrue)
		c.learn(t)
		return true
	}
	if rt == smt.Unknown || rf == smt.Unknown {
		c.note("branch feasibility unknown (both sides explored)")
		if c.E.Verbose && os.Getenv("VP_DEBUG") != "" {
			fmt.Printf("UNKNOWN %v %v at %v: %v\n", rt, rf, c.where(), clip(c.show(t), 3000))
		}
	}
	if len(c.trace) > 4000 {
		panic(unsupported("path longer than 4000 decisions"))
	}
	// explore one side here, queue the other; the seed varies the order
	first := dTrue
	if c.E.Rand(len(c.trace))&1 == 0 {
		first = dFalse
	}
	other := append(append([]byte{}, c.trace...), dTrue+dFalse-first)
	c.forks = append(c.forks, other)
	c.trace = append(c.trace, first)
	if first == dTrue {
		c.assume(t)
		return true
	}
	c.assume(n)
	return false
}

// where describes the instruction being executed.
func (c *Ctx) where() string {
	if c.at == nil {
		return "?"
	}
	p := c.at.Pos()
	if x, ok := c.at.(*ssa.If); ok {
		p = x.Cond.Pos()
	}
	return c.at.Parent().Name() + " " + c.at.Parent().Prog.Fset.Position(p).String()
}

// show prints a term for debugging.
func (c *Ctx) show(t *smt.Term) string {
	s, _ := smt.NewPrinter(c.T, c.F.Ring).Script([]*smt.Term{t})
	if i := strings.Index(s, "(define"); i >= 0 {
		s = s[i:]
	}
	return s
}

func (c *Ctx) oblige(t *smt.Term, msg string) {
	c.I.Asserted.Store(true)
	atomic.AddInt64(&c.E.Obligations, 1)
	if v, ok := c.known(t); ok && v {
		atomic.AddInt64(&c.E.Trivial, 1)
		return
	}
	c.obl = append(c.obl, obligation{msg: msg, cond: t})
}

// ---- engine ----

// Instance is one harness with concrete shape arguments.
type Instance struct {
	Name  string
	Args  []int
	Mode  Mode
	Feas  int // milliseconds for a branch, 0 for the usual, negative to explore both sides unasked
	Steps int // factor on MaxSteps, 0 for the usual
	Fn    *ssa.Function

	mu        sync.Mutex
	stack     [][]byte
	running   int
	spent     time.Duration
	paths     int
	infeas    int
	dead      bool
	ValTried  int // paths asked for a witness
	Covers    map[string]int
	Notes     map[string]int
	Inconcl   map[string]int
	MaxInputs int
	Validated int
	Asserted  atomic.Bool // an assertion was reached
	Probed    int         // paths given up and run natively
	Pinned    int         // undecided questions asked again with fixed inputs
	Confirms  int         // paths whose identities went to the solver
	ValFailed []string
	Sample    string
}

// ID names the instance.
func (in *Instance) ID() string {
	s := in.Name + "("
	for i, a := range in.Args {
		if i > 0 {
			s += ","
		}
		s += strconv.Itoa(a)
	}
	return s + ")"
}

// Paths completed.
func (in *Instance) Paths() int { return in.paths }

// Pending paths left unexplored.
func (in *Instance) Pending() int { return len(in.stack) }

// Infeasible path count.
func (in *Instance) Infeasible() int { return in.infeas }

// Spent time.
func (in *Instance) Spent() time.Duration { return in.spent }

// Candidate is a solver counterexample.
type Candidate struct {
	Harness string            `json:"harness"`
	Args    []int             `json:"args"`
	Mode    string            `json:"mode"`
	Msg     string            `json:"message"`
	Floats  map[string]string `json:"floats"` // hex bits
	Ints    map[string]int64  `json:"ints"`
	Values  map[string]string `json:"values"`          // readable
	Loose   float64           `json:"loose,omitempty"` // factor on tolerances
}

// Engine explores the instances of one check.
type Engine struct {
	P        *Program
	Bins     [][]string
	Workers  int
	MaxSteps int
	FeasFP   int
	FeasReal int
	OblMS    int
	Deadline time.Time
	Seed     int64
	Insts    []*Instance
	// Replay runs a candidate natively; ok means the failure is real.
	Replay func(*Candidate, bool) (reproduced bool, detail string)
	// Accept says whether a reproduced violation ends the run.
	Accept func(*Candidate, string) bool
	// Validate runs a path witness natively.
	Validate func(*Candidate) (ok bool, detail string)

	Branches, Obligations, Trivial, Normalised, Confirmed, Discharged, Undecided int64
	Functions                                                                    map[string]bool
	stop                                                                         atomic.Bool
	mu                                                                           sync.Mutex
	cond                                                                         *sync.Cond
	busy                                                                         int
	Verbose                                                                      bool
	Steps                                                                        int64
	MaxDepth                                                                     int
}

// Rand gives a reproducible bit source.
func (e *Engine) Rand(k int) int {
	x := uint64(e.Seed)*0x9E3779B97F4A7C15 + uint64(k)*0xBF58476D1CE4E5B9
	x ^= x >> 31
	x *= 0x94D049BB133111EB
	x ^= x >> 29
	return int(x >> 33)
}

// Run explores until done, out of time, or stopped.
func (e *Engine) Run() {
	e.cond = sync.NewCond(&e.mu)
	e.Functions = map[string]bool{}
	for _, in := range e.Insts {
		in.stack = [][]byte{nil}
		in.Covers, in.Notes, in.Inconcl = map[string]int{}, map[string]int{}, map[string]int{}
	}
	var wg sync.WaitGroup
	for w := 0; w < e.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var sv []*smt.Solver
			for _, b := range e.Bins {
				sv = append(sv, smt.NewSolver(b...))
			}
			defer func() {
				for _, s := range sv {
					s.Close()
				}
			}()
			rnd := rand.New(rand.NewSource(e.Seed*1000 + int64(w)))
			for {
				in, prefix := e.next(rnd)
				if in == nil {
					return
				}
				t0 := time.Now()
				e.path(in, prefix, sv)
				d := time.Since(t0)
				e.mu.Lock()
				in.spent += d
				in.running--
				e.busy--
				e.cond.Broadcast()
				e.mu.Unlock()
			}
		}(w)
	}
	// wake sleepers at the deadline
	tm := time.AfterFunc(time.Until(e.Deadline)+50*time.Millisecond, func() {
		e.stop.Store(true)
		e.mu.Lock()
		e.cond.Broadcast()
		e.mu.Unlock()
	})
	all := make(chan bool)
	go func() {
		wg.Wait()
		close(all)
	}()
	select {
	case <-all:
	case <-time.After(time.Until(e.Deadline) + 40*time.Second):
		// a worker hangs in one operation: keep it from changing the results
		e.stop.Store(true)
		e.mu.Lock()
		for _, in := range e.Insts {
			if in.running > 0 {
				in.Inconcl["stopped within an operation"] += in.running
			}
		}
	}
	tm.Stop()
	for _, in := range e.Insts {
		if in.paths > 0 && !in.Asserted.Load() {
			in.Inconcl["no assertion was reached"]++
		}
	}
}

func (e *Engine) next(rnd *rand.Rand) (*Instance, []byte) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop.Load() || time.Now().After(e.Deadline) {
			return nil, nil
		}
		var best *Instance
		cost := func(in *Instance) time.Duration { return in.spent + time.Duration(in.running)*200*time.Millisecond }
		for _, in := range e.Insts {
			if len(in.stack) == 0 || in.dead {
				continue
			}
			if best == nil || cost(in) < cost(best) {
				best = in
			}
		}
		if best != nil {
			n := len(best.stack)
			k := n - 1
			if rnd.Intn(3) == 0 {
				k = rnd.Intn(n)
			}
			p := best.stack[k]
			best.stack[k] = best.stack[n-1]
			best.stack = best.stack[:n-1]
			best.running++
			e.busy++
			return best, p
		}
		if e.busy == 0 {
			e.cond.Broadcast()
			return nil, nil
		}
		e.cond.Wait()
	}
}

// path runs one path to its end and settles its obligations.
func (e *Engine) path(in *Instance, prefix []byte, sv []*smt.Solver) {
	c := newCtx(e, in, prefix, sv)
	crash, why := "", ""
	hang := false
	done := false
	timeout := false
	infeas := false
	guard := func(f func()) {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
				return
			case targetPanic:
				crash = "uncaught panic: " + describe(x.v)
				if i, ok := x.v.(Iface); ok {
					if rt, ok := i.V.(runtimeErr); ok {
						crash = "uncaught panic: runtime error: " + rt.msg
					}
				}
			case infeasible:
				infeas = true
			case outOfTime:
				timeout = true
			case stepLimit:
				crash = "step limit exceeded (non-termination?)"
				hang = true
			case unsupportedT:
				why = "unsupported: " + x.what
			case alg.LimitError:
				why = "expression limit: " + x.What
			default:
				why = "engine error: " + firstLine(fmt.Sprint(r))
				if e.Verbose {
					fmt.Printf("%s: %v\n%s\n", in.ID(), r, debug.Stack())
				}
			}
		}()
		f()
	}
	guard(func() {
		if f := c.P.Lin.Func("init"); f != nil {
			c.call(f, nil, nil)
		}
		args := make(Slice, len(in.Args))
		for i, a := range in.Args {
			args[i] = int64(a)
		}
		c.call(in.Fn, []Value{args}, nil)
		done = true
	})
	// publish the forks first so that other workers can go on
	e.mu.Lock()
	if timeout {
		in.stack = append(in.stack, prefix)
	} else {
		in.stack = append(in.stack, c.forks...)
	}
	for f := range c.seen {
		e.Functions[f.name] = true
	}
	e.Steps += int64(c.steps)
	if len(c.trace) > e.MaxDepth {
		e.MaxDepth = len(c.trace)
	}
	e.cond.Broadcast()
	e.mu.Unlock()
	if timeout {
		return
	}
	if infeas {
		e.mu.Lock()
		in.infeas++
		e.mu.Unlock()
		return
	}
	// the obligations met before the end of the path
	timedOut := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(outOfTime); ok {
					timedOut = true
					return
				}
				if l, ok := r.(alg.LimitError); ok {
					why = "expression limit: " + l.What
					return
				}
				if l, ok := r.(unsupportedT); ok {
					why = "unsupported: " + l.what
					return
				}
				why = "engine error: " + firstLine(fmt.Sprint(r))
				if e.Verbose {
					fmt.Printf("%s: %v\n%s\n", in.ID(), r, debug.Stack())
				}
			}
		}()
		c.settle()
		if crash != "" {
			c.crashed(crash, hang)
		}
		if done && why == "" {
			c.confirm()
			c.validate()
		}
		if why != "" {
			c.probe()
		}
	}()
	e.mu.Lock()
	defer e.mu.Unlock()
	if timedOut {
		in.stack = append(in.stack, prefix)
		// its forks are already queued; drop duplicates by marking
		in.Inconcl["path not settled before the time limit"]++
		in.stack = in.stack[:len(in.stack)-1]
		return
	}
	if why != "" {
		in.Inconcl[why]++
	} else if done || crash != "" {
		in.paths++
	}
	for _, l := range c.covers {
		in.Covers[l]++
	}
	for n, k := range c.notes {
		in.Notes[n] += k
	}
	if n := len(c.inputs) + len(c.intInputs); n > in.MaxInputs {
		in.MaxInputs = n
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// settle decides the collected obligations.
func (c *Ctx) settle() {
	var conds []*smt.Term
	var cobl []obligation
	for _, o := range c.obl {
		if o.diff != nil {
			continue
		}
		conds = append(conds, o.cond)
		cobl = append(cobl, o)
	}
	for len(conds) > 0 {
		n := len(conds)
		if c.Mode == Lin {
			size := 0
			for i := 0; i < n; i++ {
				size += len(c.vars(conds[i]))
				if size > 160 && i > 0 {
					n = i
				}
			}
		}
		r := smt.Unknown
		all := []*smt.Term{c.T.Not(c.T.And(conds[:n]...))}
		if n > 1 || c.Mode == FP {
			r, _ = c.query(all, false, c.E.OblMS)
			if r == smt.Unknown && c.Mode == FP && c.pinned(all, cobl[0].msg) {
				return
			}
		}
		if r == smt.Unsat {
			atomic.AddInt64(&c.E.Discharged, int64(n))
		} else {
			for _, o := range cobl[:n] {
				c.settleOne(o, c.T.Not(o.cond), nil)
			}
		}
		conds, cobl = conds[n:], cobl[n:]
	}
	for _, o := range c.obl {
		if o.diff == nil {
			continue
		}
		d := o.diff
		if len(c.subst) > 0 {
			if n, ok := c.num(demote(d)); ok {
				d = n
			}
		}
		if d.IsZero() {
			atomic.AddInt64(&c.E.Discharged, 1)
			continue
		}
		c.settleOne(o, c.T.Not(c.zeroTerm(d.N)), d)
	}
}

// over is |d| > t.
func (c *Ctx) over(d *alg.Num, t float64) *smt.Term {
	q := new(big.Rat).SetFloat64(t)
	// C*N vs t*den, cleared of denominators
	den := alg.One
	for _, f := range d.D {
		for i := 0; i < f.E; i++ {
			den = c.F.Mul(den, f.P)
		}
	}
	k := new(big.Rat).Quo(d.C, q)
	n := d.N.Scale(k.Num())
	m := den.Scale(k.Denom())
	return c.T.Or(
		c.T.And(c.T.PolyPos(alg.Sub(n, m)), c.T.PolyPos(alg.Add(n, m))),
		c.T.And(c.T.PolyPos(alg.Sub(n, m).Neg()), c.T.PolyPos(alg.Add(n, m).Neg())))
}

func (c *Ctx) settleOne(o obligation, neg *smt.Term, d *alg.Num) {
	if c.I.dead {
		return
	}
	r, _ := c.query([]*smt.Term{neg}, false, c.E.OblMS)
	if r == smt.Unsat {
		atomic.AddInt64(&c.E.Discharged, 1)
		return
	}
	if c.E.Verbose && os.Getenv("VP_DEBUG") != "" && d != nil {
		fmt.Printf("residual %s %q: %d terms / %d factors: %s\n", c.I.ID(), o.msg, len(d.N.T), len(d.D), clip(d.Key(), 1500))
	}
	exact := r
	var tries [][]*smt.Term
	if d != nil {
		// a difference within the tolerance is no violation
		r, _ := c.query([]*smt.Term{c.over(d, o.tol)}, false, c.E.OblMS)
		if r == smt.Unsat {
			atomic.AddInt64(&c.E.Discharged, 1)
			return
		}
		if exact != smt.Sat {
			exact = r
		}
		tries = append(tries, []*smt.Term{c.over(d, math.Max(0.01, 10*o.tol))}, []*smt.Term{c.over(d, math.Max(1e-4, 2*o.tol))}, []*smt.Term{c.over(d, o.tol)})
	} else {
		tries = append(tries, []*smt.Term{neg})
	}
	rep := c.hunt(tries, o.msg, false)
	if rep {
		return
	}
	atomic.AddInt64(&c.E.Undecided, 1)
	c.E.mu.Lock()
	if exact == smt.Sat {
		c.I.Inconcl["counterexample not reproduced natively: "+o.msg]++
	} else {
		c.I.Inconcl["undecided: "+o.msg]++
	}
	c.E.mu.Unlock()
}

// robust restates the path condition with margins and bounded inputs, so that
// the floating-point replay follows the same path.
func (c *Ctx) robust(bound int64, margin int64) []*smt.Term {
	var r []*smt.Term
	for _, t := range c.pc {
		if t.Op == "poly>" && margin > 0 {
			p := alg.Sub(t.P.Scale(big.NewInt(margin)), alg.One)
			t = c.T.PolyPos(p)
		}
		r = append(r, t)
	}
	if c.Mode == Real && bound > 0 {
		names := sorted(c.inputs)
		b := alg.ConstPoly(big.NewInt(bound))
		for _, n := range names {
			v := alg.AtomPoly(c.F.Var(n))
			r = append(r, c.T.PolyPos(alg.Sub(b, v)), c.T.PolyPos(alg.Add(b, v)))
		}
	}
	return r
}

// hunt looks for a model of the negated property and replays it.
func (c *Ctx) hunt(tries [][]*smt.Term, msg string, hang bool) bool {
	type variant struct{ bound, margin int64 }
	vs := []variant{{0, 0}}
	if c.Mode == Real {
		vs = []variant{{8, 32}, {64, 1024}, {1000, 0}, {0, 0}}
	}
	tried := map[string]bool{}
	for _, x := range tries {
		for _, v := range vs {
			c.checkTime()
			base := c.pc
			if v.bound != 0 || v.margin != 0 {
				base = c.robust(v.bound, v.margin)
			}
			all := append(append([]*smt.Term{}, base...), x...)
			r, m := c.solve(all, true, c.E.OblMS)
			if r != smt.Sat {
				continue
			}
			cand := c.candidate(m, msg)
			key := fmt.Sprint(cand.Floats, cand.Ints)
			if tried[key] {
				continue
			}
			tried[key] = true
			ok, detail := c.E.Replay(cand, hang)
			if c.E.Verbose {
				fmt.Printf("candidate %s %q: reproduced=%v %s %v\n", c.I.ID(), msg, ok, firstLine(detail), cand.Values)
			}
			if ok {
				if c.E.Accept(cand, detail) {
					c.E.stop.Store(true)
				}
				c.E.mu.Lock()
				c.I.dead = true
				c.E.cond.Broadcast()
				c.E.mu.Unlock()
				return true
			}
		}
	}
	return false
}

func (c *Ctx) crashed(msg string, hang bool) {
	if c.hunt([][]*smt.Term{nil}, msg, hang) {
		return
	}
	r, _ := c.solve(c.pc, false, c.E.OblMS)
	if r == smt.Unsat {
		c.E.mu.Lock()
		c.I.infeas++
		c.E.mu.Unlock()
		return
	}
	c.E.mu.Lock()
	c.I.Inconcl["not reproduced natively: "+msg]++
	c.E.mu.Unlock()
}

func (c *Ctx) candidate(m smt.Model, msg string) *Candidate {
	k := &Candidate{Harness: c.I.Name, Args: c.I.Args, Mode: c.Mode.String(), Msg: msg, Floats: map[string]string{}, Ints: map[string]int64{}, Values: map[string]string{}}
	bits := func(v string) uint64 {
		if strings.HasPrefix(v, "#x") {
			u, _ := strconv.ParseUint(v[2:], 16, 64)
			return u
		}
		if strings.HasPrefix(v, "#b") {
			u, _ := strconv.ParseUint(v[2:], 2, 64)
			return u
		}
		return 0
	}
	for n := range c.inputs {
		v, ok := m[n]
		f := 0.0
		if ok {
			if c.Mode == FP {
				f = math.Float64frombits(bits(v))
			} else {
				f, _ = strconv.ParseFloat(v, 64)
			}
		} else if c.Mode == Real {
			f = 0
		}
		k.Floats[n] = fmt.Sprintf("%016x", math.Float64bits(f))
		k.Values[n] = strconv.FormatFloat(f, 'g', -1, 64)
	}
	for n := range c.intInputs {
		if v, ok := m[n]; ok {
			k.Ints[n] = int64(bits(v))
		} else {
			k.Ints[n] = 0
		}
		k.Values[n] = strconv.FormatInt(k.Ints[n], 10)
	}
	return k
}

// confirm sends the identities that normalisation decided to the solver too.
func (c *Ctx) confirm() {
	if c.Mode == FP {
		c.confirmFP()
		return
	}
	if c.Mode != Real || len(c.idents) == 0 {
		atomic.AddInt64(&c.E.Normalised, int64(c.normalised))
		return
	}
	atomic.AddInt64(&c.E.Normalised, int64(c.normalised))
	n := 0
	var ne []*smt.Term
	for _, id := range c.idents {
		if len(id.a.N.T)*max(1, len(id.b.D))+len(id.b.N.T)*max(1, len(id.a.D)) > 60 {
			continue
		}
		ne = append(ne, c.T.Not(c.T.RatEq(id.a, id.b)))
		n++
		if n >= 24 {
			break
		}
	}
	if n == 0 {
		return
	}
	r, _ := c.query([]*smt.Term{c.T.Or(ne...)}, false, 1500)
	switch r {
	case smt.Unsat:
		atomic.AddInt64(&c.E.Confirmed, int64(n))
	case smt.Sat:
		c.E.mu.Lock()
		c.I.Inconcl["engine: the solver disputes a normalised identity"]++
		c.E.mu.Unlock()
	}
}

// pair keeps a value the code and the specification build as the same term.
func (c *Ctx) pair(t *smt.Term) {
	if n := len(c.pairs); n < 48 && t.Op != "fp" && (n == 0 || c.pairs[n-1] != t) {
		c.pairs = append(c.pairs, t)
	}
}

// confirmFP asks the solver about results that are the same term on both
// sides: a variable that equals what the code computed equals what was wanted.
func (c *Ctx) confirmFP() {
	if len(c.pairs) == 0 {
		return
	}
	c.E.mu.Lock()
	skip := c.I.Confirms >= 8
	c.I.Confirms++
	c.E.mu.Unlock()
	if skip {
		return
	}
	var is, ne []*smt.Term
	for i, t := range c.pairs {
		v := c.T.FPVar("result" + strconv.Itoa(i))
		is = append(is, c.eqTerm(v, t))
		ne = append(ne, c.T.Not(c.eqTerm(v, t)))
	}
	r, _ := c.query(append(is, c.T.Or(ne...)), false, 3000)
	switch r {
	case smt.Unsat:
		atomic.AddInt64(&c.E.Confirmed, int64(len(is)))
	case smt.Sat:
		c.E.mu.Lock()
		c.I.Inconcl["engine: the solver disputes an identity"]++
		c.E.mu.Unlock()
	}
}

// validate runs a witness of the path natively; the harness must pass there too.
func (c *Ctx) validate() {
	c.E.mu.Lock()
	skip := c.I.Validated+len(c.I.ValFailed) >= 2 || c.E.Validate == nil || c.I.Feas < 0 && c.I.ValTried >= 16
	c.I.ValTried++
	c.E.mu.Unlock()
	if skip {
		return
	}
	var cand *Candidate
	if len(c.pc) == 0 {
		cand = c.candidate(smt.Model{}, "witness")
	} else {
		base := c.pc
		if c.Mode == Real {
			base = c.robust(8, 32)
		}
		r, m := c.solve(base, true, c.E.FeasReal)
		if r != smt.Sat {
			return
		}
		cand = c.candidate(m, "witness")
	}
	ok, detail := c.E.Validate(cand)
	c.E.mu.Lock()
	defer c.E.mu.Unlock()
	if ok {
		c.I.Validated++
		if c.I.Sample == "" {
			c.I.Sample = fmt.Sprint(cand.Values)
		}
	} else {
		c.I.ValFailed = append(c.I.ValFailed, firstLine(detail)+" at "+fmt.Sprint(cand.Values))
	}
}

var _ = token.EQL

func clip(s string, n int) string {
	if len(s) > n {
		s = s[:n] + "..."
	}
	return s
}

func sorted(m map[string]bool) []string {
	var r []string
	for n := range m {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}
