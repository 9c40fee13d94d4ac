// Command vp checks properties of github.com/jtejido/linear by symbolic
// execution of its SSA form, and replays counterexamples natively.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/engine/ex"
	"verif/engine/h"
	"verif/engine/smt"
	"verif/engine/sym"
)

const target = "github.com/jtejido/linear"

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vp check PROP | run HARNESS ARGS... | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "run":
		os.Exit(runOne(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "table":
		// the harness table of DESIGN.md
		fmt.Println("| property | harness | mode | quick | thorough adds | bound |\n|---|---|---|---|---|---|")
		for _, x := range h.All() {
			fmt.Printf("| %s | %s | %s | %d | %d | %s |\n", x.Prop, x.Name, x.Mode, len(x.Quick), len(x.Thorough), x.Bound)
		}
		return
	case "list":
		for _, x := range h.All() {
			fmt.Println(x.Prop, x.Name, x.Mode, x.Quick, x.Thorough)
		}
		return
	}
	os.Exit(2)
}

// ---- native replay ----

func harness(name string) *h.Harness {
	all := h.All()
	for i := range all {
		if all[i].Name == name {
			return &all[i]
		}
	}
	return nil
}

func replay(args []string) int {
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30})
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var k ex.Candidate
	if err := json.Unmarshal(b, &k); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	x := harness(k.Harness)
	if x == nil {
		fmt.Fprintln(os.Stderr, "unknown harness", k.Harness)
		return 2
	}
	fl := map[string]float64{}
	for n, v := range k.Floats {
		u, _ := strconv.ParseUint(v, 16, 64)
		fl[n] = math.Float64frombits(u)
	}
	in := map[string]int64{}
	for n, v := range k.Ints {
		in[n] = v
	}
	sym.Reset(fl, in)
	if k.Loose > 0 {
		sym.Loose = k.Loose
	}
	left := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(sym.AssumeFailed); ok {
					left = true
					return
				}
				sym.Failures = append(sym.Failures, sym.Failure{Msg: "uncaught panic: " + panicText(r)})
			}
		}()
		x.F(k.Args)
	}()
	if left {
		fmt.Println("NOT-REPRODUCED: the native run leaves the assumed inputs")
		return 0
	}
	if len(sym.Failures) > 0 {
		for i, f := range sym.Failures {
			if i == 5 {
				fmt.Printf("... and %d more\n", len(sym.Failures)-5)
				break
			}
			fmt.Println("REPRODUCED:", f.Msg)
		}
		fmt.Println("inputs:", k.Values)
		return 1
	}
	fmt.Println("NOT-REPRODUCED: the harness passes natively")
	return 0
}

func panicText(r interface{}) string {
	if e, ok := r.(error); ok {
		return e.Error()
	}
	return fmt.Sprint(r)
}

func runReplay(file string, timeout time.Duration) (code int, out string, timedOut bool) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "replay", file)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=none")
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	if ctx.Err() != nil {
		return -1, b.String(), true
	}
	if err == nil {
		return 0, b.String(), false
	}
	if e, ok := err.(*exec.ExitError); ok {
		return e.ExitCode(), b.String(), false
	}
	return 2, err.Error(), false
}

// ---- checking ----

type options struct {
	root, tier string
	seed       int64
	budget     time.Duration
	verbose    bool
	workers    int
}

func defaults() options {
	o := options{tier: os.Getenv("VERIF_TIER"), seed: 1, workers: 8, root: os.Getenv("VERIF_ROOT")}
	if o.tier != "thorough" {
		o.tier = "quick"
	}
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		o.seed = s
	}
	if o.root == "" {
		o.root = "/verif"
	}
	return o
}

func mode(s string) ex.Mode {
	switch s {
	case "real":
		return ex.Real
	case "lin":
		return ex.Lin
	}
	return ex.FP
}

type item struct {
	hn   *h.Harness
	args []int
}

type run struct {
	o       options
	prop    string
	e       *ex.Engine
	loadS   float64
	mu      sync.Mutex
	known   []string
	viol    []string
	finding []string
	n       int
	unrepro int
	dir     string
}

func newRun(o options, prop string, items []item) (*run, error) {
	r := &run{o: o, prop: prop}
	t0 := time.Now()
	os.Setenv("GOFLAGS", "-mod=mod")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOTOOLCHAIN", "local")
	p, err := ex.Load(filepath.Join(o.root, "engine"), "verif/engine/h", target)
	if err != nil {
		return nil, err
	}
	r.loadS = time.Since(t0).Seconds()
	r.dir = filepath.Join(o.root, "evidence", "replays")
	os.MkdirAll(r.dir, 0o755)
	old, _ := filepath.Glob(filepath.Join(r.dir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	e := &ex.Engine{P: p, Workers: o.workers, MaxSteps: steps(o.tier), FeasFP: 400, FeasReal: 600, OblMS: 4000, Seed: o.seed, Verbose: o.verbose}
	if o.tier == "thorough" {
		e.FeasFP, e.FeasReal, e.OblMS = 1500, 2500, 20000
	}
	e.Bins = [][]string{{"z3-new", "-in", "-smt2", "-memory:3000"}, {"z3", "-in", "-smt2", "-memory:3000"}}
	for i := range items {
		it := items[i]
		f := p.H.Func(it.hn.Name)
		if f == nil {
			return nil, fmt.Errorf("no harness function %s", it.hn.Name)
		}
		e.Insts = append(e.Insts, &ex.Instance{Name: it.hn.Name, Args: it.args, Mode: mode(it.hn.Mode), Feas: it.hn.Feas, Steps: it.hn.Steps, Fn: f})
	}
	e.Replay = r.replay
	e.Accept = r.accept
	e.Validate = r.validate
	e.Deadline = time.Now().Add(o.budget)
	r.e = e
	if b, err := os.ReadFile(filepath.Join(o.root, "known_findings.txt")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "property="+prop+" ") {
				r.known = append(r.known, l)
			}
		}
	}
	return r, nil
}

func (r *run) save(k *ex.Candidate) string {
	r.mu.Lock()
	r.n++
	f := filepath.Join(r.dir, fmt.Sprintf("%s-%d.json", r.prop, r.n))
	r.mu.Unlock()
	b, _ := json.MarshalIndent(k, "", " ")
	os.WriteFile(f, append(b, '\n'), 0o644)
	return f
}

func (r *run) replay(k *ex.Candidate, hang bool) (bool, string) {
	f := r.save(k)
	code, out, to := runReplay(f, 20*time.Second)
	ok := code == 1 || hang && to
	// a crash of the process (fatal error) is a failure as well
	if code == 2 && (strings.Contains(out, "fatal error:") || strings.Contains(out, "runtime: out of memory")) {
		ok = true
	}
	if to && hang {
		out = "REPRODUCED: no result within 20 s"
	}
	if !ok {
		os.Remove(f)
		return false, out
	}
	return true, f + "\n" + out
}

// accept reports a reproduced violation; true stops the run.
func (r *run) accept(k *ex.Candidate, detail string) bool {
	file, out, _ := strings.Cut(detail, "\n")
	id := fmt.Sprintf("%s%v", k.Harness, k.Args)
	for _, l := range r.known {
		// property=P01 harness=Name args=[1 2] match=<substring of the failure>
		if h := field(l, "harness"); h != "" && h != k.Harness {
			continue
		}
		m := field(l, "match")
		if m != "" && strings.Contains(out, m) {
			r.mu.Lock()
			r.finding = append(r.finding, l)
			r.mu.Unlock()
			return false
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.viol = append(r.viol, fmt.Sprintf("VIOLATION property=%s replay=%s", r.prop, file))
	fmt.Printf("counterexample in %s (%s mode): %s\n%s", id, k.Mode, k.Msg, out)
	return true
}

func field(l, k string) string {
	i := strings.Index(l, k+"=")
	if i < 0 {
		return ""
	}
	l = l[i+len(k)+1:]
	if k == "match" {
		if j := strings.Index(l, " ;"); j >= 0 {
			l = l[:j]
		}
		return l
	}
	if j := strings.IndexByte(l, ' '); j >= 0 {
		l = l[:j]
	}
	return l
}

func (r *run) validate(k *ex.Candidate) (bool, string) {
	f := r.save(k)
	defer os.Remove(f)
	code, out, _ := runReplay(f, 20*time.Second)
	return code == 0 && strings.Contains(out, "passes natively"), out
}

func (r *run) summary() {
	paths, pend := 0, 0
	for _, in := range r.e.Insts {
		paths += in.Paths()
		pend += in.Pending()
		if !r.o.verbose && len(r.e.Insts) > 12 && in.Pending() == 0 && len(in.Inconcl) == 0 && len(in.ValFailed) == 0 && in.Paths() > 0 && in.Spent() < 20*time.Second {
			continue
		}
		fmt.Printf("%-28s paths=%d infeasible=%d pending=%d %.1fs covers=%v", in.ID(), in.Paths(), in.Infeasible(), in.Pending(), in.Spent().Seconds(), in.Covers)
		if len(in.Inconcl) > 0 {
			fmt.Printf(" INCONCLUSIVE=%v", in.Inconcl)
		}
		if len(in.ValFailed) > 0 {
			fmt.Printf(" WITNESS-MISMATCH=%v", in.ValFailed)
		}
		fmt.Println()
	}
	fmt.Printf("instances=%d paths=%d unexplored=%d\n", len(r.e.Insts), paths, pend)
	fmt.Printf("queries=%d sat=%d unsat=%d unknown=%d errors=%d cached=%d solver=%.1fs branches=%d obligations=%d discharged=%d trivial=%d normalised=%d confirmed=%d undecided=%d functions=%d load=%.1fs\n",
		smt.S.Queries, smt.S.SatN, smt.S.UnsatN, smt.S.UnknownN, smt.S.Errors, smt.S.Cached, float64(smt.S.Nanos)/1e9,
		r.e.Branches, r.e.Obligations, r.e.Discharged, r.e.Trivial, r.e.Normalised, r.e.Confirmed, r.e.Undecided, len(r.e.Functions), r.loadS)
}

func runOne(args []string) int {
	o := defaults()
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	fs.DurationVar(&o.budget, "budget", 60*time.Second, "time")
	fs.BoolVar(&o.verbose, "v", false, "verbose")
	fs.IntVar(&o.workers, "w", 8, "workers")
	fs.StringVar(&o.tier, "tier", o.tier, "tier")
	fs.Parse(args)
	args = fs.Args()
	hn := harness(args[0])
	if hn == nil {
		fmt.Fprintln(os.Stderr, "unknown harness")
		return 2
	}
	var items []item
	if len(args) > 1 {
		var as []int
		for _, s := range args[1:] {
			v, _ := strconv.Atoi(s)
			as = append(as, v)
		}
		items = append(items, item{hn, as})
	} else {
		for _, a := range hn.Quick {
			items = append(items, item{hn, a})
		}
	}
	r, err := newRun(o, "debug", items)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	t0 := time.Now()
	r.e.Run()
	r.summary()
	if o.verbose {
		if le := smt.LastError.Load(); le != nil {
			s := le.(string)
			if len(s) > 3000 {
				s = s[:3000]
			}
			fmt.Println("LAST SOLVER ERROR:", s)
		}
		var fs []string
		for f := range r.e.Functions {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		fmt.Println(fs)
	}
	for _, v := range r.viol {
		fmt.Println(v)
	}
	fmt.Printf("wall %.1fs\n", time.Since(t0).Seconds())
	if len(r.viol) > 0 {
		return 1
	}
	return 0
}

func check(args []string) int {
	o := defaults()
	prop := args[0]
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	fs.StringVar(&o.tier, "tier", o.tier, "quick or thorough")
	fs.DurationVar(&o.budget, "budget", 0, "time")
	fs.BoolVar(&o.verbose, "v", false, "verbose")
	fs.IntVar(&o.workers, "w", 8, "workers")
	fs.Parse(args[1:])
	if o.budget == 0 {
		o.budget = 75 * time.Second
		if o.tier == "thorough" {
			o.budget = 720 * time.Second
		}
	}
	t0 := time.Now()
	var items []item
	all := h.All()
	for i := range all {
		if all[i].Prop != prop {
			continue
		}
		for _, a := range all[i].Quick {
			items = append(items, item{&all[i], a})
		}
		if o.tier == "thorough" {
			for _, a := range all[i].Thorough {
				items = append(items, item{&all[i], a})
			}
		}
	}
	if len(items) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		return 2
	}
	r, err := newRun(o, prop, items)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r.e.Run()
	r.summary()
	r.evidence(items, time.Since(t0).Seconds())
	seen := map[string]bool{}
	for _, f := range r.finding {
		if !seen[f] {
			seen[f] = true
			fmt.Println("KNOWN-FINDING: " + f)
		}
	}
	if len(r.viol) > 0 {
		for _, v := range r.viol {
			fmt.Println(v)
		}
		return 1
	}
	fmt.Printf("property %s held on everything explored\n", prop)
	return 0
}

func (r *run) evidence(items []item, wall float64) {
	e := r.e
	var fns []string
	for f := range e.Functions {
		fns = append(fns, strings.ReplaceAll(f, target, "linear"))
	}
	sort.Strings(fns)
	var insts, samples []interface{}
	paths, val, incon, pend := 0, 0, map[string]int{}, 0
	exhaustive := true
	for i, in := range e.Insts {
		paths += in.Paths()
		val += in.Validated
		pend += in.Pending()
		for k, n := range in.Inconcl {
			incon[in.ID()+": "+k] += n
		}
		ok := in.Pending() == 0 && len(in.Inconcl) == 0
		exhaustive = exhaustive && ok
		insts = append(insts, map[string]interface{}{
			"harness": in.ID(), "mode": items[i].hn.Mode, "bound": items[i].hn.Bound, "symbolic_inputs": in.MaxInputs,
			"paths": in.Paths(), "infeasible_paths": in.Infeasible(), "paths_unexplored": in.Pending(), "complete": ok,
			"covered": in.Covers, "notes": in.Notes, "inconclusive": in.Inconcl, "seconds": round(in.Spent().Seconds()),
			"native_witnesses_passed": in.Validated, "native_witness_mismatch": in.ValFailed,
		})
		if in.Sample != "" && len(samples) < 12 {
			samples = append(samples, map[string]interface{}{"harness": in.ID(), "path_witness_run_natively": in.Sample})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no path witness was validated in this run")
	}
	ev := map[string]interface{}{
		"property": r.prop, "tier": r.o.tier, "seed": r.o.seed, "level": "model_checking", "wall_s": round(wall), "violations": len(r.viol),
		"assumptions": []string{
			"fp mode: float64 is IEEE-754 binary64 with round-to-nearest-even, every bit pattern of the inputs is considered (all NaNs are one value)",
			"real mode: float64 is an exact real number; rounding, overflow and the sign of zero are outside this mode",
			"lin mode: concrete data flows through native float64 arithmetic; expressions over symbolic inputs are linear forms over the reals with float64 coefficients",
			"sizes, loop counts and the symbolic entries are those listed per harness; larger sizes are outside the bound",
			"the Go SSA builder of golang.org/x/tools and z3 are trusted; counterexamples are replayed natively before they are reported",
		},
		"coverage": map[string]interface{}{
			"states": paths, "transitions": e.Branches, "traces_validated_against_impl": val, "samples": samples,
			"exhaustive":        exhaustive,
			"paths_unexplored":  pend,
			"functions_encoded": fns, "instances": insts,
			"solver": map[string]interface{}{"queries": atomic.LoadInt64(&smt.S.Queries), "sat": smt.S.SatN, "unsat": smt.S.UnsatN, "unknown": smt.S.UnknownN,
				"errors": smt.S.Errors, "answered_from_cache": smt.S.Cached, "solver_seconds": round(float64(smt.S.Nanos) / 1e9), "binaries": e.Bins},
			"assertions": map[string]interface{}{"total": e.Obligations + e.Normalised, "discharged_by_solver": e.Discharged, "implied_by_path": e.Trivial,
				"identities_by_normal_form": e.Normalised, "identities_confirmed_by_solver": e.Confirmed, "undecided": e.Undecided},
			"ssa_steps": e.Steps, "longest_path_decisions": e.MaxDepth, "inconclusive": incon, "known_findings": r.finding,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(r.o.root, "evidence", r.prop+".json"), append(b, '\n'), 0o644)
}

func round(x float64) float64 { return math.Round(x*1000) / 1000 }

// steps bounds the length of one path; beyond it the native code is asked
// whether it terminates.
func steps(tier string) int {
	if tier == "thorough" {
		return 600000000
	}
	return 60000000
}
