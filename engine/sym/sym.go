// Package sym is the vocabulary of the harnesses. Under the symbolic executor
// every function below is intercepted; compiled natively it replays a model.
package sym

import (
	"fmt"
	"math"
)

// Failure is one failed assertion of a native replay.
type Failure struct{ Msg string }

// AssumeFailed is thrown when a native run leaves the assumed inputs.
type AssumeFailed struct{}

var (
	// Floats and Ints hold the model being replayed; missing names read zero.
	Floats   = map[string]float64{}
	Ints     = map[string]int64{}
	Failures []Failure
	Covered  = map[string]int{}
	// Loose multiplies the tolerances of a native run.
	Loose = 1.0
)

// Reset installs a model for a native run.
func Reset(f map[string]float64, i map[string]int64) {
	Floats, Ints, Failures, Covered = f, i, nil, map[string]int{}
}

// F64 is a symbolic float64 input.
func F64(name string) float64 { return Floats[name] }

// F64s is a slice of n symbolic inputs name_0..name_{n-1}.
func F64s(name string, n int) []float64 {
	r := make([]float64, n)
	for i := range r {
		r[i] = F64(fmt.Sprintf("%s_%d", name, i))
	}
	return r
}

// Mat is an m by n slice of slices of symbolic inputs name_i_j.
func Mat(name string, m, n int) [][]float64 {
	r := make([][]float64, m)
	for i := range r {
		r[i] = make([]float64, n)
		for j := range r[i] {
			r[i][j] = F64(fmt.Sprintf("%s_%d_%d", name, i, j))
		}
	}
	return r
}

// Int is a symbolic 64-bit integer input.
func Int(name string) int { return int(Ints[name]) }

// IntIn is a symbolic integer input between lo and hi, case-split.
func IntIn(name string, lo, hi int) int {
	v := int(Ints[name])
	Assume(v >= lo && v <= hi)
	return v
}

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

// Size assumes that x is 0 or has a size between lo and hi.
func Size(x, lo, hi float64) {
	Assume(x == 0 || math.Abs(x) >= lo && math.Abs(x) <= hi)
}

// Within assumes that x has a size of at most hi.
func Within(x, hi float64) { Assume(math.Abs(x) <= hi) }

// Either is a || b without distinguishing the cases.
func Either(a, b bool) bool { return a || b }

// Assert states a property that must hold on every path.
func Assert(c bool, msg string) {
	if !c {
		Failures = append(Failures, Failure{msg})
	}
}

// Same asserts that a and b are the same float64 (NaN = NaN, 0 != -0).
func Same(a, b float64, msg string) {
	if math.IsNaN(a) && math.IsNaN(b) {
		return
	}
	if math.Float64bits(a) != math.Float64bits(b) {
		Failures = append(Failures, Failure{fmt.Sprintf("%s: %v (%x) is not %v (%x)", msg, a, math.Float64bits(a), b, math.Float64bits(b))})
	}
}

// Near asserts |a-b| <= tol (over the reals); the native replay scales tol by
// the magnitude of the operands.
func Near(a, b, tol float64, msg string) {
	tol *= Loose
	if !(math.Abs(a-b) <= tol*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))) {
		Failures = append(Failures, Failure{fmt.Sprintf("%s: %v is not %v (tolerance %v)", msg, a, b, tol)})
	}
}

// AtMost asserts a <= b + tol.
func AtMost(a, b, tol float64, msg string) {
	tol *= Loose
	if !(a <= b+tol*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))) {
		Failures = append(Failures, Failure{fmt.Sprintf("%s: %v is not at most %v", msg, a, b)})
	}
}

// Positive asserts a > 0.
func Positive(a float64, msg string) {
	if !(a > 0) {
		Failures = append(Failures, Failure{fmt.Sprintf("%s: %v is not positive", msg, a)})
	}
}

// Panics runs f and reports whether it panicked, and with what.
func Panics(f func()) (panicked bool, value interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(AssumeFailed); ok {
				panic(r)
			}
			panicked, value = true, r
		}
	}()
	f()
	return
}

// Cover marks a point that must be reachable (vacuity witness).
func Cover(label string) { Covered[label]++ }

// Real reports whether x is an ordinary number rather than NaN or infinite.
func Real(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }
