// Package h holds the harnesses: one function per property and structure.
// Each runs the real code on symbolic inputs and asserts the property.
// Harnesses use no package variables: the symbolic executor does not run the
// initialiser of this package.
package h

// Harness describes one entry.
type Harness struct {
	Prop     string
	Name     string // Go function name
	Mode     string // fp, real, lin
	F        func([]int)
	Quick    [][]int
	Thorough [][]int // in addition to Quick
	Bound    string
	Feas     int // milliseconds to decide whether a path is possible, 0 for the usual, negative not to decide; undecided ones are explored
	Steps    int // factor on the number of steps a path may have, 0 for the usual
}

// All lists the harnesses.
func All() []Harness {
	var r []Harness
	for _, f := range []func() []Harness{p01, p02, p03, p04, p05, p06, p07, p08, p09, p10, p11, p12, p13, p14, p15, p16, p17, p18, p19, p20, p21, p22, p23, p24, p25, p26, p27, p28, p29, p30, p31, p32} {
		r = append(r, f()...)
	}
	return r
}

func a(xs ...int) []int { return xs }

func l(xs ...[]int) [][]int { return xs }
