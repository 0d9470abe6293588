// Package sym provides the primitives of the harness functions. Under the
// symbolic engine every function is replaced by its symbolic counterpart; this
// native implementation replays one recorded assignment.
package sym

import (
	"encoding/hex"
	"fmt"
	"math"
	"strconv"
)

// Input is one recorded harness input.
type Input struct {
	K string `json:"k"`
	N string `json:"n"`
	I int64  `json:"i"`
	S string `json:"s"`
	F string `json:"f"`
}

// AssumeFailed is the panic value of a failed assumption.
type AssumeFailed struct{}

// AssertFailed is the panic value of a failed assertion.
type AssertFailed struct{ Msg string }

// Exhausted is the panic value of a run that asks for more inputs than recorded.
type Exhausted struct{ Msg string }

// State of the current replay.
var (
	Inputs []Input
	Pos    int
	TierN  int
	Obs    [][2]string
	Covers []string
)

// Reset prepares a replay.
func Reset(in []Input, tier int) {
	Inputs, Pos, TierN, Obs, Covers = in, 0, tier, [][2]string{}, []string{}
}

func next(kind, name string) Input {
	if Pos >= len(Inputs) {
		panic(Exhausted{"no recorded input for " + kind + " " + name})
	}
	in := Inputs[Pos]
	if in.K != kind || in.N != name {
		panic(Exhausted{fmt.Sprintf("recorded input %d is %s %s, asked for %s %s", Pos, in.K, in.N, kind, name)})
	}
	Pos++
	return in
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return next("bool", name).I != 0 }

// Int is an arbitrary integer in [lo, hi].
func Int(name string, lo, hi int64) int64 { return next("int", name).I }

// Choice is an arbitrary integer in [0, n), explored by forking.
func Choice(name string, n int) int { return int(next("choice", name).I) }

// Str is an arbitrary string of exactly n bytes of the alphabet (ranges like a-z).
func Str(name string, n int, alphabet string) string {
	b, err := hex.DecodeString(next("str", name).S)
	if err != nil {
		panic(Exhausted{err.Error()})
	}
	return string(b)
}

// Float is an arbitrary finite float.
func Float(name string) float64 {
	n, err := strconv.ParseUint(next("float", name).F, 16, 64)
	if err != nil {
		panic(Exhausted{err.Error()})
	}
	return math.Float64frombits(n)
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(AssertFailed{msg})
	}
}

// Cover marks a goal that some path should reach.
func Cover(name string) { Covers = append(Covers, name) }

// Observe records a value that engine and native run must agree on.
func Observe(name, val string) { Obs = append(Obs, [2]string{name, val}) }

// MapOrder makes the iteration order of maps in the code under test arbitrary for n decisions.
func MapOrder(n int) {}

// Tier is 0 for quick and 1 for thorough.
func Tier() int { return TierN }

// And, Or, Not, Implies and Iff combine conditions without forking.
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

// Or is a disjunction.
func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

// Not is a negation.
func Not(c bool) bool { return !c }

// Implies is an implication.
func Implies(a, b bool) bool { return !a || b }

// Iff is an equivalence.
func Iff(a, b bool) bool { return a == b }
