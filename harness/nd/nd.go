// Package nd is the harness interface: nondeterministic inputs, assumptions and assertions.
//
// The symbolic engine intercepts every function here (inputs become SMT variables, assertions become
// queries).  Compiled natively, inputs are read from a recorded vector, so that a harness replays a
// solver assignment against the real code.
package nd

import "fmt"

// Ctx is one native run.
type Ctx struct {
	In     []uint64
	Pos    int
	Params map[string]int
	Obs    []string
	Labels []string
}

// Stop ends a native run.
type Stop struct {
	Status string // assume, violation, known, short
	Msg    string
}

// C is the current native run.
var C *Ctx

func next() uint64 {
	if C.Pos >= len(C.In) {
		panic(Stop{"short", "input vector exhausted"})
	}
	x := C.In[C.Pos]
	C.Pos++
	return x
}

// Param returns a bound fixed by the tier.
func Param(name string, def int) int {
	if v, ok := C.Params[name]; ok {
		return v
	}
	return def
}

// Byte is any byte.
func Byte() byte { return byte(next()) }

// Bool is any bool.
func Bool() bool { return next() != 0 }

// Uint64 is any uint64.
func Uint64() uint64 { return next() }

// Uint32 is any uint32.
func Uint32() uint32 { return uint32(next()) }

// Uint16 is any uint16.
func Uint16() uint16 { return uint16(next()) }

// Int64 is any int64.
func Int64() int64 { return int64(next()) }

// Int32 is any int32.
func Int32() int32 { return int32(next()) }

// Int16 is any int16.
func Int16() int16 { return int16(next()) }

// Int8 is any int8.
func Int8() int8 { return int8(next()) }

// Int is any int.
func Int() int { return int(next()) }

// IntRange is any int in [lo, hi], kept symbolic.
func IntRange(lo, hi int) int {
	x := int(next())
	if x < lo || x > hi {
		panic(Stop{"assume", "range"})
	}
	return x
}

// Choose is any int in [0, n), explored one by one.
func Choose(n int) int {
	x := int(next())
	if x < 0 || x >= n {
		panic(Stop{"assume", "choose"})
	}
	return x
}

// Concretize explores the feasible values of x one by one.
func Concretize(x int) int { return x }

// Str is any string of n bytes.
func Str(n int) string { return string(Bytes(n)) }

// Bytes is any n bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return b
}

// StrUpTo is any string of at most max bytes (the length is explored one by one).
func StrUpTo(max int) string { return Str(Choose(max + 1)) }

// ByteIn is any byte of set, kept symbolic.
func ByteIn(set string) byte {
	x := byte(next())
	for i := 0; i < len(set); i++ {
		if set[i] == x {
			return x
		}
	}
	panic(Stop{"assume", "set"})
}

// StrIn is any string of n bytes over set.
func StrIn(set string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ByteIn(set)
	}
	return string(b)
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(Stop{"assume", ""})
	}
}

// Assert states the property.
func Assert(c bool, id string) {
	if !c {
		panic(Stop{"violation", id})
	}
}

// Known states the property on an input region covered by a recorded finding: a failure there is reported as that finding.
func Known(c bool, finding string) {
	if !c {
		panic(Stop{"known", finding})
	}
}

// Reach is a vacuity witness: the check fails to count as having covered anything unless each label is reached.
func Reach(label string) { C.Labels = append(C.Labels, label) }

// ObsInt records a value compared between the encoding and the native run.
func ObsInt(label string, v int) { C.Obs = append(C.Obs, fmt.Sprintf("%s=%d", label, v)) }

// ObsBool records a value compared between the encoding and the native run.
func ObsBool(label string, v bool) {
	x := 0
	if v {
		x = 1
	}
	C.Obs = append(C.Obs, fmt.Sprintf("%s=%d", label, x))
}

// ObsStr records a value compared between the encoding and the native run.
func ObsStr(label string, v string) { C.Obs = append(C.Obs, fmt.Sprintf("%s=%q", label, v)) }

// And is a non-branching conjunction.
func Not(a bool) bool { return !a }

// And is a && b without short circuit.
func And(a, b bool) bool { return a && b }

// Or is a non-branching disjunction.
func Or(a, b bool) bool { return a || b }

// Implies is a non-branching implication.
func Implies(a, b bool) bool { return !a || b }

// Iff is a non-branching equivalence.
func Iff(a, b bool) bool { return a == b }

// Ite is a non-branching conditional.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// MapOrder makes the iteration order of maps nondeterministic in the symbolic run.
func MapOrder(on bool) {}
