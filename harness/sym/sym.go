// Package sym is the vocabulary of the harnesses. The symbolic engine intercepts every function
// of this package marked "intercepted"; compiled natively they read their values, in order of
// creation, from a recorded input vector, so a counterexample is replayed against the real code.
package sym

import (
	"fmt"
)

// State of a native replay.
type State struct {
	Inputs []uint64
	Pos    int
	Obs    []string
	Covers map[string]bool
	Level  int
}

// Failure is the panic value of a failed assertion in a native replay.
type Failure struct{ Msg, Known string }

// Skip is the panic value of a failed assumption.
type Skip struct{}

// Cur is the replay in progress.
var Cur *State

func next() uint64 {
	s := Cur
	if s.Pos >= len(s.Inputs) {
		s.Pos++
		return 0
	}
	v := s.Inputs[s.Pos]
	s.Pos++
	return v
}

// Byte is an arbitrary byte. Intercepted.
func Byte() byte { return byte(next()) }

// Bool is an arbitrary boolean. Intercepted.
func Bool() bool { return next()&1 == 1 }

// Uint16 is arbitrary. Intercepted.
func Uint16() uint16 { return uint16(next()) }

// Uint32 is arbitrary. Intercepted.
func Uint32() uint32 { return uint32(next()) }

// Uint64 is arbitrary. Intercepted.
func Uint64() uint64 { return next() }

// Choice is an arbitrary value in [0,n), each explored on a path of its own. Intercepted.
func Choice(n int) int {
	v := int(next())
	if v >= n && v > 0 {
		panic(Skip{})
	}
	return v
}

// Int is an arbitrary value in [lo,hi]. Intercepted.
func Int(lo, hi int) int {
	v := int(next())
	if v < lo || v > hi {
		panic(Skip{})
	}
	return v
}

// Pin explores each possible value of v on a path of its own. Intercepted.
func Pin(v int) int { return v }

// If is c ? a : b without a branch. Intercepted.
func If(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Assume restricts the inputs. Intercepted.
func Assume(c bool) {
	if !c {
		panic(Skip{})
	}
}

// Assert states the property. Intercepted.
func Assert(c bool, msg string) {
	if !c {
		panic(Failure{Msg: msg})
	}
}

// AssertKnown is Assert, with failures inside known attributed to the known finding id. Intercepted.
func AssertKnown(id string, known bool, c bool, msg string) {
	if !c {
		f := Failure{Msg: msg}
		if known {
			f.Known = id
		}
		panic(f)
	}
}

// Observe records a value that the native run must agree on. Intercepted.
func Observe(label string, v interface{}) {
	switch x := v.(type) {
	case string:
		Cur.Obs = append(Cur.Obs, fmt.Sprintf("%s=%q", label, x))
	case []byte:
		Cur.Obs = append(Cur.Obs, fmt.Sprintf("%s=%q", label, x))
	default:
		Cur.Obs = append(Cur.Obs, fmt.Sprintf("%s=%v", label, x))
	}
}

// Cover marks a reachability witness. Intercepted.
func Cover(label string) { Cur.Covers[label] = true }

// Tier is 0 for the quick check, 1 for the thorough one. Intercepted.
func Tier() int { return Cur.Level }

// Large says that this path is long: the engine's guards against endless loops and recursion are
// widened. Intercepted.
func Large() {}

// Stop ends the path. Intercepted.
func Stop() { panic(Skip{}) }

// Bytes is an arbitrary byte string of length 0..max.
func Bytes(max int) []byte {
	n := Choice(max + 1)
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b
}

// String is an arbitrary string of length 0..max.
func String(max int) string { return string(Bytes(max)) }

// StringN is an arbitrary string of length n.
func StringN(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return string(b)
}
