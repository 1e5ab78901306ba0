// Package sym is the interface between harnesses and the symbolic executor (/verif/gosym).
// The executor intercepts every function of this package. The bodies below are the native
// meaning: inputs are read from a recorded vector, so the same harness replays a
// counterexample on the compiled code.
package sym

import (
	"bytes"
	"fmt"
	"runtime"
	"strconv"
)

type Input struct {
	N   string            `json:"n"`
	K   string            `json:"k"`
	V   uint64            `json:"v"`
	Pts map[string]uint64 `json:"pts"`
}

type Obs struct {
	L string `json:"l"`
	V string `json:"v"`
}

// Outcome is how a native run ended early.
type Outcome struct{ Status, Label string }

type State struct {
	In       []Input
	Pos      int
	Obs      []Obs
	Thorough bool
	limit    uint64
	start    uint64
}

var cur *State

func Begin(s *State) { cur = s }

// Over reports whether the allocation limit set by the harness was exceeded.
func (s *State) Over() bool {
	if s.limit == 0 {
		return false
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc-s.start > s.limit
}

func next(name, kind string) Input {
	if cur.Pos >= len(cur.In) {
		panic(Outcome{"badvec", "input vector exhausted at " + name})
	}
	in := cur.In[cur.Pos]
	cur.Pos++
	if in.N != name || in.K != kind {
		panic(Outcome{"badvec", fmt.Sprintf("input %d is %s/%s, harness asks for %s/%s", cur.Pos-1, in.N, in.K, name, kind)})
	}
	return in
}

func U8(name string) uint8   { return uint8(next(name, "u8").V) }
func U16(name string) uint16 { return uint16(next(name, "u16").V) }
func U32(name string) uint32 { return uint32(next(name, "u32").V) }
func U64(name string) uint64 { return next(name, "u64").V }
func Bool(name string) bool  { return next(name, "bool").V != 0 }

// Int is any value in [lo, hi].
func Int(name string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	return int(next(name, "int").V)
}

// Choice is any value in [0, n), explored one by one.
func Choice(name string, n int) int { return int(next(name, "int").V) }

// AnyIndex is any value in [0, n); the path ends if there is none.
func AnyIndex(name string, n int) int {
	v := next(name, "int").V
	if v >= uint64(n) {
		panic(Outcome{"assume", name})
	}
	return int(v)
}

// Bytes is a slice of n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = uint8(next(name, "u8").V)
	}
	return b
}

// Str is a string of n arbitrary bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Blob is a slice of any length in [lo, hi] holding arbitrary bytes.
func Blob(name string, lo, hi int) []byte {
	in := next(name, "blob")
	b := make([]byte, in.V)
	for k, v := range in.Pts {
		i, _ := strconv.Atoi(k)
		if i < len(b) {
			b[i] = byte(v)
		}
	}
	return b
}

func Assume(c bool) {
	if !c {
		panic(Outcome{"assume", ""})
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		panic(Outcome{"assert", label})
	}
}

func Fail(label string) { panic(Outcome{"assert", label}) }

// Cover marks a point that has to be reachable for the harness to mean anything.
func Cover(label string) {}

// Stop ends the path.
func Stop() { panic(Outcome{"stop", ""}) }

// Thorough reports whether the deeper bounds are wanted.
func Thorough() bool { return cur.Thorough }

// MaxAlloc makes any single allocation above n bytes a violation.
func MaxAlloc(n int) {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	cur.start = ms.TotalAlloc
	cur.limit = uint64(n)
}

// MapOrders(1) explores every iteration order of maps in the code under verification.
func MapOrders(mode int) {}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
func EqStr(a, b string) bool   { return a == b }

// Concrete forks until the value is known.
func Concrete(v int) int { return v }

func ObserveInt(label string, v int)   { cur.Obs = append(cur.Obs, Obs{label, strconv.Itoa(v)}) }
func ObserveBool(label string, v bool) {
	n := 0
	if v {
		n = 1
	}
	ObserveInt(label, n)
}
func ObserveBytes(label string, b []byte) { cur.Obs = append(cur.Obs, Obs{label, fmt.Sprintf("%x", b)}) }
func ObserveLen(label string, b []byte)   { ObserveInt(label, len(b)) }
func ObserveStr(label string, s string)   { ObserveBytes(label, []byte(s)) }
func ObserveErr(label string, e error)    { ObserveBool(label, e != nil) }
