// Package vf is the interface between the harnesses and the checker. The
// checker gives these functions symbolic meaning; the bodies here are the
// native meaning, used to replay a concrete assignment on the real code.
package vf

import (
	"os"
	"strconv"
)

// Failure is how a native run ends early.
type Failure struct {
	Kind  string // "fail", "assume", "mismatch"
	Label string
}

// Run is the state of one native run.
type Run struct {
	In     []int64
	pos    int
	Failed string // label of the first failing assertion
	HasF   bool
	Obs    []ObsVal
	Th     bool
	files  []string
}

// ObsVal is one observed value.
type ObsVal struct {
	Label string `json:"l"`
	Val   []byte `json:"v"`
}

// R is the current native run.
var R *Run

func next() int64 {
	if R.pos >= len(R.In) {
		if R.HasF {
			panic(Failure{"fail", R.Failed})
		}
		panic(Failure{"mismatch", "input vector too short"})
	}
	v := R.In[R.pos]
	R.pos++
	return v
}

// ByteIn returns any byte of set.
func ByteIn(set string) byte {
	b := byte(next())
	for i := 0; i < len(set); i++ {
		if set[i] == b {
			return b
		}
	}
	panic(Failure{"mismatch", "byte outside its set"})
}

// ByteNotIn returns any byte that is not in set.
func ByteNotIn(set string) byte {
	b := byte(next())
	for i := 0; i < len(set); i++ {
		if set[i] == b {
			panic(Failure{"mismatch", "byte inside an excluded set"})
		}
	}
	return b
}

// Choose returns any number in 0..n-1.
func Choose(n int) int {
	v := next()
	if v < 0 || v >= int64(n) {
		panic(Failure{"mismatch", "choice out of range"})
	}
	return int(v)
}

// Dec returns any decimal integer of nd digits and its text.
func Dec(nd int, neg bool) (int64, string) {
	b := make([]byte, 0, nd+1)
	if neg {
		b = append(b, '-')
	}
	for i := 0; i < nd; i++ {
		b = append(b, byte(next()))
	}
	n, err := strconv.ParseInt(string(b), 10, 64)
	if err != nil {
		panic(Failure{"mismatch", "decimal"})
	}
	return n, string(b)
}

// Assume drops the inputs for which b is false.
func Assume(b bool) {
	if !b {
		panic(Failure{"assume", ""})
	}
}

// Assert states that b holds.
func Assert(b bool, label string) {
	if !b && !R.HasF {
		R.HasF = true
		R.Failed = label
	}
}

// Eq states that the two texts are equal.
func Eq(label string, a, b []byte) { Assert(string(a) == string(b), label) }

// Fail is Assert(false).
func Fail(label string) {
	Assert(false, label)
	panic(Failure{"fail", label})
}

// Obs records a value that native and symbolic execution must agree on.
func Obs(label string, v []byte) {
	R.Obs = append(R.Obs, ObsVal{label, append([]byte(nil), v...)})
}

// Cover marks a situation the exploration has to reach.
func Cover(label string) {}

// File makes a file of these contents and returns its name.
func File(b []byte) string {
	f, err := os.CreateTemp("", "jinverif*.json")
	if err == nil {
		_, err = f.Write(b)
	}
	if err == nil {
		R.files = append(R.files, f.Name())
		err = f.Close()
	}
	if err != nil {
		panic(Failure{"mismatch", err.Error()})
	}
	return f.Name()
}

// Clean removes the files of the run.
func (r *Run) Clean() {
	for _, f := range r.files {
		os.Remove(f)
	}
}

// Steps allows the rest of the path n times the usual number of steps.
func Steps(n int) {}

// Thorough tells whether the larger bounds are in force.
func Thorough() bool { return R.Th }

// Par runs two calls concurrently.
func Par(f, g func()) {
	done := make(chan any, 2)
	run := func(k func()) {
		defer func() { done <- recover() }()
		k()
	}
	go run(f)
	go run(g)
	a, b := <-done, <-done
	if a != nil {
		panic(a)
	}
	if b != nil {
		panic(b)
	}
}
