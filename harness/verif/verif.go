// Package verif is the harness API. The symbolic executor intercepts every function of this package;
// the bodies below give them their concrete meaning when a counterexample is replayed natively.
package verif

import (
	"fmt"
	"sync"
	"time"
)

type stop struct{ why, msg string }

type State struct {
	Tape   []uint64
	pos    int
	Log    []string
	Params map[string]int
}

var S State

func next() uint64 {
	if S.pos < len(S.Tape) {
		S.pos++
		return S.Tape[S.pos-1]
	}
	S.pos++
	return 0
}

// Byte is an arbitrary byte.
func Byte() byte { return byte(next()) }

// ByteIn is an arbitrary byte in lo..hi.
func ByteIn(lo, hi byte) byte {
	b := byte(next())
	if b < lo {
		b = lo
	}
	if b > hi {
		b = hi
	}
	return b
}

// Bytes is an arbitrary string of n bytes.
func Bytes(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return string(b)
}

// Int is an arbitrary integer in lo..hi (symbolic).
func Int(lo, hi int) int {
	if lo >= hi {
		return lo
	}
	return lo + int(next())
}

// Choose forks over 0..n-1.
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	return int(next())
}

// Bool is an arbitrary boolean (symbolic).
func Bool() bool { return next() == 1 }

// Assume restricts the inputs considered.
func Assume(b bool) {
	if !b {
		panic(stop{"assume", ""})
	}
}

// Check is the property: the executor asks the solver for a path-condition model violating b.
func Check(b bool, msg string) {
	if !b {
		panic(stop{"violation", msg})
	}
}

func Fail(msg string) { panic(stop{"violation", msg}) }

// Reach marks a reachability witness.
func Reach(tag string) {}

// Log records an observable, compared between symbolic and native runs.
func Log(s string) { S.Log = append(S.Log, s) }

func Param(name string, def int) int {
	if v, ok := S.Params[name]; ok {
		return v
	}
	return def
}

// Concrete forks over the values of the symbolic bytes of s.
func Concrete(s string) string { return s }

func ConcreteInt(i int) int { return i }

func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// Symbolic reports whether the harness runs under the symbolic executor.
func Symbolic() bool { return false }

// MapOrder selects how iteration over the target's maps is explored: 0 one order, 1 forward and reverse,
// 2 every permutation.
func MapOrder(mode int) {}

// Race runs f and g at the same time and fails if ok then returns a message. Symbolically: f with g run as a whole at
// every point where f has just changed memory that g may reach; changing such memory without synchronisation is a failure
// by itself.
func Race(f, g func(), ok func() string) {
	end := time.Now()
	if Param("stress", 0) == 1 {
		end = end.Add(4 * time.Second)
	}
	for i := 0; i < 3 || time.Now().Before(end); i++ {
		var wg sync.WaitGroup
		var crash [2]any
		for k, f := range []func(){f, g} {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { crash[k] = recover() }()
				f()
			}()
		}
		wg.Wait()
		for _, c := range crash {
			if c != nil {
				panic(c)
			}
		}
		if s := ok(); s != "" {
			panic(stop{"violation", s})
		}
	}
}

// Stop ends the path.
func Stop() { panic(stop{"ok", ""}) }

// StepLimit bounds the instructions executed from here on; exceeding it is a candidate non-termination.
func StepLimit(n int) {}

// Run executes f natively on a tape.
func Run(f func(), tape []uint64, params map[string]int) (status, msg string, log []string) {
	S = State{Tape: tape, Params: params}
	defer func() {
		log = S.Log
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				status, msg = s.why, s.msg
				return
			}
			status, msg = "panic", fmt.Sprint(r)
		}
	}()
	status = "ok"
	f()
	return
}
