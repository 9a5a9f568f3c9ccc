// Package vsym is the harness interface.  Under the symbolic engine every
// function below is intercepted; compiled natively the same functions read the
// solver's assignment from a vector, so that a counterexample (or a sample
// path) is replayed against the real build.
package vsym

import (
	"encoding/hex"
	"fmt"
	"math"
	"runtime"
	"strconv"
	"sync"
	"time"
)

// Vec is the vector of the current native run.
var (
	mu       sync.Mutex
	Vec      map[string][]string
	pos      map[string]int
	Obs      []string
	CaseNo   int
	IsThor   bool
	Failures []string
	Missing  int
	Hook     func(op string)
	QuiesceF func()
	BlockedF func() int
	Reached  []string
	rnd      uint64
)

type AssumeFailed struct{}
type AssertFailed struct{ Msg string }

// Start installs a vector for a native run.
func Start(v map[string][]string, c int, thorough bool) {
	mu.Lock()
	defer mu.Unlock()
	Vec = v
	pos = map[string]int{}
	Obs = nil
	Failures = nil
	CaseNo = c
	IsThor = thorough
	Missing = 0
}

func next(name string) (string, bool) {
	mu.Lock()
	defer mu.Unlock()
	i := pos[name]
	pos[name] = i + 1
	if i < len(Vec[name]) {
		return Vec[name][i], true
	}
	Missing++
	return "", false
}

func num(name string, def int64) int64 {
	s, ok := next(name)
	if !ok {
		if rnd != 0 {
			return int64(random())
		}
		return def
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		u, err2 := strconv.ParseUint(s, 10, 64)
		if err2 != nil {
			panic("vsym: bad vector " + name + "=" + s)
		}
		return int64(u)
	}
	return n
}

func Bool(name string) bool   { return num(name, 0) != 0 }
func U8(name string) uint8    { return uint8(num(name, 0)) }
func U16(name string) uint16  { return uint16(num(name, 0)) }
func U32(name string) uint32  { return uint32(num(name, 0)) }
func U64(name string) uint64  { return uint64(num(name, 0)) }
func I8(name string) int8     { return int8(num(name, 0)) }
func I16(name string) int16   { return int16(num(name, 0)) }
func I32(name string) int32   { return int32(num(name, 0)) }
func I64(name string) int64   { return num(name, 0) }
func F64(name string) float64 { return math.Float64frombits(uint64(num(name, 0))) }
func F32(name string) float32 { return math.Float32frombits(uint32(num(name, 0))) }

// Int is a symbolic integer in [lo,hi].
func Int(name string, lo, hi int) int {
	v := int(num(name, int64(lo)))
	if v < lo || v > hi {
		panic(AssumeFailed{})
	}
	return v
}

// Pick is an integer in [lo,hi], decided (forked) at once.
func Pick(name string, lo, hi int) int { return Int(name, lo, hi) }

// Conc concretises (forks on) a symbolic integer.
func Conc(x int) int { return x }

func raw(name string, n int) []byte {
	b := make([]byte, n)
	if s, ok := next(name); ok {
		d, err := hex.DecodeString(s)
		if err != nil {
			panic("vsym: bad bytes vector " + name)
		}
		copy(b, d)
	}
	return b
}

func Bytes(name string, n int) []byte { return raw(name, n) }
func Str(name string, n int) string   { return string(raw(name, n)) }

func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		mu.Lock()
		Failures = append(Failures, msg)
		mu.Unlock()
		panic(AssertFailed{msg})
	}
}

func Fail(msg string) { Assert(false, msg) }

// Reach marks a point as reached; Need declares that some input must reach it.
func Reach(tag string) {
	mu.Lock()
	Reached = append(Reached, tag)
	mu.Unlock()
}

func Need(tag string) {}

// Random makes draws beyond the vector random (when on) instead of zero.
func Random(seed int, on bool) {
	Reached = nil
	rnd = 0
	if on && seed != 0 {
		rnd = uint64(seed)*0x9e3779b97f4a7c15 | 1
	}
}

func random() uint64 {
	rnd ^= rnd << 13
	rnd ^= rnd >> 7
	rnd ^= rnd << 17
	return rnd * 0x2545f4914f6cdd1d
}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func IteI(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteB(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}
func IteU8(c bool, a, b uint8) uint8 {
	if c {
		return a
	}
	return b
}
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Distinct reports whether the two byte slices share no memory (capacities included).
func Distinct(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return true
	}
	x, y := a[:cap(a)], b[:cap(b)]
	x0, y0 := addr(x), addr(y)
	return x0+uintptr(len(x)) <= y0 || y0+uintptr(len(y)) <= x0
}

func ObsI(label string, v int)    { obs(label + "=" + strconv.Itoa(v)) }
func ObsS(label string, v string) { obs(fmt.Sprintf("%s=%x", label, v)) }
func ObsB(label string, v bool)   { obs(fmt.Sprintf("%s=%t", label, v)) }
func obs(s string) {
	mu.Lock()
	Obs = append(Obs, s)
	mu.Unlock()
}

func Thorough() bool { return IsThor }

// Bound returns quick in the quick tier, thorough otherwise.
func Bound(quick, thorough int) int {
	if IsThor {
		return thorough
	}
	return quick
}

// Case splits a harness into n independently explored cases.
func Case(n int) int { return CaseNo }

// Delays limits the schedules to those that deviate at most k times from a
// fixed one: a goroutine runs until it blocks, then (order 0) the one started
// first or (order 1) last goes on, or (order 2) all take turns step by step.
func Delays(k, order int) {}

func MapOrder(on bool) {}
func Merge(on bool)    {}
func Race(on bool)     {}
func Unwind(n int)     {}
func Symbolic() bool   { return false }

// Quiesce waits until every other goroutine has finished or is blocked.
func Quiesce() {
	if QuiesceF != nil {
		QuiesceF()
		return
	}
	for i := 0; i < 20; i++ {
		runtime.Gosched()
		time.Sleep(time.Millisecond)
	}
}

// Blocked is the number of other goroutines that have not finished.
func Blocked() int {
	if BlockedF != nil {
		return BlockedF()
	}
	return 0
}

var model sync.Mutex

// Enter and Leave bracket the body of an environment model: what it does to
// its own data is no concern of the race check.
func Enter() { model.Lock() }
func Leave() { model.Unlock() }

// Yield is a scheduling point.
func Yield() {
	if Hook != nil {
		Hook("yield")
	}
}

// Panics runs f and reports whether it panicked, with the value.
func Panics(f func()) (p bool, v any) {
	p = true
	defer func() {
		if p {
			v = recover()
			switch v.(type) {
			case AssumeFailed, AssertFailed:
				panic(v)
			}
		}
	}()
	f()
	p = false
	return
}

// Sync is a scheduling point on the named shared resource; operations on the
// same resource are ordered.
func Sync(name string) {
	if Hook != nil {
		Hook("sync")
	}
}

// Touch is a scheduling point at which a model reads and writes the named
// resources (newline separated); unlike Sync it orders nothing.
func Touch(reads, writes string) {
	if Hook != nil {
		Hook("sync")
	}
}
