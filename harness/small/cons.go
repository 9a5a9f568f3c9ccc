package small

import (
	"errors"
	"sync"

	gc "github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/verifh/vsym"
)

type valErr struct{ code int64 }

func (e valErr) Error() string { return "val" }

type ptrErr struct{ code int64 }

func (e *ptrErr) Error() string { return "ptr" }

type strErr string

func (e strErr) Error() string { return string(e) }

var plainErr = errors.New("plain")

// mkErr draws an error of one of several concrete types, or nil.
func mkErr() error {
	x := vsym.I64("code")
	switch vsym.Pick("type", 0, 4) {
	case 1:
		return valErr{x}
	case 2:
		return &ptrErr{x}
	case 3:
		return strErr("s")
	case 4:
		return plainErr
	}
	return nil
}

// H_C14_history: Load returns the last error set.
func H_C14_history() {
	var ae gc.AtomicError
	vsym.Assert(ae.Load() == nil, "nil before any set")
	var last error
	for i := 0; i < vsym.Bound(4, 5); i++ {
		e := mkErr()
		ae.Set(e)
		if e != nil {
			last = e
		}
		vsym.Assert(ae.Load() == last, "the error most recently set")
	}
	vsym.Assert(ae.Load() == last, "loading does not change it")
}

// lists of problems are errors that cannot be compared.
type listErr []int64

func (e listErr) Error() string { return "list" }

type mapErr map[string]int64

func (e mapErr) Error() string { return "map" }

// H_C14_lists: errors of types without equality.
func H_C14_lists() {
	var ae gc.AtomicError
	for i := 0; i < 3; i++ {
		x := vsym.I64("code")
		switch vsym.Pick("type", 0, 3) {
		case 0:
			ae.Set(valErr{x})
			vsym.Assert(ae.Load() == error(valErr{x}), "the error most recently set")
		case 1:
			ae.Set(listErr{x, 2})
			e, ok := ae.Load().(listErr)
			vsym.Assert(ok && len(e) == 2 && e[0] == x, "the error most recently set")
		case 2:
			ae.Set(mapErr{"a": x})
			e, ok := ae.Load().(mapErr)
			vsym.Assert(ok && len(e) == 1 && e["a"] == x, "the error most recently set")
		default:
			before := ae.Load()
			ae.Set(nil)
			vsym.Assert((ae.Load() == nil) == (before == nil), "setting nil changes nothing")
		}
	}
}

// H_C14_race: setters and loaders together.
func H_C14_race() {
	c := vsym.Case(6)
	var ae gc.AtomicError
	var first error
	if c%2 == 1 {
		first = valErr{7}
		ae.Set(first)
	}
	setters, loads := 1+(c/2)%3, 2
	if setters == 3 {
		loads = 1
	}
	es := make([]error, setters)
	for i := range es {
		es[i] = mkErr()
	}
	vsym.Race(true)
	var wg sync.WaitGroup
	for i := range es {
		i := i
		wg.Add(1)
		go func() {
			ae.Set(es[i])
			wg.Done()
		}()
	}
	got := make([]error, loads)
	for i := range got {
		got[i] = ae.Load()
	}
	wg.Wait()
	fin := ae.Load()
	isSet := func(e error) bool {
		for _, x := range es {
			if x != nil && x == e {
				return true
			}
		}
		return false
	}
	any := false
	for _, x := range es {
		any = any || x != nil
	}
	vsym.Assert(isSet(fin) || !any && fin == first, "in the end one of the errors set")
	for i, e := range got {
		vsym.Assert(e == first || isSet(e), "a load returns an error that was set")
		if i > 0 && got[0] != first {
			vsym.Assert(e != first || isSet(first), "an overwritten error does not come back")
		}
	}
}

// H_C14_order: what one goroutine sets is what it loads when nobody else sets,
// and a set that follows another one wins.
func H_C14_order() {
	var ae gc.AtomicError
	a, b := mkErr(), mkErr()
	vsym.Race(true)
	done := make(chan struct{})
	go func() {
		ae.Set(a)
		ae.Set(b)
		close(done)
	}()
	x := ae.Load()
	y := ae.Load()
	<-done
	z := ae.Load()
	last := b
	if b == nil {
		last = a
	}
	vsym.Assert(z == last, "the last error set")
	vsym.Assert(x == nil || x == a || x == b, "an error that was set")
	if x == b && b != nil && a != b {
		vsym.Assert(y == b, "loads do not go back")
	}
	if x != nil {
		vsym.Assert(y != nil, "loads do not go back")
	}
}

type node struct {
	id   int64
	name string
	next *node
}

// H_C14_values: the generic value helpers.
func H_C14_values() {
	x, s := vsym.I64("x"), vsym.Str("s", 2)
	p := gc.ToPtr(x)
	vsym.Assert(*p == x && gc.ToValue(p) == x, "pointer conversion is exact")
	q := gc.ToPtr(x)
	*q++
	vsym.Assert(*p == x && p != q, "each pointer has its own value")
	vsym.Assert(gc.ToValue[int64](nil) == 0 && gc.ToValue[string](nil) == "", "nil is the empty value")
	ps := gc.ToPtr(s)
	vsym.Assert(gc.ToValue(ps) == s, "pointer conversion is exact")
	vsym.Assert(gc.IsEmpty(x) == (x == 0) && gc.IsNotEmpty(x) == (x != 0), "empty is the zero value")
	vsym.Assert(!gc.IsEmpty(s) && gc.IsNotEmpty(s) && gc.IsEmpty(s[:0]) && !gc.IsNotEmpty(s[:0]), "empty is the zero value")
	f := vsym.F64("f")
	vsym.Assert(gc.IsEmpty(f) == (f == 0) && gc.IsNotEmpty(f) == (f != 0), "empty is the zero value")
	n := node{x, "", nil}
	if vsym.Pick("node", 0, 1) == 1 {
		n.next = &node{}
	}
	vsym.Assert(gc.IsEmpty(n) == (x == 0 && n.next == nil), "empty is the zero value")
	vsym.Assert(gc.IsNotEmpty(n) != gc.IsEmpty(n), "non-empty is the opposite")
	pn := &n
	vsym.Assert(!gc.IsEmpty(pn) && gc.IsEmpty[*node](nil) && gc.ToValue(&pn) == pn, "pointers are values too")
	k, v := gc.Pack(x, s).Unpack()
	vsym.Assert(k == x && v == s, "a pair holds its two values in order")
	k2, v2 := gc.Pack(s, pn).Unpack()
	vsym.Assert(k2 == s && v2 == pn, "a pair holds its two values in order")
	vsym.Assert(gc.Empty[int64]() == 0 && gc.Empty[string]() == "" && gc.Empty[*node]() == nil && gc.Empty[node]() == node{}, "the zero value")
}
