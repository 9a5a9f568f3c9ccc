package cmap

import (
	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"github.com/miniLCT/gosb/verifh/vsym"
)

const nk = 3

// plain is an ordinary map over keys 0..nk-1, without forks on its contents.
type plain struct {
	has [nk]bool
	val [nk]int
}

type res struct {
	v  int
	ok bool
}

type call struct{ kind, key, x, old int }

const (
	load = iota
	store
	loadOrStore
	loadAndDelete
	del
	swap
	cas
	cad
	kinds
)

// step applies one call to the plain map.
func (s *plain) step(c call) res {
	k := c.key
	has, val := s.has[k], s.val[k]
	was := res{vsym.IteI(has, val, 0), has}
	switch c.kind {
	case load:
		return was
	case store:
		s.has[k], s.val[k] = true, c.x
		return res{}
	case loadOrStore:
		v := vsym.IteI(has, val, c.x)
		s.has[k], s.val[k] = true, v
		return res{v, has}
	case loadAndDelete:
		s.has[k] = false
		return was
	case del:
		s.has[k] = false
		return res{}
	case swap:
		s.has[k], s.val[k] = true, c.x
		return was
	case cas:
		ok := vsym.And(has, val == c.old)
		s.val[k] = vsym.IteI(ok, c.x, val)
		return res{0, ok}
	case cad:
		ok := vsym.And(has, val == c.old)
		s.has[k] = vsym.And(has, vsym.IteB(ok, false, true))
		return res{0, ok}
	}
	return res{}
}

// do applies one call to the map under test.
func do(m *gsync.Map[int, int], c call) (r res) {
	switch c.kind {
	case load:
		r.v, r.ok = m.Load(c.key)
	case store:
		m.Store(c.key, c.x)
	case loadOrStore:
		r.v, r.ok = m.LoadOrStore(c.key, c.x)
	case loadAndDelete:
		r.v, r.ok = m.LoadAndDelete(c.key)
	case del:
		m.Delete(c.key)
	case swap:
		r.v, r.ok = m.Swap(c.key, c.x)
	case cas:
		r.ok = m.CompareAndSwap(c.key, c.old, c.x)
	case cad:
		r.ok = m.CompareAndDelete(c.key, c.old)
	}
	return r
}

func same(a, b res) bool { return vsym.And(a.v == b.v, a.ok == b.ok) }

const prefixes = 10

// prefix brings the map into one of the states its storage distinguishes and
// returns what it holds.
func prefix(m *gsync.Map[int, int], n int, x *[nk]int) (s plain) {
	put := func(k int) { do(m, call{store, k, x[k], 0}); s.step(call{store, k, x[k], 0}) }
	rem := func(k int) { do(m, call{del, k, 0, 0}); s.step(call{del, k, 0, 0}) }
	promote := func() { m.Range(func(int, int) bool { return true }) }
	switch n {
	case 0: // empty
	case 1: // one dirty key
		put(0)
	case 2: // one clean key
		put(0)
		promote()
	case 3: // two clean keys, one dirty
		put(0)
		put(1)
		promote()
		put(2)
	case 4: // a deleted clean key, no dirty map
		put(0)
		put(1)
		promote()
		rem(0)
	case 5: // an expunged key
		put(0)
		put(1)
		promote()
		rem(0)
		put(2)
	case 6: // a clean key deleted while the dirty map exists
		put(0)
		put(1)
		promote()
		put(2)
		rem(0)
	case 7: // dirty map about to be promoted
		put(0)
		promote()
		put(1)
		do(m, call{load, 1, 0, 0})
	case 8: // an expunged key restored, another expunged
		put(0)
		put(1)
		promote()
		rem(0)
		rem(1)
		put(2)
		put(0)
	case 9: // a dirty key deleted
		put(0)
		promote()
		put(1)
		put(2)
		rem(1)
	}
	return s
}

func symCall() call {
	return call{
		kind: vsym.Pick("op", 0, kinds-1),
		key:  vsym.Pick("key", 0, nk-1),
		x:    int(vsym.I64("x")),
		old:  int(vsym.I64("old")),
	}
}

// ranged reads the map through Range.
func ranged(m *gsync.Map[int, int]) (s plain, n int, twice bool) {
	m.Range(func(k, v int) bool {
		twice = twice || s.has[k]
		s.has[k], s.val[k] = true, v
		n++
		return true
	})
	return
}

func contents(m *gsync.Map[int, int], s *plain, msg string) {
	ok := true
	for k := 0; k < nk; k++ {
		v, has := m.Load(k)
		ok = vsym.And(ok, vsym.And(has == s.has[k], vsym.Or(!has, v == s.val[k])))
	}
	vsym.Assert(ok, msg)
}

// H_C16_history: every short history from every storage state.
func H_C16_history() {
	c := vsym.Case(prefixes * kinds)
	var m gsync.Map[int, int]
	var x [nk]int
	for i := range x {
		x[i] = int(vsym.I64("init"))
	}
	s := prefix(&m, c%prefixes, &x)
	n := vsym.Bound(2, 3)
	for i := 0; i < n; i++ {
		cl := call{}
		if i == 0 {
			cl = call{c / prefixes, vsym.Pick("key", 0, nk-1), int(vsym.I64("x")), int(vsym.I64("old"))}
		} else {
			cl = symCall()
		}
		got := do(&m, cl)
		want := s.step(cl)
		vsym.Assert(same(got, want), "every call answers as a plain map")
	}
	if vsym.Pick("by", 0, 1) == 0 {
		contents(&m, &s, "the contents are those of a plain map")
		contents(&m, &s, "the contents stay those of a plain map")
	} else {
		r, _, twice := ranged(&m)
		ok := !twice
		for k := 0; k < nk; k++ {
			ok = vsym.And(ok, vsym.And(r.has[k] == s.has[k], vsym.Or(!r.has[k], r.val[k] == s.val[k])))
		}
		vsym.Assert(ok, "iterating shows the contents of a plain map")
		contents(&m, &s, "iterating does not change the contents")
	}
}

// H_C16_any: values of any type, nil included.
func H_C16_any() {
	c := vsym.Case(3)
	var m gsync.Map[string, any]
	vals := [4]any{nil, 1, "a", int64(1)}
	a, b, o := vsym.Pick("a", 0, 3), vsym.Pick("b", 0, 3), vsym.Pick("o", 0, 3)
	m.Store("k", vals[a])
	if c >= 1 {
		m.Range(func(string, any) bool { return true })
	}
	if c == 2 {
		m.Store("l", 5)
	}
	v, ok := m.Load("k")
	vsym.Assert(ok && v == vals[a], "the stored value is loaded")
	vsym.Assert(m.CompareAndSwap("k", vals[o], vals[b]) == (o == a), "swapped exactly when the value equals the old one")
	cur := a
	if o == a {
		cur = b
	}
	v, ok = m.Load("k")
	vsym.Assert(ok && v == vals[cur], "the swapped value is loaded")
	v, ok = m.LoadOrStore("k", 9)
	vsym.Assert(ok && v == vals[cur], "a nil value counts as present")
	vsym.Assert(m.CompareAndDelete("k", vals[o]) == (o == cur), "deleted exactly when the value equals the old one")
	_, ok = m.Load("k")
	vsym.Assert(ok == (o != cur), "deleted or not")
	vsym.Assert(!m.CompareAndDelete("absent", nil) && !m.CompareAndSwap("absent", nil, 1), "an absent key equals nothing")
}

// H_C16_long: longer histories of the common calls over two keys.
func H_C16_long() {
	c := vsym.Case(prefixes * 8)
	ops := [4]int{load, store, loadAndDelete, loadOrStore}
	var m gsync.Map[int, int]
	var x [nk]int
	for i := range x {
		x[i] = int(vsym.I64("init"))
	}
	s := prefix(&m, c%prefixes, &x)
	f := c / prefixes
	n := vsym.Bound(4, 5)
	for i := 0; i < n; i++ {
		if i > 0 {
			f = vsym.Pick("call", 0, 7)
		}
		cl := call{ops[f%4], f / 4 * 2, int(vsym.I64("x")), 0}
		vsym.Assert(same(do(&m, cl), s.step(cl)), "every call answers as a plain map")
	}
	contents(&m, &s, "the contents are those of a plain map")
}
