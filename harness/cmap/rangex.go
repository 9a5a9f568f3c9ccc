package cmap

import (
	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// H_C18_reentrant: the callback modifies the map at one of its calls.
func H_C18_reentrant() {
	c := vsym.Case(prefixes * kinds)
	var m gsync.Map[int, int]
	var x [nk]int
	for i := range x {
		x[i] = int(vsym.I64("init"))
	}
	s := prefix(&m, c%prefixes, &x)
	before := s
	at := vsym.Pick("at", 0, 2)
	stop := vsym.Pick("stop", 0, 3)
	cl := call{c / prefixes, vsym.Pick("key", 0, nk-1), int(vsym.I64("x")), int(vsym.I64("old"))}
	vsym.MapOrder(true)
	var seen [nk]int
	var val [nk]int
	n := 0
	m.Range(func(k, v int) bool {
		vsym.Assert(k >= 0 && k < nk, "only keys of the map are visited")
		seen[k]++
		val[k] = v
		if n == at {
			got := do(&m, cl)
			vsym.Assert(same(got, s.step(cl)), "calls from inside the callback answer as a plain map")
		}
		n++
		return n != stop
	})
	vsym.MapOrder(false)
	full := stop == 0 || n < stop
	for k := 0; k < nk; k++ {
		vsym.Assert(seen[k] <= 1, "no key is visited twice")
		if seen[k] == 1 {
			held := vsym.Or(vsym.And(before.has[k], val[k] == before.val[k]), vsym.And(s.has[k], val[k] == s.val[k]))
			vsym.Assert(held, "a visited key had that value during the iteration")
		} else if full {
			vsym.Assert(!(before.has[k] && s.has[k]), "a key present throughout is visited")
		}
	}
	vsym.Assert(stop == 0 || n <= stop, "the iteration stops when the callback says so")
	contents(&m, &s, "iterating does not change the contents")
}

// H_C18_concurrent: another caller modifies the map during the iteration.
func H_C18_concurrent() {
	c := vsym.Case(prefixes * kinds)
	var m gsync.Map[int, int]
	s := start(&m, c%prefixes)
	k := vsym.Pick("key", 0, nk-1)
	two := vsym.Pick("two", 0, 3)
	cs := []call{arg(c/prefixes, k, 1)}
	switch two {
	case 1:
		cs = append(cs, call{store, (k + 1) % nk, 301, 0})
	case 2:
		cs = append(cs, call{del, (k + 1) % nk, 0, 0})
	case 3:
		cs = []call{{store, (k + 2) % nk, 301, 0}, cs[0]}
	}
	vsym.MapOrder(vsym.Thorough())
	vsym.Race(true)
	var keys, vals [2 * nk]int
	n := 0
	done := make(chan struct{})
	go func() {
		m.Range(func(k, v int) bool {
			if n < len(keys) {
				keys[n], vals[n] = k, v
			}
			n++
			return true
		})
		close(done)
	}()
	rs := make([]res, len(cs))
	for i, cl := range cs {
		rs[i] = do(&m, cl)
	}
	<-done
	vsym.MapOrder(false)
	vsym.Assert(n <= nk, "no key is visited twice")
	held := []plain{s}
	for i, cl := range cs {
		vsym.Assert(same(rs[i], s.step(cl)), "calls during an iteration answer as a plain map")
		held = append(held, s)
	}
	ok := true
	var seen [nk]bool
	for i := 0; i < n; i++ {
		k := keys[i]
		vsym.Assert(k >= 0 && k < nk && !seen[k], "no key is visited twice, and none that was never there")
		seen[k] = true
		h := false
		for j := range held {
			h = vsym.Or(h, vsym.And(held[j].has[k], held[j].val[k] == vals[i]))
		}
		ok = vsym.And(ok, h)
	}
	for k := 0; k < nk; k++ {
		all := true
		for j := range held {
			all = vsym.And(all, held[j].has[k])
		}
		ok = vsym.And(ok, vsym.Or(seen[k], !all))
	}
	vsym.Assert(ok, "visits every key present throughout, each with a value it held")
	contents(&m, &s, "iterating does not change the contents")
}
