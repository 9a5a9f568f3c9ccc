package cmap

import (
	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// H_C16_wide: maps of many keys, through growth, removal and renewal, with any
// call on any key in between.
func H_C16_wide() {
	vsym.Merge(false)
	c := vsym.Case(3 * kinds)
	n := []int{9, 33, 100}[c%3]
	var m gsync.Map[int, int]
	ref := map[int]int{}
	put := func(k, v int) { m.Store(k, v); ref[k] = v }
	for i := 0; i < n; i++ {
		put(i, 10*i)
		if i%4 == 1 { // misses promote the dirty keys now and then
			v, ok := m.Load(i / 2)
			vsym.Assert(ok && v == 10*(i/2), "a stored value is loaded")
		}
	}
	if vsym.Pick("range", 0, 1) == 1 {
		m.Range(func(int, int) bool { return true })
	}
	for i := 0; i < n; i += 3 {
		m.Delete(i)
		delete(ref, i)
	}
	if vsym.Pick("new", 0, 1) == 1 {
		put(n+5, 1)
	}
	x, old := int(vsym.I64("x")), int(vsym.I64("old"))
	for r := 0; r < 2; r++ {
		ks := []int{0, 1, n / 2, n - 1, n + 5, n + 6}
		k := ks[vsym.Pick("key", 0, len(ks)-1)]
		kind := c / 3
		if r == 1 {
			kind = vsym.Pick("op", 0, kinds-1)
		}
		v, has := ref[k]
		var s plain
		s.has[0], s.val[0] = has, v
		want := s.step(call{kind, 0, x, old})
		vsym.Assert(same(do(&m, call{kind, k, x, old}), want), "every call answers as a plain map")
		if s.has[0] {
			ref[k] = s.val[0]
		} else {
			delete(ref, k)
		}
	}
	for k := -1; k < n+8; k++ {
		v, ok := m.Load(k)
		w, has := ref[k]
		vsym.Assert(ok == has && v == w, "the contents are those of a plain map")
	}
	seen := map[int]bool{}
	m.Range(func(k, v int) bool {
		w, has := ref[k]
		vsym.Assert(has && !seen[k] && v == w, "iterating shows each pair of the plain map once")
		seen[k] = true
		return true
	})
	vsym.Assert(len(seen) == len(ref), "iterating shows every pair")
}
