package rbtx

import (
	"github.com/miniLCT/gosb/gogenerics/gds/grbt"
	"github.com/miniLCT/gosb/verifh/vmodels"
	"github.com/miniLCT/gosb/verifh/vsym"
)

func less(a, b int) bool { return a < b }

// key is any key: the tree only compares keys, so 256 values realise every
// order type the bounded harnesses can build.
func key(name string) int { return int(vsym.U8(name)) }

func same(t *rbt.RbTree[int, int], m *vmodels.AMap) {
	vsym.Assert(t.Len() == m.Len(), "Len agrees with the reference map")
	vsym.Assert(t.Empty() == (m.Len() == 0), "Empty agrees with the reference map")
	ks, vs, ns := t.Keys(), t.Values(), t.Nodes()
	vsym.Assert(vsym.And(len(ks) == t.Len(), vsym.And(len(vs) == t.Len(), len(ns) == t.Len())), "listings have Len entries")
	good := true
	for i := range ks {
		v, ok := m.Get(ks[i])
		nk, nv := ns[i].Unpack()
		good = vsym.And(good, vsym.And(ok, vsym.And(vs[i] == v, vsym.And(nk == ks[i], nv == v))))
		if i > 0 {
			good = vsym.And(good, ks[i-1] < ks[i])
		}
	}
	vsym.Assert(good, "Keys, Values and Nodes list exactly the live pairs in strictly ascending key order")
}

func probe(t *rbt.RbTree[int, int], m *vmodels.AMap, k int) {
	v, ok := m.Get(k)
	vsym.Assert(t.Search(k) == ok, "Search agrees with the reference map")
	vsym.Assert(t.Get(k) == v, "Get agrees with the reference map")
}

func step(t *rbt.RbTree[int, int], m *vmodels.AMap, op, k, v int) {
	old, had := m.Get(k)
	switch op {
	case 0:
		vsym.Assert(t.Insert(k, v) == old, "Insert returns the value previously stored (zero if new)")
		m.Put(k, v)
	case 1:
		vsym.Assert(t.Delete(k) == old, "Delete returns the removed value (zero if absent)")
		m.Del(k)
	case 2:
		g, ok := t.Update(k, v)
		vsym.Assert(ok == had, "Update reports whether the key existed")
		vsym.Assert(g == old, "Update returns the old value (zero if absent)")
		m.Set(k, v)
	case 3:
		t.Clear()
		m.Clear()
	}
	probe(t, m, k)
}

// H_C01_history: symbolic operations with symbolic keys from the empty tree.
func H_C01_history() {
	n := vsym.Bound(3, 4)
	first := vsym.Case(4)
	t := rbt.New[int, int](less)
	m := &vmodels.AMap{}
	for i := 0; i < n; i++ {
		op := first
		if i > 0 {
			op = vsym.Pick("op", 0, 3)
		}
		step(t, m, op, key("k"), int(vsym.I64("v")))
	}
	same(t, m)
	probe(t, m, key("probe"))
	vsym.ObsI("len", t.Len())
}

// H_C01_inserts: insertions only, every order of the keys, any total order.
func H_C01_inserts() {
	n := vsym.Bound(4, 6)
	var lt func(a, b int) bool
	if vsym.Case(2) == 0 {
		lt = less
	} else {
		lt = func(a, b int) bool { return a > b }
	}
	t := rbt.New[int, int](lt)
	m := &vmodels.AMap{}
	for i := 0; i < n; i++ {
		k := key("k")
		old, _ := m.Get(k)
		vsym.Assert(t.Insert(k, i+1) == old, "Insert returns the value previously stored (zero if new)")
		m.Put(k, i+1)
	}
	ks, vs := t.Keys(), t.Values()
	vsym.Assert(t.Len() == m.Len(), "Len agrees with the reference map")
	vsym.Assert(len(ks) == t.Len(), "Keys lists Len keys")
	for i := range ks {
		v, ok := m.Get(ks[i])
		vsym.Assert(vsym.And(ok, vs[i] == v), "listed pair is live")
		if i > 0 {
			vsym.Assert(lt(ks[i-1], ks[i]), "keys strictly ascending under the tree's order")
		}
	}
	probe(t, m, key("probe"))
}

// orders of building an initial tree with the keys 10, 20, .. 10n
func build(t *rbt.RbTree[int, int], m *vmodels.AMap, n, shape int) {
	put := func(i int) {
		t.Insert(10*i, i)
		if m != nil {
			m.Put(10*i, i)
		}
	}
	switch shape {
	case 0:
		for i := 1; i <= n; i++ {
			put(i)
		}
	case 1:
		for i := n; i >= 1; i-- {
			put(i)
		}
	case 2: // inside out
		for i, j := n/2, n/2+1; i >= 1 || j <= n; i, j = i-1, j+1 {
			if i >= 1 {
				put(i)
			}
			if j <= n {
				put(j)
			}
		}
	case 3: // stride
		for s := 0; s < 3; s++ {
			for i := 1 + s; i <= n; i += 3 {
				put(i)
			}
		}
	case 4: // outside in
		for i, j := 1, n; i <= j; i, j = i+1, j-1 {
			put(i)
			if i != j {
				put(j)
			}
		}
	}
}

// H_C01_larger: symbolic deletions and insertions on larger trees.
func H_C01_larger() {
	c := vsym.Case(vsym.Bound(10, 20))
	n := []int{6, 9, 12, 15}[c/5]
	t := rbt.New[int, int](less)
	m := &vmodels.AMap{}
	build(t, m, n, c%5)
	ops := vsym.Bound(2, 3)
	for i := 0; i < ops; i++ {
		op := vsym.Pick("op", 0, 1)
		k := vsym.Int("k", 0, 10*n+10)
		old, _ := m.Get(k)
		if op == 0 {
			vsym.Assert(t.Insert(k, 100+i) == old, "Insert returns the value previously stored (zero if new)")
			m.Put(k, 100+i)
		} else {
			vsym.Assert(t.Delete(k) == old, "Delete returns the removed value (zero if absent)")
			m.Del(k)
		}
	}
	same(t, m)
}

func update(t *rbt.RbTree[int, int], m *vmodels.AMap, k, v int) {
	old, has := m.Get(k)
	got, ok := t.Update(k, v)
	vsym.Assert(ok == has, "Update reports whether the key was there")
	vsym.Assert(got == old, "Update returns the old value (zero if absent)")
	if has {
		m.Put(k, v)
	}
}

// H_C01_update: replacing the values of a larger tree, and looking keys up.
func H_C01_update() {
	c := vsym.Case(20)
	n := []int{7, 10, 16, 23}[c/5]
	t := rbt.New[int, int](less)
	m := &vmodels.AMap{}
	build(t, m, n, c%5)
	if k := vsym.Pick("gone", 0, n); k > 0 {
		t.Delete(10 * k)
		m.Del(10 * k)
	}
	k := 5 * vsym.Pick("k", 1, 2*n+1)
	update(t, m, k, int(vsym.I64("v")))
	same(t, m)
	probe(t, m, k)
	probe(t, m, 10*n+55)
	_, ok := t.Update(10*n+65, 1)
	vsym.Assert(!ok, "Update reports whether the key was there")
}

// H_C02_deletes: the balance after symbolic deletions.
func H_C02_deletes() {
	c := vsym.Case(vsym.Bound(15, 20))
	n := []int{7, 10, 13, 16}[c/5]
	calls := 0
	t := rbt.New[int, int](func(a, b int) bool { calls++; return a < b })
	build(t, nil, n, c%5)
	check(t, &calls, 20)
	ops := vsym.Bound(2, 4)
	for i := 0; i < ops; i++ {
		k := vsym.Int("k", 1, n) * 10
		if i > 0 && vsym.Pick("op", 0, 3) == 0 {
			k -= 5
			t.Insert(k, 1)
		} else {
			t.Delete(k)
		}
		check(t, &calls, k)
	}
}

// H_C02_drain: deleting from either end and the middle down to nothing.
func H_C02_drain() {
	c := vsym.Case(5)
	n := vsym.Bound(8, 14)
	calls := 0
	t := rbt.New[int, int](func(a, b int) bool { calls++; return a < b })
	build(t, nil, n, c)
	lo, hi := 1, n
	for i := 0; lo <= hi; i++ {
		if vsym.Bool("end") {
			t.Delete(10 * lo)
			lo++
		} else {
			t.Delete(10 * hi)
			hi--
		}
		check(t, &calls, 10*lo)
	}
	vsym.Assert(t.Empty(), "drained tree is empty")
}

// H_C02_inserts: the balance after insertions in every key order.
func H_C02_inserts() {
	n := vsym.Bound(4, 6)
	calls := 0
	t := rbt.New[int, int](func(a, b int) bool { calls++; return a < b })
	for i := 0; i < n; i++ {
		t.Insert(key("k"), i)
	}
	check(t, &calls, key("probe"))
}

// H_C02_ascending: concrete long runs, symbolic probe.
func H_C02_ascending() {
	c := vsym.Case(5)
	n := vsym.Bound(40, 100)
	calls := 0
	t := rbt.New[int, int](func(a, b int) bool { calls++; return a < b })
	build(t, nil, n, c)
	check(t, &calls, vsym.Int("probe", 0, 10*n+10))
}

func check(t *rbt.RbTree[int, int], calls *int, k int) {
	shape(t)
	bound := 0 // floor(2*log2(n+1))
	for sq, lim := (t.Len()+1)*(t.Len()+1), 2; lim <= sq; lim *= 2 {
		bound++
	}
	*calls = 0
	t.Search(k)
	vsym.Assert(*calls <= bound, "a lookup needs at most 2*log2(n+1) comparisons")
	if t.Len() > 0 {
		ks := t.Keys()
		for _, q := range []int{ks[0], ks[len(ks)/2], ks[len(ks)-1]} {
			*calls = 0
			t.Search(q)
			vsym.Assert(*calls <= bound, "a lookup needs at most 2*log2(n+1) comparisons")
		}
	}
}

func subCheck(m *vmodels.AMap, s *rbt.RbTree[int, int], in func(k int) bool) {
	ks := s.Keys()
	vs := s.Values()
	vsym.Assert(len(ks) == s.Len(), "extracted tree lists Len keys")
	n := 0
	for i := range m.K {
		n = vsym.IteI(vsym.And(m.Live[i], in(m.K[i])), n+1, n)
	}
	vsym.Assert(s.Len() == n, "extracted tree has as many pairs as lie in the range")
	for i := range ks {
		v, ok := m.Get(ks[i])
		vsym.Assert(vsym.And(ok, in(ks[i])), "extracted key lies in the range")
		vsym.Assert(vs[i] == v, "extracted value belongs to its key")
		if i > 0 {
			vsym.Assert(ks[i-1] < ks[i], "extracted keys ascending")
		}
	}
}

// H_C03_sub: range extraction, symbolic bounds.
func H_C03_sub() {
	c := vsym.Case(6)
	kind, n := c%3, []int{vsym.Bound(4, 7), vsym.Bound(7, 12)}[c/3]
	t := rbt.New[int, int](less)
	m := &vmodels.AMap{}
	build(t, m, n, 3)
	from, to := vsym.Int("from", 0, 10*n+10), vsym.Int("to", 0, 10*n+10)
	fi, ti := vsym.Bool("fromInclusive"), vsym.Bool("toInclusive")
	var s *rbt.RbTree[int, int]
	switch kind {
	case 0:
		if to < from {
			p, _ := vsym.Panics(func() { t.SubTree(from, fi, to, ti) })
			vsym.Assert(p, "reversed range panics")
			return
		}
		vsym.Assume(vsym.Or(from < to, fi == ti))
		s = t.SubTree(from, fi, to, ti)
		subCheck(m, s, func(k int) bool {
			return vsym.And(vsym.Or(from < k, vsym.And(fi, from == k)), vsym.Or(k < to, vsym.And(ti, to == k)))
		})
	case 1:
		s = t.LeftSubTree(to, ti)
		subCheck(m, s, func(k int) bool { return vsym.Or(k < to, vsym.And(ti, to == k)) })
	case 2:
		s = t.RightSubTree(from, fi)
		subCheck(m, s, func(k int) bool { return vsym.Or(from < k, vsym.And(fi, from == k)) })
	}
	same(t, m)
	// independence
	before := s.Len()
	t.Insert(5, 77)
	t.Delete(10)
	t.Update(20, 78)
	vsym.Assert(s.Len() == before, "extracted tree does not follow the source")
	for _, k := range s.Keys() {
		v, ok := m.Get(k)
		vsym.Assert(vsym.And(ok, s.Get(k) == v), "extracted tree keeps its pairs when the source changes")
	}
	vsym.ObsI("n", before)
}

// H_C03_subsym: symbolic tree content and bounds.
func H_C03_subsym() {
	kind := vsym.Case(3)
	t := rbt.New[int, int](less)
	m := &vmodels.AMap{}
	for i := 0; i < vsym.Bound(3, 4); i++ {
		k := key("k")
		t.Insert(k, i+1)
		m.Put(k, i+1)
	}
	from, to := key("from"), key("to")
	fi, ti := vsym.Bool("fi"), vsym.Bool("ti")
	switch kind {
	case 0:
		vsym.Assume(from < to)
		subCheck(m, t.SubTree(from, fi, to, ti), func(k int) bool {
			return vsym.And(vsym.Or(from < k, vsym.And(fi, from == k)), vsym.Or(k < to, vsym.And(ti, to == k)))
		})
	case 1:
		subCheck(m, t.LeftSubTree(to, ti), func(k int) bool { return vsym.Or(k < to, vsym.And(ti, to == k)) })
	case 2:
		subCheck(m, t.RightSubTree(from, fi), func(k int) bool { return vsym.Or(from < k, vsym.And(fi, from == k)) })
	}
}

// H_C03_getif: an arbitrary predicate over the keys.
func H_C03_getif() {
	n := vsym.Case(vsym.Bound(6, 9))
	t := rbt.New[int, int](less)
	build(t, nil, n, 2)
	pick := make([]bool, n+1)
	for i := 1; i <= n; i++ {
		pick[i] = vsym.Bool("pick")
	}
	asked := 0
	got := t.GetIf(func(k int) bool { asked++; return pick[k/10] })
	j := 0
	for i := 1; i <= n; i++ {
		if pick[i] {
			vsym.Assert(j < len(got), "GetIf returns every satisfying value")
			vsym.Assert(got[j] == i, "GetIf returns the satisfying values in ascending key order")
			j++
		}
	}
	vsym.Assert(j == len(got), "GetIf returns only satisfying values")
	vsym.Assert(asked == n, "GetIf asks about every key once")
}

// H_C01_huge: large trees, one call anywhere.
func H_C01_huge() {
	vsym.Merge(false)
	vsym.Unwind(2000)
	c := vsym.Case(10)
	n := []int{65, 130}[c/5]
	t := rbt.New[int, int](less)
	m := &vmodels.AMap{}
	build(t, m, n, c%5)
	ks := []int{-5, 10, 15, 10 * (n / 2), 10 * n, 10*n + 5}
	k := ks[vsym.Pick("k", 0, len(ks)-1)]
	old, _ := m.Get(k)
	switch vsym.Pick("op", 0, 2) {
	case 0:
		v := int(vsym.I64("v"))
		vsym.Assert(t.Insert(k, v) == old, "Insert returns the value previously stored (zero if new)")
		m.Put(k, v)
	case 1:
		vsym.Assert(t.Delete(k) == old, "Delete returns the removed value (zero if absent)")
		m.Del(k)
	case 2:
		update(t, m, k, int(vsym.I64("v")))
	}
	for i := 1; i <= n; i += 3 {
		old, _ := m.Get(10 * i)
		vsym.Assert(t.Delete(10*i) == old, "Delete returns the removed value (zero if absent)")
		m.Del(10 * i)
	}
	same(t, m)
}
