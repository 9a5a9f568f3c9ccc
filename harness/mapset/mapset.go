package mapset

import (
	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gmap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gset"
	"github.com/miniLCT/gosb/verifh/vmodels"
	"github.com/miniLCT/gosb/verifh/vsym"
)

func key(n string) int { return int(vsym.U8(n)) }

// build returns a map of n symbolic pairs (later pairs win) and its model.
func build(name string, n int) (map[int]int, *vmodels.AMap) {
	m, a := map[int]int{}, &vmodels.AMap{}
	for i := 0; i < n; i++ {
		k, v := key(name+"k"), key(name+"v")
		m[k] = v
		a.Put(k, v)
	}
	return m, a
}

func big(n int) (map[int]int, *vmodels.AMap) {
	m, a := map[int]int{}, &vmodels.AMap{}
	for i := 0; i < n; i++ {
		m[7*i] = i / 2
		a.Put(7*i, i/2)
	}
	return m, a
}

func agrees(m map[int]int, a *vmodels.AMap) bool {
	ok := len(m) == a.Len()
	for i := range a.K {
		v, in := m[a.K[i]]
		ok = vsym.And(ok, vsym.Implies(a.Live[i], vsym.And(in, v == a.V[i])))
	}
	return ok
}

func listing(m map[int]int, a *vmodels.AMap) {
	n := a.Len()
	ks, vs, es := gmap.Keys(m), gmap.Values(m), gmap.Map2Entries(m)
	vsym.Assert(vsym.And(len(ks) == n, vsym.And(len(vs) == n, len(es) == n)), "Keys, Values and entries have one item per pair")
	vsym.Assert(gmap.Len(m) == n, "Len counts the pairs")
	good := true
	for i := range ks {
		good = vsym.And(good, ok2(a.Get(ks[i])))
		for j := 0; j < i; j++ {
			good = vsym.And(good, ks[i] != ks[j])
		}
	}
	vsym.Assert(good, "Keys lists every key once")
	good = true
	for i := range es {
		v, ok := a.Get(es[i].Key)
		good = vsym.And(good, vsym.And(ok, v == es[i].Value))
		for j := 0; j < i; j++ {
			good = vsym.And(good, es[i].Key != es[j].Key)
		}
	}
	vsym.Assert(good, "entries list every pair once")
	good = true
	for i := range vs {
		c, w := 0, 0
		for j := range vs {
			c = vsym.IteI(vs[j] == vs[i], c+1, c)
		}
		for j := range a.K {
			w = vsym.IteI(vsym.And(a.Live[j], a.V[j] == vs[i]), w+1, w)
		}
		good = vsym.And(good, c == w)
	}
	vsym.Assert(good, "Values lists the value of every pair once")
	vsym.Assert(agrees(m, a), "listing leaves the map alone")
	vsym.Assert(agrees(gmap.Entries2Map(es), a), "the entries make the same map again")
}

func ok2(_ int, ok bool) bool { return ok }

// H_C11_list: listings, length and membership.
func H_C11_list() {
	n := vsym.Case(vsym.Bound(5, 6))
	m, a := build("", n)
	listing(m, a)
	p := key("p")
	_, want := a.Get(p)
	vsym.Assert(gmap.Contains(m, p) == want, "Contains tells whether the key is there")
	if n == 0 {
		var z map[int]int
		listing(z, a)
		vsym.Assert(!gmap.Contains(z, p), "nil map contains nothing")
	}
}

// H_C11_listlarge: larger maps, map iteration in any order of the real map.
func H_C11_listlarge() {
	m, a := big([]int{8, 9, 20, 33}[vsym.Case(4)])
	listing(m, a)
}

// H_C11_order: listings under every iteration order.
func H_C11_order() {
	vsym.MapOrder(true)
	m, a := big(vsym.Case(4))
	listing(m, a)
}

// H_C11_copy: equal to the original and independent of it.
func H_C11_copy() {
	n := vsym.Case(6)
	var m map[int]int
	a := &vmodels.AMap{}
	switch {
	case n < 4:
		m, a = build("", n)
	case n == 4:
		m, a = big(40)
	}
	c := gmap.Copy(m)
	vsym.Assert(vsym.And(c != nil, agrees(c, a)), "Copy has the same pairs")
	k := key("w")
	c[k] = 1000
	delete(c, 7)
	vsym.Assert(agrees(m, a), "changing the copy leaves the original alone")
	if m != nil {
		c = gmap.Copy(m)
		m[k] = 1001
		delete(m, 7)
		vsym.Assert(agrees(c, a), "changing the original leaves the copy alone")
	}
}

// H_C11_entries: the last value per key wins.
func H_C11_entries() {
	n := vsym.Case(vsym.Bound(6, 7))
	es := make([]gconstraints.Entry[int, int], n)
	a := &vmodels.AMap{}
	for i := range es {
		es[i].Key, es[i].Value = key("k"), key("v")
		a.Put(es[i].Key, es[i].Value)
	}
	m := gmap.Entries2Map(es)
	vsym.Assert(vsym.And(m != nil, agrees(m, a)), "Entries2Map keeps the last value per key")
}

func wantEq(a, b *vmodels.AMap, eq func(x, y int) bool) bool {
	w := a.Len() == b.Len()
	for i := range a.K {
		v, ok := b.Get(a.K[i])
		w = vsym.And(w, vsym.Implies(a.Live[i], vsym.And(ok, eq(a.V[i], v))))
	}
	return w
}

// H_C11_equal: equality and function equality of any two maps.
func H_C11_equal() {
	c := vsym.Case(vsym.Bound(16, 25))
	k := vsym.Bound(4, 5)
	m1, a1 := build("1", c/k)
	m2, a2 := build("2", c%k)
	vsym.Assert(gmap.Equal(m1, m2) == wantEq(a1, a2, func(x, y int) bool { return x == y }), "Equal: same key set and equal values")
	lt := func(x, y int) bool { return x < y }
	vsym.Assert(gmap.EqualWithFunc(m1, m2, lt) == wantEq(a1, a2, lt), "EqualWithFunc: same key set and the function holds per key, first map first")
	vsym.Assert(vsym.And(agrees(m1, a1), agrees(m2, a2)), "comparing changes nothing")
}

// H_C11_equallarge: large maps that differ in at most one pair.
func H_C11_equallarge() {
	n := []int{9, 17, 40}[vsym.Case(3)]
	m1, a1 := big(n)
	m2, a2 := big(n)
	i := vsym.Pick("i", 0, n-1)
	switch vsym.Pick("how", 0, 3) {
	case 0:
		v := key("v")
		m2[7*i] = v
		a2.Put(7*i, v)
	case 1:
		delete(m2, 7*i)
		a2.Del(7 * i)
	case 2:
		delete(m2, 7*i)
		a2.Del(7 * i)
		m2[1] = i / 2
		a2.Put(1, i/2)
	case 3:
		delete(m1, 7*i)
		a1.Del(7 * i)
	}
	eq := func(x, y int) bool { return x == y }
	w := wantEq(a1, a2, eq)
	vsym.Assert(gmap.Equal(m1, m2) == w, "Equal: same key set and equal values")
	vsym.Assert(gmap.EqualWithFunc(m1, m2, eq) == w, "EqualWithFunc: same key set and the function holds per key")
	vsym.Assert(gmap.Equal(m2, m1) == w, "Equal: same key set and equal values")
}

// H_C11_equalnil: nil against empty, float and string values.
func H_C11_equalnil() {
	var z map[string]float64
	vsym.Assert(gmap.Equal(z, map[string]float64{}), "nil and empty maps are equal")
	vsym.Assert(gmap.Equal(z, z), "nil maps are equal")
	k1, k2 := vsym.Str("k1", 2), vsym.Str("k2", 2)
	f, g := vsym.F64("f"), vsym.F64("g")
	m1, m2 := map[string]float64{k1: f}, map[string]float64{k2: g}
	vsym.Assert(gmap.Equal(m1, m2) == vsym.And(k1 == k2, f == g), "Equal: same key set and equal values")
	vsym.Assert(!gmap.Equal(m1, z), "a map with a pair differs from the empty map")
	vsym.Assert(gmap.EqualWithFunc(m1, map[string]int{k2: 1}, func(float64, int) bool { return true }) == (k1 == k2), "EqualWithFunc: same key set")
}

// H_C11_clear: clearing leaves the map empty.
func H_C11_clear() {
	n := vsym.Case(6)
	var m map[int]int
	switch {
	case n < 4:
		m, _ = build("", n)
	case n == 4:
		m, _ = big(40)
	}
	alias := m
	gmap.Clear(m)
	vsym.Assert(len(m) == 0 && len(alias) == 0 && gmap.Len(m) == 0, "Clear leaves the map empty")
	if m != nil {
		k := key("k")
		vsym.Assert(!gmap.Contains(m, k), "a cleared map contains nothing")
		m[k] = 3
		vsym.Assert(gmap.Len(m) == 1 && m[k] == 3, "a cleared map can be used again")
	}
}

func setAgrees(s gset.Set[int], a *vmodels.AMap) {
	n := a.Len()
	vsym.Assert(gset.Len(s) == n, "Len is the number of members")
	it := gset.Items(s)
	vsym.Assert(len(it) == n, "Items has one entry per member")
	good := true
	for i := range it {
		good = vsym.And(good, ok2(a.Get(it[i])))
		for j := 0; j < i; j++ {
			good = vsym.And(good, it[i] != it[j])
		}
	}
	vsym.Assert(good, "Items lists each member once")
	vsym.Assert(gset.Len(s) == n, "listing leaves the set alone")
}

func setStep(s gset.Set[int], a *vmodels.AMap, op, k int) {
	switch op {
	case 0:
		vsym.Assert(gset.Add(s, k), "Add returns true")
		a.Put(k, 1)
	case 1:
		vsym.Assert(gset.Remove(s, k), "Remove returns true")
		a.Del(k)
	case 2:
		gset.Clear(s)
		a.Clear()
	}
}

// H_C12_history: any history of additions, removals and clears.
func H_C12_history() {
	c := vsym.Case(6)
	var s gset.Set[int]
	if c < 3 {
		s = gset.NewSet[int]()
	} else {
		s = gset.NewSetWithSize[int](vsym.Pick("size", 0, 3))
	}
	a := &vmodels.AMap{}
	setAgrees(s, a)
	n := vsym.Bound(4, 5)
	for i := 0; i < n; i++ {
		op := c % 3
		if i > 0 {
			op = vsym.Pick("op", 0, 2)
		}
		setStep(s, a, op, key("k"))
		p := key("p")
		_, w := a.Get(p)
		vsym.Assert(gset.Contains(s, p) == w, "Contains agrees with the mathematical set")
	}
	setAgrees(s, a)
}

// H_C12_large: symbolic changes to larger sets.
func H_C12_large() {
	n := []int{7, 8, 9, 17, 40, 100}[vsym.Case(vsym.Bound(5, 6))]
	s, a := gset.NewSet[int](), &vmodels.AMap{}
	for i := 0; i < n; i++ {
		setStep(s, a, 0, 3*i)
	}
	k := vsym.Pick("k", 0, 3*n)
	setStep(s, a, vsym.Pick("op", 0, 2), k)
	setStep(s, a, vsym.Pick("op", 0, 1), k/2)
	setAgrees(s, a)
	p := 3 * vsym.Pick("p", 0, 4)
	_, w := a.Get(p)
	vsym.Assert(gset.Contains(s, p) == w, "Contains agrees with the mathematical set")
}

// H_C12_order: listing and clearing under every iteration order.
func H_C12_order() {
	vsym.MapOrder(true)
	n := vsym.Case(5)
	s, a := gset.NewSet[int](), &vmodels.AMap{}
	for i := 0; i < n; i++ {
		setStep(s, a, 0, 3*i)
	}
	if n < 4 {
		setAgrees(s, a)
	}
	gset.Clear(s)
	a.Clear()
	setAgrees(s, a)
}

// H_C12_strings: string members.
func H_C12_strings() {
	s := gset.NewSet[string]()
	x, y, p := vsym.Str("x", 2), vsym.Str("y", vsym.Pick("n", 0, 2)), vsym.Str("p", 2)
	gset.Add(s, x)
	gset.Add(s, y)
	vsym.Assert(gset.Len(s) == vsym.IteI(x == y, 1, 2), "Len is the number of members")
	gset.Remove(s, y)
	vsym.Assert(gset.Contains(s, p) == vsym.And(p == x, x != y), "removing leaves exactly the other members")
}
