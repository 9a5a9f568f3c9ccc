package skl

import (
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"github.com/miniLCT/gosb/hack/fastrand"
	"github.com/miniLCT/gosb/verifh/vmodels"
	"github.com/miniLCT/gosb/verifh/vsym"
)

type list = gskiplist.SkipList[int, int]

func key(n string) int { return int(vsym.U8(n)) }

// raw makes every generator output symbolic.
func raw() { fastrand.Uint64 = func() uint64 { return vsym.U64("r") } }

// levels makes the drawn level any of 0..max (the list grows one level at a time).
func levels(max int) {
	fastrand.Uint64 = func() uint64 { return 1<<uint(vsym.Pick("level", 0, max)) | 1<<40 }
}

// some fixed irregular sequence of levels
func fixed(c int) {
	i := c
	fastrand.Uint64 = func() uint64 {
		i = i*5 + 3
		return 1<<uint(i%7%4+i%3%2) | 1<<50
	}
}

func insert(t *list, m *vmodels.AMap, k, v int) {
	t.Insert(k, v)
	m.Put(k, v)
}

func find(t *list, m *vmodels.AMap, k int) {
	v, ok := t.Find(k)
	wv, wok := m.Get(k)
	vsym.Assert(ok == wok, "Find finds exactly the live keys")
	vsym.Assert(v == wv, "Find returns the value last stored (zero if absent)")
}

func counts(t *list, m *vmodels.AMap) {
	n := m.Len()
	vsym.Assert(t.GetNodeCount() == n, "the node count is the number of live keys")
	vsym.Assert(t.IsEmpty() == (n == 0), "IsEmpty agrees")
}

func step(t *list, m *vmodels.AMap, op, k, v int) {
	switch op {
	case 0:
		insert(t, m, k, v)
	case 1:
		t.Delete(k)
		m.Del(k)
	case 2:
		_, had := m.Get(k)
		vsym.Assert(t.ChangeValue(k, v) == had, "ChangeValue reports whether the key is live")
		m.Set(k, v)
	}
}

// H_C04_history: symbolic operations, keys and generator outputs.
func H_C04_history() {
	raw()
	c := vsym.Case(9)
	t := gskiplist.New[int, int]()
	m := &vmodels.AMap{}
	counts(t, m)
	find(t, m, key("p"))
	n := vsym.Bound(3, 4)
	for i := 0; i < n; i++ {
		op := vsym.IteI(i == 0, c%3, vsym.IteI(i == 1, c/3, 0))
		if i > 1 {
			op = vsym.Pick("op", 0, 2)
		}
		step(t, m, op, key("k"), int(vsym.I64("v")))
		counts(t, m)
	}
	find(t, m, key("p"))
}

// content compares every key of the list with the model.
func content(t *list, m *vmodels.AMap) {
	counts(t, m)
	for i := range m.K {
		find(t, m, m.K[i])
	}
}

// H_C04_levels: every level assignment of a fixed insertion order, then symbolic operations.
func H_C04_levels() {
	c := vsym.Case(3 * 4)
	vsym.Merge(false)
	levels(2)
	t := gskiplist.New[int, int]()
	m := &vmodels.AMap{}
	order := [][]int{{30, 10, 20, 40}, {10, 20, 30, 40}, {40, 30, 20, 10}, {20, 40, 10, 30}}[c/3]
	for i, k := range order[:vsym.Bound(3, 4)] {
		insert(t, m, k, i+1)
	}
	step(t, m, c%3, vsym.Pick("k", 1, 9)*5, 100)
	step(t, m, vsym.Pick("op", 0, 1), vsym.Pick("k", 1, vsym.Bound(4, 9))*vsym.Bound(10, 5), 200)
	content(t, m)
	find(t, m, vsym.Int("p", 0, 50))
}

// H_C04_large: longer lists with an irregular level pattern.
func H_C04_large() {
	vsym.Merge(false)
	c := vsym.Case(vsym.Bound(8, 24))
	fixed(c)
	n := []int{12, 20, 33, 50}[c%4]
	t := gskiplist.New[int, int]()
	m := &vmodels.AMap{}
	for i := 0; i < n; i++ {
		insert(t, m, 10*(i*7%n), i)
	}
	k := 5 * vsym.Pick("k", 0, 2*n)
	step(t, m, vsym.Pick("op", 0, 2), k, 100)
	content(t, m)
	find(t, m, k-5)
	find(t, m, k+5)
}

// H_C04_drain: insert many, delete all in another order, use again.
func H_C04_drain() {
	vsym.Merge(false)
	c := vsym.Case(8)
	fixed(c)
	n := 12 - 4*(c%2)
	t := gskiplist.New[int, int]()
	m := &vmodels.AMap{}
	for r := 0; r < 2; r++ {
		for i := 0; i < n; i++ {
			insert(t, m, i*5%n, i)
		}
		lo, hi := 0, n-1
		for lo <= hi {
			k := lo
			if vsym.IteB(c%2 == 0, lo%3 == 0, vsym.Bool("end")) {
				lo++
			} else {
				k = hi
				hi--
			}
			t.Delete(k)
			m.Del(k)
			if c%2 == 0 {
				content(t, m)
			}
		}
		counts(t, m)
		if c%2 == 1 {
			break
		}
	}
	insert(t, m, 3, 7)
	content(t, m)
}

// H_C04_types: other key types; the nil list.
func H_C04_types() {
	raw()
	s := gskiplist.New[string, int]()
	a, b := vsym.Str("a", 2), vsym.Str("b", 2)
	s.Insert(a, 1)
	s.Insert(b, 2)
	vsym.Assert(s.GetNodeCount() == vsym.IteI(a == b, 1, 2), "the node count is the number of live keys")
	v, ok := s.Find(a)
	vsym.Assert(ok, "Find finds a live key")
	vsym.Assert(v == vsym.IteI(a == b, 2, 1), "Find returns the value last stored")
	s.Delete(b)
	_, ok = s.Find(a)
	vsym.Assert(ok == (a != b), "Delete removes exactly the named key")
	var z *list
	_, ok = z.Find(1)
	_, ok2 := z.FindGreaterOrEqual(1)
	z.Delete(1)
	z.Insert(1, 1)
	vsym.Assert(!ok && !ok2, "the nil list holds nothing")
}

// walk checks navigation in both directions against the model.
func walk(t *list, m *vmodels.AMap) {
	n := m.Len()
	if n == 0 {
		vsym.Assert(t.GetSmallestNode() == nil, "the empty list has no smallest node")
		vsym.Assert(t.GetLargestNode() == nil, "the empty list has no largest node")
		return
	}
	n = vsym.Conc(n)
	first := t.GetSmallestNode()
	e := first
	k, strict := -1<<62, false
	vals := make([]int, n)
	for i := 0; i < n; i++ {
		nk, _ := m.Least(k, strict)
		v, _ := m.Get(nk)
		vals[i] = v
		vsym.Assert(e.GetValue() == v, "walking forward visits the live keys in ascending order")
		k, strict = nk, true
		if i == n-1 {
			vsym.Assert(e == t.GetLargestNode(), "the largest node is the last one")
		}
		e = t.Next(e)
		vsym.Assert((e == first) == (i == n-1), "walking forward wraps to the smallest after the last key")
	}
	last := t.GetLargestNode()
	e = last
	for i := n - 1; i >= 0; i-- {
		vsym.Assert(e.GetValue() == vals[i], "walking backward visits the live keys in descending order")
		e = t.Prev(e)
		vsym.Assert((e == last) == (i == 0), "walking backward wraps to the largest after the first key")
	}
}

func fge(t *list, m *vmodels.AMap, k int) {
	e, ok := t.FindGreaterOrEqual(k)
	nk, want := m.Least(k, false)
	vsym.Assert(ok == want, "find-greater-or-equal reports absence exactly when there is no such key")
	if !ok {
		return
	}
	v, _ := m.Get(nk)
	vsym.Assert(e.GetValue() == v, "find-greater-or-equal returns the node with the least key not below the argument")
}

// H_C05_history: symbolic operations, keys and generator outputs.
func H_C05_history() {
	raw()
	c := vsym.Case(3)
	t := gskiplist.New[int, int]()
	m := &vmodels.AMap{}
	n := vsym.Bound(3, 4)
	for i := 0; i < n; i++ {
		op := 0
		if i == 1 {
			op = c
		} else if i > 1 {
			op = vsym.Pick("op", 0, 2)
		}
		step(t, m, op, key("k"), i+1)
	}
	walk(t, m)
	fge(t, m, key("p"))
}

// H_C05_inserts: insertions in every order with every level, then one deletion.
func H_C05_inserts() {
	levels(vsym.Bound(1, 2))
	c := vsym.Case(4)
	t := gskiplist.New[int, int]()
	m := &vmodels.AMap{}
	n := vsym.Bound(3, 4)
	for i := 0; i < n; i++ {
		k := key("k")
		if i == 0 {
			k = c*30 + vsym.Int("k0", 0, 29)
		}
		insert(t, m, k, i+1)
	}
	if vsym.Bool("delete") {
		k := m.K[vsym.Pick("which", 0, n-1)]
		t.Delete(k)
		m.Del(k)
	}
	walk(t, m)
}

// H_C05_levels: as H_C04_levels, looking at navigation.
func H_C05_levels() {
	c := vsym.Case(3 * 4)
	vsym.Merge(false)
	levels(2)
	t := gskiplist.New[int, int]()
	m := &vmodels.AMap{}
	order := [][]int{{30, 10, 20, 40}, {10, 20, 30, 40}, {40, 30, 20, 10}, {20, 40, 10, 30}}[c/3]
	for i, k := range order[:vsym.Bound(3, 4)] {
		insert(t, m, k, i+1)
	}
	step(t, m, c%3, vsym.Pick("k", 1, 9)*5, 100)
	step(t, m, vsym.Pick("op", 0, 1), vsym.Pick("k", 1, vsym.Bound(4, 9))*vsym.Bound(10, 5), 200)
	walk(t, m)
	fge(t, m, vsym.Int("p", 0, 50))
}

// H_C05_large: longer lists with an irregular level pattern.
func H_C05_large() {
	vsym.Merge(false)
	c := vsym.Case(vsym.Bound(8, 24))
	fixed(c)
	n := []int{12, 20, 33, 50}[c%4]
	t := gskiplist.New[int, int]()
	m := &vmodels.AMap{}
	for i := 0; i < n; i++ {
		insert(t, m, 10*(i*7%n), i)
	}
	k := 5 * vsym.Pick("k", 0, 2*n)
	step(t, m, vsym.Pick("op", 0, 2), k, 100)
	walk(t, m)
	for d := -20; d <= 20; d += 5 {
		fge(t, m, k+d)
	}
}

// H_C05_drain: navigation while draining.
func H_C05_drain() {
	vsym.Merge(false)
	c := vsym.Case(8)
	fixed(c)
	n := 12 - 4*(c%2)
	t := gskiplist.New[int, int]()
	m := &vmodels.AMap{}
	for i := 0; i < n; i++ {
		insert(t, m, i*5%n, i)
	}
	lo, hi := 0, n-1
	for lo <= hi {
		k := lo
		if vsym.IteB(c%2 == 0, lo%3 == 0, vsym.Bool("end")) {
			lo++
		} else {
			k = hi
			hi--
		}
		t.Delete(k)
		m.Del(k)
		if c%2 == 0 {
			walk(t, m)
		}
	}
	walk(t, m)
	insert(t, m, 3, 7)
	insert(t, m, 2, 8)
	walk(t, m)
	fge(t, m, 1)
}

// H_C04_huge: long lists, one call anywhere.
func H_C04_huge() {
	vsym.Merge(false)
	vsym.Unwind(2000)
	c := vsym.Case(vsym.Bound(4, 8))
	fixed(c)
	n := []int{130, 260}[c%2]
	t := gskiplist.New[int, int]()
	m := &vmodels.AMap{}
	for i := 0; i < n; i++ {
		insert(t, m, 10*(i*7%n), i)
	}
	ks := []int{-5, 0, 5, 10 * (n / 2), 10*n - 10, 10 * n}
	k := ks[vsym.Pick("k", 0, len(ks)-1)]
	step(t, m, vsym.Pick("op", 0, 2), k, int(vsym.I64("v")))
	counts(t, m)
	find(t, m, k)
	find(t, m, k-5)
	find(t, m, k+10)
	for i := 0; i < n; i += 3 {
		t.Delete(10 * i)
		m.Del(10 * i)
	}
	content(t, m)
}

// tower grows a list to its greatest height, and beyond if it could.
func tower() (*list, *vmodels.AMap) {
	c := vsym.Case(6)
	x := []uint64{0, 1 << 23, 1 << 24, 1 << 25, 1 << 40, 1 << 63}
	n := 0
	fastrand.Uint64 = func() uint64 {
		n++
		if n > 26 && n < 29 {
			return x[vsym.Pick("x", 0, 5)]
		}
		return x[c]
	}
	vsym.Merge(false)
	t := gskiplist.New[int, int]()
	m := &vmodels.AMap{}
	for i := 0; i < 29; i++ {
		insert(t, m, 10*(i*7%29), i)
	}
	return t, m
}

// H_C04_tower: lists of the greatest height.
func H_C04_tower() {
	t, m := tower()
	k := 5 * []int{-1, 0, 1, 2, 28, 30, 31, 54, 56, 57, 58}[vsym.Pick("k", 0, 10)]
	step(t, m, vsym.Pick("op", 0, 1), k, int(vsym.I64("v")))
	content(t, m)
	find(t, m, k-5)
	for i := 28; i > 0; i -= 4 {
		t.Delete(10 * i)
		m.Del(10 * i)
	}
	content(t, m)
}

// H_C05_tower: lists of the greatest height.
func H_C05_tower() {
	t, m := tower()
	k := 5 * []int{-1, 0, 1, 2, 28, 30, 31, 54, 56, 57, 58}[vsym.Pick("k", 0, 10)]
	step(t, m, vsym.Pick("op", 0, 1), k, int(vsym.I64("v")))
	walk(t, m)
	fge(t, m, k)
}
