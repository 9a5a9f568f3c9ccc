package slicex

import (
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
	"github.com/miniLCT/gosb/hack/fastrand"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// sym returns nil (n<0) or a slice of n symbolic small values with spare
// capacity extra, the spare part filled as well.
func sym(name string, n, extra int) []int {
	if n < 0 {
		return nil
	}
	s := make([]int, n+extra)
	for i := range s {
		s[i] = int(vsym.U8(name))
	}
	return s[:n]
}

func clone(s []int) []int {
	c := make([]int, cap(s))
	for i := range c {
		c[i] = s[:cap(s)][i]
	}
	return c
}

func unchanged(s, before []int) bool {
	ok := cap(s) == len(before)
	for i := 0; i < cap(s) && i < len(before); i++ {
		ok = vsym.And(ok, s[:cap(s)][i] == before[i])
	}
	return ok
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vsym.And(ok, a[i] == b[i])
	}
	return ok
}

// separate: writing anywhere in r (spare capacity included) does not show in s.
func separate(r, s, before []int) bool {
	for i := range r[:cap(r)] {
		r[:cap(r)][i] = -7
	}
	return unchanged(s, before)
}

// H_C10_copy: contents, nil-ness, independence.
func H_C10_copy() {
	n := vsym.Case(vsym.Bound(20, 40)) - 1
	for _, extra := range []int{0, 3} {
		s := sym("v", n, extra)
		before := clone(s)
		c := gslice.Copy(s)
		vsym.Assert((c == nil) == (s == nil), "Copy preserves nil-ness")
		vsym.Assert(same(c, s), "Copy returns the same elements")
		vsym.Assert(unchanged(s, before), "Copy leaves its argument alone")
		vsym.Assert(separate(c, s, before), "Copy shares no memory with its argument")
		vsym.Assert(gslice.Len(s) == len(s), "Len is the length")
	}
}

// H_C10_merge: contents, nil-ness, independence of both arguments.
func H_C10_merge() {
	c := vsym.Case(64)
	n1, e1, n2, e2 := []int{-1, 0, 1, 5}[c%4], 4*(c/4%2), []int{-1, 0, 2, 4}[c/8%4], 3*(c/32)
	a, b := sym("a", n1, e1), sym("b", n2, e2)
	ab, bb := clone(a), clone(b)
	m := gslice.Merge(a, b)
	vsym.Assert(m != nil || (a == nil) != (b == nil), "Merge of two nils is the empty slice")
	vsym.Assert(len(m) == len(a)+len(b), "Merge has all the elements")
	good := true
	for i := range m {
		if i < len(a) {
			good = vsym.And(good, m[i] == ab[i])
		} else {
			good = vsym.And(good, m[i] == bb[i-len(a)])
		}
	}
	vsym.Assert(good, "Merge lists the first argument's elements, then the second's")
	vsym.Assert(vsym.And(unchanged(a, ab), unchanged(b, bb)), "Merge modifies neither argument nor the memory behind it")
	vsym.Assert(vsym.And(separate(m, a, ab), separate(m, b, bb)), "Merge returns a new slice")
}

// H_C10_mergelarge: longer arguments.
func H_C10_mergelarge() {
	n1, n2 := vsym.Case(vsym.Bound(6, 20))*9, 17
	a, b := sym("a", n1, 20), sym("b", n2, 0)
	ab, bb := clone(a), clone(b)
	m := gslice.Merge(a, b)
	vsym.Assert(same(m, append(append([]int{}, ab[:n1]...), bb[:n2]...)), "Merge lists the first argument's elements, then the second's")
	vsym.Assert(vsym.And(separate(m, a, ab), separate(m, b, bb)), "Merge returns a new slice")
}

// H_C10_equal: Equal and EqualWithFunc over every pair of lengths.
func H_C10_equal() {
	c := vsym.Case(vsym.Bound(25, 49))
	k := vsym.Bound(5, 7)
	a, b := sym("a", c/k-1, 1), sym("b", c%k-1, 1)
	want := same(a, b)
	vsym.Assert(gslice.Equal(a, b) == want, "Equal: same length and all elements equal")
	lt := len(a) == len(b)
	for i := 0; i < len(a) && i < len(b); i++ {
		lt = vsym.And(lt, a[i] < b[i])
	}
	ok := true
	got := gslice.EqualWithFunc(a, b, func(x, y int) bool { return x < y })
	ok = got == lt
	vsym.Assert(ok, "EqualWithFunc: same length and the function holds for every pair, first slice first")
}

// H_C10_equallarge: long slices differing in at most one symbolic place.
func H_C10_equallarge() {
	n := []int{8, 16, 17, 33, 64, 100}[vsym.Case(6)]
	a, b := make([]int, n), make([]int, n)
	for i := range a {
		a[i], b[i] = i, i
	}
	p := vsym.Int("place", 0, n-1)
	d := int(vsym.U8("delta"))
	b[p] += d
	vsym.Assert(gslice.Equal(a, b) == (d == 0), "Equal: same length and all elements equal")
	vsym.Assert(gslice.EqualWithFunc(a, b, func(x, y int) bool { return x == y }) == (d == 0), "EqualWithFunc: same length and the function holds for every pair")
}

// H_C10_equaltypes: strings and floats (NaN differs from itself).
func H_C10_equaltypes() {
	n := vsym.Case(4)
	fa, fb := make([]float64, n), make([]float64, n)
	sa, sb := make([]string, n), make([]string, n)
	wf, ws := true, true
	for i := range fa {
		fa[i], fb[i] = vsym.F64("fa"), vsym.F64("fb")
		sa[i], sb[i] = vsym.Str("sa", 2), vsym.Str("sb", 2)
		wf = vsym.And(wf, fa[i] == fb[i])
		ws = vsym.And(ws, sa[i] == sb[i])
	}
	vsym.Assert(gslice.Equal(fa, fb) == wf, "Equal on floats follows ==")
	vsym.Assert(gslice.Equal(sa, sb) == ws, "Equal on strings follows ==")
	self := true
	for _, x := range fa {
		self = vsym.And(self, x == x)
	}
	vsym.Assert(gslice.Equal(fa, fa) == self, "Equal on a slice and itself follows ==")
	if n > 1 {
		part := true
		for i := 1; i < n; i++ {
			part = vsym.And(part, fa[i-1] == fa[i])
		}
		vsym.Assert(gslice.Equal(fa[:n-1], fa[1:]) == part, "Equal on parts of one slice follows ==")
	}
	if n > 0 {
		t := vsym.F64("t")
		i := gslice.Index(fa, t)
		good := true
		for j := range fa {
			good = vsym.And(good, vsym.Implies(j < i || i < 0, fa[j] != t))
			good = vsym.And(good, vsym.Implies(j == i, fa[j] == t))
		}
		vsym.Assert(good, "Index on floats is the first element == target, or -1")
	}
}

func firstIdx(s []int, f func(int) bool) int {
	r := -1
	for i := len(s) - 1; i >= 0; i-- {
		r = vsym.IteI(f(s[i]), i, r)
	}
	return r
}

// H_C10_index: searches.
func H_C10_index() {
	n := vsym.Case(vsym.Bound(9, 16)) - 1
	s := sym("v", n, 2)
	before := clone(s)
	t := int(vsym.U8("t"))
	eq := func(x int) bool { return x == t }
	w := firstIdx(s, eq)
	vsym.Assert(gslice.Index(s, t) == w, "Index gives the first match or -1")
	vsym.Assert(gslice.Contains(s, t) == (w >= 0), "Contains tells whether there is a match")
	gt := func(x int) bool { return x > t }
	w = firstIdx(s, gt)
	vsym.Assert(gslice.IndexWithFunc(s, gt) == w, "IndexWithFunc gives the first match or -1")
	vsym.Assert(gslice.ContainsWithFunc(s, gt) == (w >= 0), "ContainsWithFunc tells whether there is a match")
	vsym.Assert(unchanged(s, before), "searching changes nothing")
}

// H_C10_indexlarge: long slices.
func H_C10_indexlarge() {
	n := []int{16, 17, 33, 64, 65, 100}[vsym.Case(6)]
	s := make([]int, n)
	for i := range s {
		s[i] = i % 50
	}
	t := int(vsym.U8("t"))
	w := firstIdx(s, func(x int) bool { return x == t })
	vsym.Assert(gslice.Index(s, t) == w, "Index gives the first match or -1")
	vsym.Assert(gslice.Contains(s, t) == (w >= 0), "Contains tells whether there is a match")
	w = firstIdx(s, func(x int) bool { return x >= t })
	vsym.Assert(gslice.IndexWithFunc(s, func(x int) bool { return x >= t }) == w, "IndexWithFunc gives the first match or -1")
}

// H_C10_unique: de-duplication.
func H_C10_unique() {
	n := vsym.Case(vsym.Bound(7, 8)) - 1
	s := sym("v", n, 2)
	before := clone(s)
	check := func(u []int, k int, key func(int) int) {
		vsym.Assert(k == len(u), "the count is the length of the result")
		j := 0
		for i := range s {
			first := true
			for q := 0; q < i; q++ {
				first = vsym.And(first, key(s[q]) != key(s[i]))
			}
			if first {
				vsym.Assert(j < len(u), "de-duplication keeps every first occurrence")
				vsym.Assert(u[j] == s[i], "de-duplication keeps first occurrences in order")
				j++
			}
		}
		vsym.Assert(j == len(u), "de-duplication keeps only first occurrences")
		vsym.Assert(u != nil, "the result is a slice, not nil")
		vsym.Assert(unchanged(s, before), "de-duplication leaves its argument alone")
		vsym.Assert(separate(u, s, before), "de-duplication returns a new slice")
	}
	u, k := gslice.Unique(s)
	check(u, k, func(x int) int { return x })
	half := func(x int) int { return x / 128 }
	u, k = gslice.UniqueWithFunc(s, half)
	check(u, k, half)
}

// H_C10_uniquelarge: one symbolic element among many.
func H_C10_uniquelarge() {
	n := []int{9, 16, 17, 33, 65}[vsym.Case(5)]
	s := make([]int, n)
	for i := range s {
		s[i] = i * 3 % (n - 2)
	}
	p := vsym.Pick("place", 0, n-1)
	s[p] = vsym.Pick("value", 0, 70)
	before := clone(s)
	seen := map[int]bool{}
	want := []int{}
	for _, v := range s {
		if !seen[v] {
			seen[v] = true
			want = append(want, v)
		}
	}
	u, k := gslice.Unique(s)
	vsym.Assert(k == len(u) && same(u, want), "de-duplication keeps first occurrences in order")
	u, k = gslice.UniqueWithFunc(s, func(x int) int { return -x })
	vsym.Assert(k == len(u) && same(u, want), "de-duplication keeps first occurrences in order")
	vsym.Assert(separate(u, s, before), "de-duplication returns a new slice")
}

// H_C10_reverse: exact reversal, in place.
func H_C10_reverse() {
	n := vsym.Case(vsym.Bound(40, 80)) - 1
	s := sym("v", n, 2)
	before := clone(s)
	r := gslice.Reverse(s)
	vsym.Assert(len(r) == len(s), "Reverse keeps the length")
	good := true
	for i := range r {
		good = vsym.And(good, r[i] == before[len(s)-1-i])
	}
	for i := len(s); i < cap(s); i++ {
		good = vsym.And(good, s[:cap(s)][i] == before[i])
	}
	vsym.Assert(good, "Reverse is exact and touches nothing beyond the slice")
}

// H_C10_sorted: sortedness tests.
func H_C10_sorted() {
	n := vsym.Case(vsym.Bound(8, 12)) - 1
	s := sym("v", n, 1)
	asc, desc := true, true
	for i := 1; i < len(s); i++ {
		asc = vsym.And(asc, s[i-1] <= s[i])
		desc = vsym.And(desc, s[i-1] >= s[i])
	}
	vsym.Assert(gslice.IsSorted(s) == asc, "IsSorted is ascending order")
	vsym.Assert(gslice.IsSortedFunc(s, func(a, b int) bool { return a > b }) == desc, "IsSortedFunc follows the comparison function")
	if n >= 0 && n < 4 {
		t := make([]string, n)
		ok := true
		for i := range t {
			t[i] = vsym.Str("s", 2)
			if i > 0 {
				ok = vsym.And(ok, t[i-1] <= t[i])
			}
		}
		vsym.Assert(gslice.IsSorted(t) == ok, "IsSorted on strings")
	}
}

// H_C10_sortedlarge: one symbolic element in a long sorted slice.
func H_C10_sortedlarge() {
	n := []int{12, 13, 16, 33, 64, 100}[vsym.Case(6)]
	s := make([]int, n)
	for i := range s {
		s[i] = 2 * i
	}
	p := vsym.Int("place", 0, n-1)
	s[p] = vsym.Int("value", -1, 2*n)
	asc := true
	for i := 1; i < n; i++ {
		asc = vsym.And(asc, s[i-1] <= s[i])
	}
	vsym.Assert(gslice.IsSorted(s) == asc, "IsSorted is ascending order")
	vsym.Assert(gslice.IsSortedFunc(s, func(a, b int) bool { return a < b }) == asc, "IsSortedFunc follows the comparison function")
}

// H_C10_shuffle: a permutation of the input for every draw of the generator.
func H_C10_shuffle() {
	n := vsym.Case(vsym.Bound(6, 7)) - 1
	draws := 0
	fastrand.Uint32 = func() uint32 {
		draws++
		vsym.Assume(draws <= 12)
		return vsym.U32("r")
	}
	fastrand.Uint64 = func() uint64 { return vsym.U64("r64") }
	var s []int
	if n >= 0 {
		s = make([]int, n, n+2)
		for i := range s {
			s[i] = i
		}
		s = append(s, 90, 91)[:n]
	}
	r := gslice.Shuffle(s)
	vsym.Assert(len(r) == len(s), "Shuffle keeps the length")
	for v := 0; v < n; v++ {
		c := 0
		for i := range r {
			c = vsym.IteI(r[i] == v, c+1, c)
		}
		vsym.Assert(c == 1, "Shuffle permutes: every element is there once")
	}
	if n >= 0 {
		vsym.Assert(s[:n+2][n] == 90 && s[:n+2][n+1] == 91, "Shuffle touches nothing beyond the slice")
	}
}
