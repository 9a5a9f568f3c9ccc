package num

import (
	"github.com/miniLCT/gosb/gogenerics/gnumerics"
	"github.com/miniLCT/gosb/verifh/vsym"
)

func isElem[T comparable](xs []T, v T) bool {
	r := false
	for _, x := range xs {
		r = vsym.Or(r, x == v)
	}
	return r
}

func ints(n int) []int {
	xs := make([]int, n)
	for i := range xs {
		xs[i] = int(vsym.I64("x"))
	}
	return xs
}

// H_C13_int: Max/Min/MaxCollection/MinCollection over int.
func H_C13_int() {
	n := vsym.Pick("n", 0, vsym.Bound(6, 12))
	xs := ints(n)
	orig := append([]int(nil), xs...)
	mx, mn := gnumerics.MaxCollection(xs), gnumerics.MinCollection(xs)
	if n == 0 {
		vsym.Assert(mx == 0, "max of empty collection is zero")
		vsym.Assert(mn == 0, "min of empty collection is zero")
		vsym.Assert(gnumerics.MaxCollection[int](nil) == 0, "max of nil collection is zero")
		vsym.Assert(gnumerics.MinCollection[int](nil) == 0, "min of nil collection is zero")
		return
	}
	vsym.Assert(isElem(xs, mx), "max is an element")
	vsym.Assert(isElem(xs, mn), "min is an element")
	for i := range xs {
		vsym.Assert(xs[i] <= mx, "no element exceeds max")
		vsym.Assert(xs[i] >= mn, "no element undercuts min")
		vsym.Assert(xs[i] == orig[i], "collection unchanged")
	}
	vsym.ObsI("max", mx)
	vsym.ObsI("min", mn)
}

func two[T int8 | uint8 | int32 | uint64 | float64 | float32 | string](a, b T, what string) {
	m, k := gnumerics.Max(a, b), gnumerics.Min(a, b)
	vsym.Assert(vsym.Or(m == a, m == b), what+" max is an argument")
	vsym.Assert(vsym.Or(k == a, k == b), what+" min is an argument")
	vsym.Assert(vsym.And(m >= a, m >= b), what+" max not exceeded")
	vsym.Assert(vsym.And(k <= a, k <= b), what+" min not undercut")
}

func coll[T int8 | uint8 | int32 | uint64 | float64 | float32 | string](xs []T, what string) {
	m, k := gnumerics.MaxCollection(xs), gnumerics.MinCollection(xs)
	vsym.Assert(isElem(xs, m), what+" max is an element")
	vsym.Assert(isElem(xs, k), what+" min is an element")
	for i := range xs {
		vsym.Assert(xs[i] <= m, what+" no element exceeds max")
		vsym.Assert(xs[i] >= k, what+" no element undercuts min")
	}
}

func H_C13_types() {
	switch vsym.Case(7) {
	case 0:
		two(vsym.I8("a"), vsym.I8("b"), "int8")
		coll([]int8{vsym.I8("a"), vsym.I8("b"), vsym.I8("c")}, "int8")
	case 1:
		two(vsym.U8("a"), vsym.U8("b"), "uint8")
		coll([]uint8{vsym.U8("a"), vsym.U8("b"), vsym.U8("c")}, "uint8")
	case 2:
		two(vsym.I32("a"), vsym.I32("b"), "int32")
		coll([]int32{vsym.I32("a"), vsym.I32("b"), vsym.I32("c")}, "int32")
	case 3:
		two(vsym.U64("a"), vsym.U64("b"), "uint64")
		coll([]uint64{vsym.U64("a"), vsym.U64("b"), vsym.U64("c")}, "uint64")
	case 4:
		xs := []float64{vsym.F64("a"), vsym.F64("b"), vsym.F64("c")}
		for _, x := range xs {
			vsym.Assume(x == x)
		}
		two(xs[0], xs[1], "float64")
		coll(xs, "float64")
	case 5:
		xs := []float32{vsym.F32("a"), vsym.F32("b"), vsym.F32("c")}
		for _, x := range xs {
			vsym.Assume(x == x)
		}
		two(xs[0], xs[1], "float32")
		coll(xs, "float32")
	case 6:
		n := vsym.Pick("n", 1, 3)
		xs := make([]string, n)
		for i := range xs {
			xs[i] = vsym.Str("s", vsym.Pick("len", 0, vsym.Bound(2, 3)))
		}
		two(xs[0], xs[n-1], "string")
		coll(xs, "string")
	}
}

type rec struct{ k, id int }

// H_C13_by: comparator forms return the first of equivalent extrema.
func H_C13_by() {
	n := vsym.Pick("n", 0, vsym.Bound(5, 10))
	xs := make([]rec, n)
	for i := range xs {
		xs[i] = rec{int(vsym.I64("k")), i + 1}
	}
	mx := gnumerics.MaxBy(xs, func(a, b rec) bool { return a.k > b.k })
	mn := gnumerics.MinBy(xs, func(a, b rec) bool { return a.k < b.k })
	if n == 0 {
		vsym.Assert(mx == rec{}, "MaxBy of empty is zero")
		vsym.Assert(mn == rec{}, "MinBy of empty is zero")
		return
	}
	fmax, fmin := false, false
	for i, x := range xs {
		vsym.Assert(x.k <= mx.k, "MaxBy not exceeded")
		vsym.Assert(x.k >= mn.k, "MinBy not undercut")
		vsym.Assert(vsym.Implies(x.k == mx.k, mx.id <= i+1), "MaxBy returns the first of equivalents")
		vsym.Assert(vsym.Implies(x.k == mn.k, mn.id <= i+1), "MinBy returns the first of equivalents")
		fmax = vsym.Or(fmax, vsym.And(x.k == mx.k, mx.id == i+1))
		fmin = vsym.Or(fmin, vsym.And(x.k == mn.k, mn.id == i+1))
	}
	vsym.Assert(fmax, "MaxBy returns an element")
	vsym.Assert(fmin, "MinBy returns an element")
	vsym.ObsI("maxid", mx.id)
}
