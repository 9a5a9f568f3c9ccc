package num

import (
	"github.com/miniLCT/gosb/gogenerics/gnumerics"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// H_C13_long: longer collections, one or two elements of any value anywhere.
func H_C13_long() {
	vsym.Merge(false)
	c := vsym.Case(14)
	n := []int{7, 8, 9, 16, 17, 33, 66}[c%7]
	down := c >= 7
	xs := make([]int, n)
	by := make([]rec, n)
	for i := range xs {
		xs[i] = i * 37 % n
		if down {
			xs[i] = n - i/2
		}
	}
	at := 0
	if n < 16 {
		at = vsym.Pick("at", 0, n-1)
	} else {
		at = []int{0, 1, n / 2, n - 2, n - 1}[vsym.Pick("at", 0, 4)]
	}
	xs[at] = int(vsym.I64("x"))
	if b := n - 1 - at; b != at && n < 18 && vsym.Pick("two", 0, 1) == 1 {
		xs[b] = int(vsym.I64("y"))
	}
	for i := range xs {
		by[i] = rec{xs[i], i + 1}
	}
	switch vsym.Pick("fn", 0, 3) {
	case 0:
		m := gnumerics.MaxCollection(xs)
		vsym.Assert(isElem(xs, m), "max is an element")
		for i := range xs {
			vsym.Assert(xs[i] <= m, "no element exceeds max")
		}
	case 1:
		m := gnumerics.MinCollection(xs)
		vsym.Assert(isElem(xs, m), "min is an element")
		for i := range xs {
			vsym.Assert(xs[i] >= m, "no element undercuts min")
		}
	case 2:
		m := gnumerics.MaxBy(by, func(a, b rec) bool { return a.k > b.k })
		first(by, m)
		for i := range xs {
			vsym.Assert(xs[i] <= m.k, "MaxBy not exceeded")
		}
	case 3:
		m := gnumerics.MinBy(by, func(a, b rec) bool { return a.k < b.k })
		first(by, m)
		for i := range xs {
			vsym.Assert(xs[i] >= m.k, "MinBy not undercut")
		}
	}
}

// first: m is the first element with its key.
func first(by []rec, m rec) {
	m.id = vsym.Conc(m.id)
	vsym.Assert(m.id >= 1 && m.id <= len(by) && by[m.id-1].k == m.k, "an element is returned")
	for _, r := range by[:m.id-1] {
		vsym.Assert(r.k != m.k, "the first of equivalents is returned")
	}
}
