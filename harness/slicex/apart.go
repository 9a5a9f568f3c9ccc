package slicex

import (
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
	"github.com/miniLCT/gosb/verifh/vapart"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// H_C10_apart: calls one after another and at the same time.
func H_C10_apart() {
	c := vsym.Case(10)
	x := int(vsym.U8("x"))
	in := [][]int{{3, x, 3, 1}, {x, x, 2}, {9, 8, 7, 6, 5, x}}
	vapart.Apart(c%2 == 1, len(in), func(i int) []int {
		switch c / 2 {
		case 0:
			return gslice.Copy(in[i])
		case 1:
			return gslice.Merge(in[i], in[(i+1)%len(in)])
		case 2:
			r, n := gslice.Unique(in[i])
			vsym.Assert(n == len(r), "the count is the number of distinct elements")
			return r
		case 3:
			r, n := gslice.UniqueWithFunc(in[i], func(v int) int { return v / 2 })
			vsym.Assert(n == len(r), "the count is the number of distinct elements")
			return r
		}
		return gslice.Reverse(append([]int(nil), in[i]...))
	}, func(i int, r []int) bool {
		var want []int
		switch c / 2 {
		case 0:
			want = in[i]
		case 1:
			want = append(append(want, in[i]...), in[(i+1)%len(in)]...)
		case 2, 3:
			d := 1
			if c/2 == 3 {
				d = 2
			}
			for _, v := range in[i] {
				if firstIdx(want, func(w int) bool { return w/d == v/d }) < 0 {
					want = append(want, v)
				}
			}
		case 4:
			for k := range in[i] {
				want = append(want, in[i][len(in[i])-1-k])
			}
		}
		return same(r, want)
	})
}
