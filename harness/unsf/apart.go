package unsf

import (
	"github.com/miniLCT/gosb/hack/unsafex"
	"github.com/miniLCT/gosb/verifh/vapart"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// H_C52_apart: conversions one after another and at the same time.
func H_C52_apart() {
	c := vsym.Case(4)
	b := vsym.Bytes("b", 5)
	in := []string{string(b), "fixed", "", string(b[:2])}
	if c < 2 {
		vapart.Apart(c == 1, len(in), func(i int) []byte { return unsafex.StringToSlice(in[i]) },
			func(i int, r []byte) bool { return len(r) == len(in[i]) && vsym.EqBytes(r, []byte(in[i])) })
		return
	}
	bs := [][]byte{b, []byte("fixed"), nil, b[:2]}
	vapart.Apart(c == 3, len(in), func(i int) string { return unsafex.SliceToString(bs[i]) },
		func(i int, r string) bool { return r == in[i] })
}
