package unsf

import (
	"github.com/miniLCT/gosb/hack/unsafex"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// H_C52_str: string to slice.
func H_C52_str() {
	n := vsym.Pick("n", 0, vsym.Bound(40, 200))
	off := vsym.Pick("off", 0, 2)
	tail := vsym.Pick("tail", 0, 2)
	w := vsym.Str("s", off+n+tail)
	s := w[off : off+n]
	b := unsafex.StringToSlice(s)
	vsym.Assert(len(b) == n, "the slice has the string's length")
	vsym.Assert(cap(b) == n, "the capacity does not extend past the string")
	ok := true
	for i := range b {
		ok = vsym.And(ok, b[i] == s[i])
	}
	vsym.Assert(ok, "the slice has the string's bytes")
	vsym.Assert(vsym.EqBytes(append([]byte(nil), b...), []byte(s)), "the slice copies as the string")
	t := unsafex.SliceToString(b)
	vsym.Assert(t == s, "round trip gives the string")
	vsym.ObsS("t", t)
}

// H_C52_slice: slice to string.
func H_C52_slice() {
	n := vsym.Pick("n", 0, vsym.Bound(40, 200))
	off := vsym.Pick("off", 0, 2)
	tail := vsym.Pick("tail", 0, 2)
	w := vsym.Bytes("b", off+n+tail)
	w0 := append([]byte(nil), w...)
	b := w[off : off+n]
	if vsym.Bool("clip") {
		b = w[off : off+n : off+n]
	}
	s := unsafex.SliceToString(b)
	vsym.Assert(len(s) == n, "the string has the slice's length")
	vsym.Assert(s == string(b), "the string has the slice's bytes")
	c := unsafex.StringToSlice(s)
	vsym.Assert(vsym.EqBytes(c, b), "round trip gives the bytes")
	vsym.Assert(len(c) == n && cap(c) == n, "round trip length and capacity")
	vsym.Assert(vsym.EqBytes(w, w0), "the source is unchanged")
}

// H_C52_nil: nil and empty inputs.
func H_C52_nil() {
	vsym.Assert(unsafex.SliceToString(nil) == "", "nil slice gives the empty string")
	vsym.Assert(unsafex.SliceToString([]byte{}) == "", "empty slice gives the empty string")
	b := unsafex.StringToSlice("")
	vsym.Assert(len(b) == 0 && cap(b) == 0, "empty string gives an empty slice")
	vsym.Assert(unsafex.SliceToString(b) == "", "and back")
	vsym.Assert(len(unsafex.SliceToString(make([]byte, 0, 8))) == 0, "spare capacity does not show")
}
