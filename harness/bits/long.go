package bits

import (
	"math/bits"

	"github.com/miniLCT/gosb/library/bitset"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// wide builds n bytes of a fixed scattered pattern with unconstrained bytes at
// the ends, in the middle and around the powers of two.
func wide(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*37 + 11)
	}
	for _, i := range []int{0, 7, 8, 31, 32, 63, 64, n / 2, n - 2, n - 1} {
		if i >= 0 && i < n {
			b[i] = vsym.U8(name)
		}
	}
	return b
}

// spots are bit offsets worth addressing in n bytes, as multiples of eight.
func spots(n int) []int {
	return []int{0, 1, 7, 8, 9, 31, 32, 33, 63, 64, n / 2, n - 9, n - 8, n - 2, n - 1}
}

func wideSize(i int) int { return []int{9, 16, 33, 65, 129, 300}[i] }

// H_C28_long: reading, writing, growing and iterating over long sets.
func H_C28_long() {
	vsym.Unwind(5000)
	n := wideSize(vsym.Case(vsym.Bound(5, 6)))
	init := wide("init", n)
	want := append([]byte(nil), init...)
	s := bitset.New(init...)
	sp := spots(n)
	g := sp[vsym.Pick("g", 0, len(sp)-1)]
	if g < 0 || g >= n+n {
		return
	}
	off := 8*g + vsym.Int("b", 0, 7)
	val := vsym.Bool("val")
	neg := vsym.Pick("neg", 0, 1) == 1
	arg := off
	if neg {
		if off >= 8*n {
			return
		}
		arg = off - 8*n
	}
	for len(want) <= g {
		want = append(want, 0)
	}
	mask := byte(0x80) >> uint(off%8)
	old, err := s.Set(arg, val)
	vsym.Assert(err == nil, "a valid offset is accepted")
	vsym.Assert(old == (want[g]&mask != 0), "Set returns the previous bit")
	want[g] = vsym.IteU8(val, want[g]|mask, want[g]&^mask)
	vsym.Assert(vsym.EqBytes(s.Bytes(), want), "exactly the addressed bit changes")
	vsym.Assert(s.Size() == 8*len(want), "size")
	vsym.Assert(s.Get(off) == val, "Get returns the written bit")
	vsym.Assert(s.Get(off-8*len(want)) == val, "Get from the end returns the written bit")
	ok := true
	for _, k := range sp {
		if k >= 0 && k < len(want) {
			for j := 0; j < 8; j++ {
				ok = vsym.And(ok, s.Get(8*k+j) == bit(want, 8*k+j))
			}
		}
	}
	vsym.Assert(ok, "the other bits read what they hold")
	k := 0
	ok = true
	s.Range(func(o int, truth bool) bool {
		ok = vsym.And(ok, vsym.And(o == k, truth == bit(want, k)))
		k++
		return true
	})
	vsym.Assert(vsym.And(ok, k == 8*len(want)), "Range reports each bit in order")
}

// H_C29_longcount: counting over long sets, whole groups and ragged ends.
func H_C29_longcount() {
	n := wideSize(vsym.Case(vsym.Bound(5, 6)))
	init := wide("init", n)
	s := bitset.New(init...)
	sp := spots(n)
	a := sp[vsym.Pick("a", 0, len(sp)-1)]
	e := sp[vsym.Pick("e", 0, len(sp)-1)]
	if a < 0 || a >= n || e < a || e >= n {
		return
	}
	st, en := 8*a+vsym.Pick("sb", 0, 7), 8*e+vsym.Pick("eb", 0, 7)
	want := 0
	for i := a; i <= e; i++ {
		v := init[i]
		if i == a {
			v &= 0xff >> uint(st%8)
		}
		if i == e {
			v &= 0xff << uint(7-en%8)
		}
		want += bits.OnesCount8(v)
	}
	if st > en {
		want = 0
	}
	got := s.Count(st, en)
	vsym.Assert(got == want, "Count is the number of set bits in the range")
	vsym.Assert(s.Count(st-8*n, en-8*n) == want, "and the same from the end")
}

// H_C29_longsub: extracting long ranges.
func H_C29_longsub() {
	n := wideSize(vsym.Case(vsym.Bound(5, 6)))
	init := wide("init", n)
	s := bitset.New(init...)
	sp := spots(n)
	a := sp[vsym.Pick("a", 0, len(sp)-1)]
	e := sp[vsym.Pick("e", 0, len(sp)-1)]
	if a < 0 || a >= n || e < a || e >= n {
		return
	}
	sb, eb := vsym.Pick("sb", 0, 7), vsym.Pick("eb", 0, 2)*3
	st, en := 8*a+sb, 8*e+eb
	sub := s.Sub(st, en)
	k := en - st + 1
	if k < 0 {
		k = 0
	}
	want := make([]byte, (k+7)/8)
	for i := range want {
		v := init[a+i] << uint(sb)
		if a+i+1 < n {
			v |= init[a+i+1] >> uint(8-sb)
		}
		if i == len(want)-1 && k%8 != 0 {
			v &= 0xff << uint(8-k%8)
		}
		want[i] = v
	}
	vsym.Assert(vsym.EqBytes(sub.Bytes(), want), "bit i of the sub-set is bit start+i of the source")
	vsym.Assert(vsym.EqBytes(s.Bytes(), init), "the source is unchanged")
}

// H_C30_long: combining long sets of different sizes.
func H_C30_long() {
	c := vsym.Case(5)
	n := wideSize(vsym.Pick("n", 0, vsym.Bound(4, 5)))
	m := wideSize(vsym.Pick("m", 0, vsym.Bound(4, 5)))
	l := []int{0, 8, m, 70}[vsym.Pick("l", 0, 3)]
	a, b, d := wide("a", n), wide("b", m), wide("d", l)
	ka, kb, kd := append([]byte(nil), a...), append([]byte(nil), b...), append([]byte(nil), d...)
	s, t, u := bitset.New(a...), bitset.New(b...), bitset.New(d...)
	var r *bitset.BitSet
	switch c {
	case 0:
		r = s.And(t, u)
	case 1:
		r = s.Or(t, u)
	case 2:
		r = s.Xor(t, u)
	case 3:
		r = s.AndNot(t, u)
	case 4:
		r = s.Not()
	}
	at := func(b []byte, i int) byte {
		if i < len(b) {
			return b[i]
		}
		return 0
	}
	got := r.Bytes()
	max := n
	if c != 4 && m > max {
		max = m
	}
	if c != 4 && l > max {
		max = l
	}
	vsym.Assert(len(got) <= max, "the result is no longer than the longest operand")
	ok := true
	for i := 0; i < max; i++ {
		x, y, z := at(ka, i), at(kb, i), at(kd, i)
		switch c {
		case 0:
			x &= y & z
		case 1:
			x |= y | z
		case 2:
			x ^= y ^ z
		case 3:
			x = x &^ y &^ z
		case 4:
			x = ^x
		}
		ok = vsym.And(ok, at(got, i) == x)
	}
	vsym.Assert(ok, "the result is the bitwise combination")
	vsym.Assert(vsym.And(vsym.EqBytes(s.Bytes(), ka), vsym.And(vsym.EqBytes(t.Bytes(), kb), vsym.EqBytes(u.Bytes(), kd))), "operands are unchanged")
	s.Clear()
	vsym.Assert(vsym.EqBytes(s.Bytes(), make([]byte, n)), "clearing leaves only zero bits")
	vsym.Assert(len(r.Bytes()) == len(got), "the result stays")
}

// H_C31_long: the textual and byte forms of long sets.
func H_C31_long() {
	n := wideSize(vsym.Case(vsym.Bound(5, 6)))
	a := wide("a", n)
	ka := append([]byte(nil), a...)
	s := bitset.New(a...)
	x := s.String()
	vsym.Assert(len(x) == 2*n, "two digits per byte")
	ok := true
	for i := range ka {
		ok = vsym.And(ok, vsym.And(x[2*i] == hexd[ka[i]>>4], x[2*i+1] == hexd[ka[i]&15]))
	}
	vsym.Assert(ok, "digits are the bytes in hexadecimal")
	r, err := bitset.NewFromHex(x)
	vsym.Assert(err == nil, "the hexadecimal form parses")
	vsym.Assert(vsym.EqBytes(r.Bytes(), ka), "parsing it gives the same bits")
	b := s.Bytes()
	vsym.Assert(vsym.EqBytes(b, ka), "the byte form holds the bits")
	b[n-1]++
	vsym.Assert(vsym.EqBytes(s.Bytes(), ka), "changing the byte form does not affect the set")
}

// H_C31_longbin: the binary form of a long set.
func H_C31_longbin() {
	n := []int{9, 17, 40, 100}[vsym.Case(vsym.Bound(3, 4))]
	a := wide("a", n)
	sep := []string{"", " ", "--"}[vsym.Pick("sep", 0, 2)]
	got := bitset.New(a...).Binary(sep)
	vsym.Assert(len(got) == 8*n+(n-1)*len(sep), "length of the binary form")
	ok, p := true, 0
	for i := 0; i < n; i++ {
		if i > 0 {
			ok = vsym.And(ok, got[p:p+len(sep)] == sep)
			p += len(sep)
		}
		for j := 0; j < 8; j++ {
			ok = vsym.And(ok, got[p] == vsym.IteU8(bit(a, 8*i+j), '1', '0'))
			p++
		}
	}
	vsym.Assert(ok, "each byte's bits, most significant first, with the separator between")
}
