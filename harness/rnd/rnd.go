package rnd

import (
	"strconv"

	"github.com/miniLCT/gosb/hack/fastrand"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// source replaces the generator: the first sym draws (of either width) are
// unconstrained, later ones follow a fixed scattered sequence, which any
// rejection sampling must accept soon.
func source(sym int) {
	k := 0
	next := func() (uint64, bool) {
		k++
		if k <= sym {
			return 0, true
		}
		if k == sym+1 {
			return 0xffffffff << 32, false // suits multiply-shift and remainder
		}
		vsym.Assert(k <= sym+100, "rejection sampling stops when the generator yields scattered values")
		z := uint64(k) * 0x9e3779b97f4a7c15
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		return z ^ z>>31, false
	}
	fastrand.Uint32 = func() uint32 {
		z, s := next()
		if s {
			return vsym.U32("r32")
		}
		return uint32(z >> 32)
	}
	fastrand.Uint64 = func() uint64 {
		z, s := next()
		if s {
			return vsym.U64("r64")
		}
		if k == sym+1 {
			return 0
		}
		return z
	}
	fastrand.Uint = func() uint { return uint(fastrand.Uint64()) }
}

// H_C49_unbounded: the unbounded integer draws.
func H_C49_unbounded() {
	source(2)
	switch vsym.Case(5) {
	case 0:
		v := fastrand.Int()
		vsym.Assert(v >= 0, "Int is non-negative")
		vsym.ObsI("v", v)
	case 1:
		v := fastrand.Int31()
		vsym.Assert(v >= 0, "Int31 is non-negative")
	case 2:
		v := fastrand.Int63()
		vsym.Assert(v >= 0, "Int63 is non-negative")
	case 3:
		v := fastrand.Float64()
		vsym.Assert(vsym.And(v >= 0, v < 1), "Float64 is in [0,1)")
	case 4:
		// the rejection zone of 2^24 is empty, one draw suffices
		v := fastrand.Float32()
		vsym.Assert(vsym.And(v >= 0, v < 1), "Float32 is in [0,1)")
	}
}

// H_C49_int31n: Int31n for every positive bound.
func H_C49_int31n() {
	var n int32
	if vsym.Case(3) == 0 {
		n = vsym.I32("n")
		vsym.Assume(n > 0)
	} else if vsym.Case(3) == 1 {
		n = int32(1) << uint(vsym.Pick("sh", 0, 30))
	} else {
		n = int32(vsym.Pick("n", 1, vsym.Bound(40, 400)))
	}
	source(2)
	v := fastrand.Int31n(n)
	vsym.Assert(vsym.And(v >= 0, v < n), "Int31n in [0,n)")
	vsym.ObsI("v", int(v))
}

// H_C49_int63n: Int63n for every positive bound.
func H_C49_int63n() {
	source(2)
	var n int64
	switch vsym.Case(3) {
	case 0: // narrow symbolic bound
		n = int64(vsym.U8("n8")) + 1
	case 1:
		n = int64(1) << uint(vsym.Pick("sh", 0, 62))
	case 2: // wide bounds
		w := []int64{3, 1<<31 + 1, 1<<53 - 1, 1<<62 + 1, 1<<63 - 1, 1 << 32, 1e18}
		n = w[vsym.Pick("w", 0, len(w)-1)]
	}
	v := fastrand.Int63n(n)
	vsym.Assert(vsym.And(v >= 0, v < n), "Int63n in [0,n)")
	vsym.ObsI("v", int(v))
}

// H_C49_intn: Intn across the 31-bit switch.
func H_C49_intn() {
	source(1)
	w := []int{1, 2, 3, 7, 10, 1 << 16, 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 5, 1<<40 + 3, 1 << 62, 1<<63 - 1}
	n := w[vsym.Pick("w", 0, len(w)-1)]
	v := fastrand.Intn(n)
	vsym.Assert(vsym.And(v >= 0, v < n), "Intn in [0,n)")
	vsym.ObsI("v", v)
}

// H_C49_unsigned: the unsigned bounded draws.
func H_C49_unsigned() {
	source(2)
	switch vsym.Case(4) {
	case 0:
		n := vsym.U32("n")
		vsym.Assume(n > 0)
		v := fastrand.Uint32n(n)
		vsym.Assert(v < n, "Uint32n in [0,n)")
	case 1:
		w := []uint64{1, 2, 3, 10, 255, 1 << 32, 1<<32 + 1, 1 << 63, 1<<63 + 1, 1<<64 - 1}
		n := w[vsym.Pick("w", 0, len(w)-1)]
		v := fastrand.Uint64n(n)
		vsym.Assert(v < n, "Uint64n in [0,n)")
	case 2:
		w := []uint{1, 2, 3, 10, 255, 1 << 32, 1<<32 + 1, 1 << 63, 1<<63 + 1, 1<<64 - 1}
		n := w[vsym.Pick("w", 0, len(w)-1)]
		v := fastrand.Uintn(n)
		vsym.Assert(v < n, "Uintn in [0,n)")
	case 3:
		n := uint64(vsym.U8("n8")) + 1
		v := fastrand.Uint64n(n)
		vsym.Assert(v < n, "Uint64n in [0,n)")
	}
}

// H_C49_panics: non-positive bounds are refused.
func H_C49_panics() {
	source(2)
	p := false
	switch vsym.Case(4) {
	case 0:
		n := vsym.I32("n")
		vsym.Assume(n <= 0)
		p, _ = vsym.Panics(func() { fastrand.Int31n(n) })
	case 1:
		n := vsym.I64("n")
		vsym.Assume(n <= 0)
		p, _ = vsym.Panics(func() { fastrand.Int63n(n) })
	case 2:
		n := int(vsym.I64("n"))
		vsym.Assume(n <= 0)
		p, _ = vsym.Panics(func() { fastrand.Intn(n) })
	case 3:
		n := int(vsym.I64("n"))
		vsym.Assume(n < 0)
		p, _ = vsym.Panics(func() { fastrand.Shuffle(n, func(i, j int) {}) })
	}
	vsym.Assert(p, "a non-positive bound panics")
}

// H_C49_reach: every value of a small range can come out, and the unbounded
// draws use their whole width.
func H_C49_reach() {
	source(1)
	c := vsym.Case(7 * 5)
	n := []int{1, 2, 3, 6, 7, 8, 11}[c%7]
	var v uint64
	tag := []string{"Int31n", "Int63n", "Intn", "Uint32n", "Uint64n"}[c/7] + " " + strconv.Itoa(n) + " "
	switch c / 7 {
	case 0:
		v = uint64(fastrand.Int31n(int32(n)))
	case 1:
		v = uint64(fastrand.Int63n(int64(n)))
	case 2:
		v = uint64(fastrand.Intn(n))
	case 3:
		v = uint64(fastrand.Uint32n(uint32(n)))
	case 4:
		v = fastrand.Uint64n(uint64(n))
	}
	for i := 0; i < n; i++ {
		vsym.Need(tag + strconv.Itoa(i))
	}
	vsym.Reach(tag + strconv.Itoa(vsym.Conc(int(v))))
}

// H_C49_width: the highest and the lowest bit vary.
func H_C49_width() {
	source(2)
	var v uint64
	top := 62
	c := vsym.Case(4)
	tag := []string{"Int ", "Int31 ", "Int63 ", "Int63n "}[c]
	switch c {
	case 0:
		v = uint64(fastrand.Int())
	case 1:
		v, top = uint64(fastrand.Int31()), 30
	case 2:
		v = uint64(fastrand.Int63())
	case 3:
		v = uint64(fastrand.Int63n(1 << 62))
		top = 61
	}
	for i := 0; i < 4; i++ {
		vsym.Need(tag + strconv.Itoa(i))
	}
	vsym.Reach(tag + strconv.Itoa(vsym.Conc(int(v>>top&1*2+v&1))))
}

// H_C49_half: both halves of [0,1) can come out.
func H_C49_half() {
	source(2)
	var hi bool
	tag := "Float64 "
	if vsym.Case(2) == 0 {
		hi = fastrand.Float64() >= 0.5
	} else {
		tag = "Float32 "
		hi = fastrand.Float32() >= 0.5
	}
	vsym.Need(tag + "low")
	vsym.Need(tag + "high")
	if hi {
		vsym.Reach(tag + "high")
	} else {
		vsym.Reach(tag + "low")
	}
}

func isPerm(p []int) bool {
	r := true
	for i := range p {
		in := vsym.And(p[i] >= 0, p[i] < len(p))
		r = vsym.And(r, in)
		for j := 0; j < i; j++ {
			r = vsym.And(r, p[i] != p[j])
		}
	}
	return r
}

// H_C50_perm: Perm is a permutation for every sequence of draws.
func H_C50_perm() {
	n := vsym.Case(vsym.Bound(5, 6))
	source(n)
	p := fastrand.Perm(n)
	vsym.Assert(len(p) == n, "Perm has the requested length")
	vsym.Assert(isPerm(p), "Perm is a permutation of 0..n-1")
	if n > 0 {
		vsym.ObsI("p0", p[0])
	}
}

// H_C50_shuffle: Shuffle swaps valid positions only.
func H_C50_shuffle() {
	n := vsym.Case(vsym.Bound(5, 6))
	source(n)
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	fastrand.Shuffle(n, func(i, j int) {
		vsym.Assert(vsym.And(vsym.And(i >= 0, i < n), vsym.And(j >= 0, j < n)), "swap gets valid indices")
		s[i], s[j] = s[j], s[i]
	})
	vsym.Assert(isPerm(s), "Shuffle preserves the elements")
}

// H_C50_larger: permutations of more elements, one draw of any value.
func H_C50_larger() {
	vsym.Merge(false)
	c := vsym.Case(8)
	n := []int{8, 9, 17, 34}[c%4]
	at := []int{1, 2, n / 2, n - 1, n}[vsym.Pick("at", 0, 4)]
	k, z := 0, uint64(7)
	draw := func() uint64 {
		k++
		if k == at {
			return vsym.U64("draw")
		}
		z = z*6364136223846793005 + 1442695040888963407
		return z ^ z>>29
	}
	fastrand.Uint64 = draw
	fastrand.Uint32 = func() uint32 { return uint32(draw() >> 32) }
	fastrand.Uint = func() uint { return uint(draw()) }
	if c >= 4 {
		p := fastrand.Perm(n)
		vsym.Assert(len(p) == n, "Perm has the requested length")
		vsym.Assert(isPerm(p), "Perm is a permutation of 0..n-1")
		return
	}
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	fastrand.Shuffle(n, func(i, j int) {
		vsym.Assert(vsym.And(vsym.And(i >= 0, i < n), vsym.And(j >= 0, j < n)), "swap gets valid indices")
		s[i], s[j] = s[j], s[i]
	})
	vsym.Assert(isPerm(s), "Shuffle preserves the elements")
}

type stop struct{}

// H_C50_huge: the first swaps of a shuffle of a huge range are valid.
func H_C50_huge() {
	n := int(vsym.I64("n"))
	vsym.Assume(vsym.And(n > 1<<30, n < 1<<33))
	vsym.Assume(vsym.Or(n <= 1<<30+2, vsym.And(n >= 1<<31-1, n <= 1<<31+2)))
	n = vsym.Conc(n)
	source(2)
	c := 0
	vsym.Need("the first swap keeps the last element")
	vsym.Need("the first swap moves the first element")
	vsym.Panics(func() {
		fastrand.Shuffle(n, func(i, j int) {
			if c == 0 && n == 1<<31 {
				switch {
				case j == i:
					vsym.Reach("the first swap keeps the last element")
				case j == 0:
					vsym.Reach("the first swap moves the first element")
				}
			}
			vsym.Assert(vsym.And(vsym.And(i >= 0, i < n), vsym.And(j >= 0, j < n)), "swap gets valid indices")
			c++
			if c == 2 {
				panic(stop{})
			}
		})
	})
}

func tag(s []int) string {
	b := make([]byte, len(s))
	for i := range s {
		b[i] = byte('0' + vsym.Conc(s[i]))
	}
	return string(b)
}

func perms(n int, f func(string)) {
	var rec func(p []byte, used int)
	rec = func(p []byte, used int) {
		if len(p) == n {
			f(string(p))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				rec(append(append([]byte(nil), p...), byte('0'+i)), used|1<<i)
			}
		}
	}
	rec(nil, 0)
}

// H_C50_reach: every arrangement can come out.
func H_C50_reach() {
	n := vsym.Bound(3, 4)
	source(n - 1)
	if vsym.Case(2) == 0 {
		perms(n, func(s string) { vsym.Need("perm " + s) })
		vsym.Reach("perm " + tag(fastrand.Perm(n)))
		return
	}
	perms(n, func(s string) { vsym.Need("shuffle " + s) })
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	fastrand.Shuffle(n, func(i, j int) {
		i, j = vsym.Conc(i), vsym.Conc(j)
		s[i], s[j] = s[j], s[i]
	})
	vsym.Reach("shuffle " + tag(s))
}

// H_C50_places: in larger permutations an element can come out at any place.
func H_C50_places() {
	c := vsym.Case(12)
	n := []int{6, 9, 9, 18, 18, 34, 34, 9, 18, 18, 34, 66}[c]
	el := 0
	if c%2 == 0 {
		el = n - 1
	}
	// scattered values with the high and the low end free
	fastrand.Uint32 = func() uint32 {
		return uint32(vsym.U8("hi"))<<24 | 0x5a3c00 | uint32(vsym.U8("lo"))
	}
	fastrand.Uint64 = func() uint64 {
		return uint64(vsym.U8("hi"))<<56 | 0x3a5c6b5d4e9300 | uint64(vsym.U8("lo"))
	}
	fastrand.Uint = func() uint { return uint(fastrand.Uint64()) }
	name := func(b int) string { return "case " + string(rune('0'+c)) + " place " + string(rune('0'+b)) }
	for b := 0; b < n; b++ {
		vsym.Need(name(b))
	}
	b := vsym.Pick("place", 0, n-1)
	if c == 0 || c > 6 && c < 11 {
		if fastrand.Perm(n)[b] == el {
			vsym.Reach(name(b))
		}
		return
	}
	at := el // where the element is now
	fastrand.Shuffle(n, func(i, j int) {
		at = vsym.IteI(at == i, j, vsym.IteI(at == j, i, at))
	})
	if at == b {
		vsym.Reach(name(b))
	}
}

// H_C51_read: the buffer is filled whatever it held, nothing else is touched.
func H_C51_read() {
	n := vsym.Case(vsym.Bound(34, 80))
	off := vsym.Pick("off", 0, vsym.Bound(3, 8))
	seed, wide := vsym.U32("seed"), vsym.U64("wide")
	fastrand.Uint32 = func() uint32 { return seed }
	fastrand.Uint64 = func() uint64 { return wide }
	fastrand.Uint = func() uint { return uint(wide) }
	const pad = 16
	mk := func(tag string) []byte { return vsym.Bytes(tag, pad+off+n+pad+64) }
	a, b := mk("a"), mk("b")
	a0, b0 := append([]byte(nil), a...), append([]byte(nil), b...)
	lo, hi := pad+off, pad+off+n
	ra, ea := fastrand.Read(a[lo:hi])
	rb, eb := fastrand.Read(b[lo:hi:hi])
	vsym.Assert(vsym.And(ra == n, rb == n), "Read reports the full length")
	vsym.Assert(ea == nil && eb == nil, "Read reports no error")
	vsym.Assert(vsym.EqBytes(a[lo:hi], b[lo:hi]), "every byte of the buffer comes from the generator")
	vsym.Assert(vsym.EqBytes(a[:lo], a0[:lo]), "nothing before the buffer is touched")
	vsym.Assert(vsym.EqBytes(a[hi:], a0[hi:]), "nothing after the buffer is touched")
	vsym.Assert(vsym.EqBytes(b[:lo], b0[:lo]), "nothing before the buffer is touched")
	vsym.Assert(vsym.EqBytes(b[hi:], b0[hi:]), "nothing after the buffer is touched")
}

// seeded makes every source of the generator yield words of the seed's sequence.
func seeded(seed uint64) {
	z := seed
	next := func() uint64 {
		z += 0x9e3779b97f4a7c15
		return z * 0xbf58476d1ce4e5b9
	}
	fastrand.Uint32 = func() uint32 { return uint32(next() >> 32) }
	fastrand.Uint64 = next
	fastrand.Uint = func() uint { return uint(next()) }
}

// H_C51_vary: no bit of the buffer is a constant.
func H_C51_vary() {
	n := vsym.Case(vsym.Bound(34, 80))
	a := make([]byte, n)
	ones, zeros := make([]byte, n), make([]byte, n)
	for s := 0; s < 64; s++ {
		seeded(uint64(s)*0x9e3779b9 + 12345)
		fastrand.Read(a)
		for i := range a {
			ones[i] |= a[i]
			zeros[i] |= ^a[i]
		}
	}
	for i := range a {
		vsym.Assert(ones[i] == 0xff && zeros[i] == 0xff, "no bit of the buffer ignores the generator")
	}
}

// H_C51_nil: the empty buffer.
func H_C51_nil() {
	n, err := fastrand.Read(nil)
	vsym.Assert(n == 0 && err == nil, "reading into nil")
	n, err = fastrand.Read([]byte{})
	vsym.Assert(n == 0 && err == nil, "reading into an empty buffer")
}

// H_C49_fair: no value is drawn by more raw outputs than its share, whether the
// first output is accepted or the one after a rejected one.
func H_C49_fair() {
	vsym.Merge(false)
	c := vsym.Case(3 * 3 * 2)
	w := c / 6
	after := c%2 == 1 // a first output is rejected
	first := vsym.U64("first")
	var raw uint64
	drawn := 0
	next := func() uint64 {
		drawn++
		switch {
		case after && drawn == 1:
			return first
		case drawn == 1 || after && drawn == 2:
			return raw
		}
		return 5 << 33
	}
	fastrand.Uint64 = next
	fastrand.Uint32 = func() uint32 { return uint32(next() >> 32) }
	fastrand.Uint = func() uint { return uint(next()) }
	var draw func() uint64
	wide := uint(64)
	var n uint64
	switch c / 2 % 3 {
	case 0:
		n = []uint64{5 << 28, 3 << 29, 1<<30 + 1}[w]
		draw = func() uint64 { return uint64(fastrand.Int31n(int32(n))) }
		wide = 32
	case 1:
		n = []uint64{1<<62 + 1, 1<<63 - 1, 3 << 61}[w]
		draw = func() uint64 { return uint64(fastrand.Int63n(int64(n))) }
	case 2:
		n = []uint64{1<<62 + 1, 5 << 28, 1<<63 - 25}[w]
		draw = func() uint64 { return uint64(fastrand.Intn(int(n))) }
		if n < 1<<31 {
			wide = 32
		}
	}
	share := int((1<<(wide-1) - 1) * 2 / n) // how many outputs one value may have
	var raws, got []uint64
	want := 1
	if after {
		want = 2
	}
	for i := 0; i <= share; i++ {
		raw = vsym.U64("raw")
		if wide == 32 {
			raw &= 0xffffffff << 32
		}
		for _, r := range raws {
			vsym.Assume(r < raw)
		}
		drawn = 0
		v := draw()
		vsym.Assume(drawn == want)
		vsym.Assert(v < n, "in range")
		raws, got = append(raws, raw), append(got, v)
	}
	same := true
	for _, v := range got[1:] {
		same = vsym.And(same, v == got[0])
	}
	vsym.Assert(!same, "no value is drawn by more raw outputs than its share")
}

// H_C49_ends: the first and the last value of wide ranges can come out.
func H_C49_ends() {
	source(1)
	vsym.Merge(false)
	c := vsym.Case(5 * 8)
	n := []uint64{1<<16 + 1, 1000003, 1<<30 + 1, 1<<31 - 1, 1<<40 + 3, 1 << 62, 1<<62 + 1, 1<<63 - 1}[c%8]
	f := c / 8
	if n > 1<<31-1 && (f == 0 || f == 3) {
		return
	}
	tag := []string{"Int31n", "Int63n", "Intn", "Uint32n", "Uint64n"}[f] + " " + strconv.FormatUint(n, 10) + " "
	var v uint64
	switch f {
	case 0:
		v = uint64(fastrand.Int31n(int32(n)))
	case 1:
		v = uint64(fastrand.Int63n(int64(n)))
	case 2:
		v = uint64(fastrand.Intn(int(n)))
	case 3:
		v = uint64(fastrand.Uint32n(uint32(n)))
	case 4:
		v = fastrand.Uint64n(n)
	}
	vsym.Need(tag + "first")
	vsym.Need(tag + "last")
	if v == 0 {
		vsym.Reach(tag + "first")
	} else if v == n-1 {
		vsym.Reach(tag + "last")
	}
}
