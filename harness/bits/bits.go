package bits

import (
	"github.com/miniLCT/gosb/library/bitset"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// bit reads bit i of a byte form, zero beyond it.
func bit(b []byte, i int) bool {
	if i < 0 || i >= len(b)*8 {
		return false
	}
	return b[i/8]&(0x80>>uint(i%8)) != 0
}

// model is the reference: one bool per bit.
type model []bool

func from(b []byte) model {
	m := make(model, len(b)*8)
	for i := range m {
		m[i] = bit(b, i)
	}
	return m
}

func (m model) same(s *bitset.BitSet) bool {
	if s.Size() != len(m) {
		return false
	}
	ok := true
	for i := range m {
		ok = vsym.And(ok, s.Get(i) == m[i])
	}
	return ok
}

// H_C28_history: reads return what was written, for any history.
func H_C28_history() {
	n := vsym.Case(vsym.Bound(4, 5))
	steps := vsym.Bound(2, 3)
	init := vsym.Bytes("init", n)
	m := from(init)
	// the caller's slice may have room left, with anything in it
	s := bitset.New(append(init, vsym.Bytes("room", 3)...)[: n : n+3*vsym.Pick("cap", 0, 1)]...)
	for k := 0; k < steps; k++ {
		off := vsym.Pick("off", -8*n-2, 8*n+9)
		val := vsym.Bool("val")
		old, err := s.Set(off, val)
		i := off
		if i < 0 {
			i += len(m)
		}
		if i < 0 {
			vsym.Assert(err != nil, "an offset left of the set is rejected")
			vsym.Assert(!old, "and reports false")
		} else {
			vsym.Assert(err == nil, "a valid offset is accepted")
			for len(m) <= i {
				m = append(m, make(model, 8)...)
			}
			vsym.Assert(old == m[i], "Set returns the previous bit")
			m[i] = val
		}
		vsym.Assert(m.same(s), "the set holds exactly the written bits")
	}
}

// H_C28_symoff: one write at an arbitrary symbolic offset.
func H_C28_symoff() {
	n := 1 + vsym.Case(3)
	init := vsym.Bytes("init", n)
	m := from(init)
	s := bitset.New(init...)
	off := vsym.Int("off", 0, 8*n-1)
	val := vsym.Bool("val")
	old, err := s.Set(off, val)
	vsym.Assert(err == nil, "a valid offset is accepted")
	ok, was := true, false
	for i := range m {
		was = vsym.IteB(off == i, m[i], was)
		ok = vsym.And(ok, s.Get(i) == vsym.IteB(off == i, val, m[i]))
	}
	vsym.Assert(old == was, "Set returns the previous bit")
	vsym.Assert(ok, "only the addressed bit changes")
	vsym.Assert(s.Get(off) == val, "Get returns the written bit")
	vsym.Assert(s.Get(off-8*n) == val, "Get from the end returns the written bit")
	vsym.Assert(s.Size() == 8*n, "size unchanged")
}

// H_C28_get: reading at any offset of any set.
func H_C28_get() {
	n := vsym.Case(vsym.Bound(4, 6))
	init := vsym.Bytes("init", n)
	s := bitset.New(init...)
	off := vsym.Pick("off", -8*n-3, 8*n+3)
	i := off
	if i < 0 {
		i += 8 * n
	}
	vsym.Assert(s.Get(off) == bit(init, i), "Get returns the bit, false outside")
	vsym.Assert(s.Size() == 8*n, "Size is eight bits per byte")
	far := int(vsym.I64("far"))
	vsym.Assume(vsym.Or(far >= 8*n, far < -8*n))
	vsym.Assert(!s.Get(far), "outside the set every bit is false")
}

// H_C28_grow: writing far to the right grows with zero bits.
func H_C28_grow() {
	n := vsym.Case(3)
	init := vsym.Bytes("init", n)
	m := from(init)
	s := bitset.New(init...)
	off := 8*n + vsym.Pick("off", 0, vsym.Bound(40, 200))
	val := vsym.Bool("val")
	old, err := s.Set(off, val)
	vsym.Assert(!old && err == nil, "a new bit was false")
	ok := true
	for i := range m {
		ok = vsym.And(ok, s.Get(i) == m[i])
	}
	vsym.Assert(ok, "old bits survive growth")
	for i := 8 * n; i < s.Size(); i++ {
		ok = vsym.And(ok, s.Get(i) == vsym.And(i == off, val))
	}
	vsym.Assert(ok, "new bits read false, the written one reads back")
	vsym.Assert(s.Size() == (off/8+1)*8, "the set grows to the byte of the offset")
}

// H_C28_room: writing past the end leaves the memory behind the bytes given alone.
func H_C28_room() {
	n := vsym.Case(3)
	buf := vsym.Bytes("buf", n+4)
	keep := append([]byte(nil), buf...)
	s := bitset.New(buf[:n]...)
	k := vsym.Bound(2, 3)
	for i := 0; i < k; i++ {
		s.Set(8*n+vsym.Pick("off", 0, 40), vsym.Bool("val"))
	}
	vsym.Assert(vsym.EqBytes(buf[n:], keep[n:]), "memory beyond the bytes given is not written")
}

// H_C28_range: iteration reports every bit in order and honours stop.
func H_C28_range() {
	n := vsym.Case(vsym.Bound(4, 6))
	init := vsym.Bytes("init", n)
	s := bitset.New(init...)
	stop := vsym.Pick("stop", 0, 8*n)
	k := 0
	ok := true
	s.Range(func(off int, truth bool) bool {
		ok = vsym.And(ok, vsym.And(off == k, truth == bit(init, k)))
		k++
		return k != stop
	})
	vsym.Assert(ok, "Range reports each bit in order")
	want := 8 * n
	if stop > 0 {
		want = stop
	}
	vsym.Assert(k == want, "Range reports every bit until told to stop")
	vsym.Assert(s.Size() == 8*n, "size")
}

func resolve(size, start, end int) (int, int) {
	if start < 0 {
		start += size
	}
	if end < 0 {
		end += size
	}
	if start < 0 {
		start = 0
	}
	if end >= size {
		end = size - 1
	}
	return start, end
}

// H_C29_count: counting any range.
func H_C29_count() {
	n := vsym.Case(vsym.Bound(4, 5))
	init := vsym.Bytes("init", n)
	s := bitset.New(init...)
	start := vsym.Pick("start", -8*n-2, 8*n+1)
	end := vsym.Pick("end", -8*n-2, 8*n+1)
	st, en := resolve(8*n, start, end)
	want := 0
	for i := st; i <= en; i++ {
		want += int(init[i/8] >> uint(7-i%8) & 1)
	}
	got := s.Count(start, end)
	vsym.Assert(got == want, "Count is the number of set bits in the range")
	vsym.ObsI("count", got)
}

// H_C29_sub: extracting any range.
func H_C29_sub() {
	n := vsym.Case(vsym.Bound(4, 5))
	init := vsym.Bytes("init", n)
	keep := append([]byte(nil), init...)
	s := bitset.New(init...)
	start := vsym.Pick("start", -8*n-2, 8*n+1)
	end := vsym.Pick("end", -8*n-2, 8*n+1)
	st, en := resolve(8*n, start, end)
	sub := s.Sub(start, end)
	want := en - st + 1
	if want < 0 {
		want = 0
	}
	vsym.Assert(sub.Size() >= want, "the sub-set holds the whole range")
	vsym.Assert(sub.Size() <= (want+7)/8*8, "the sub-set is no larger than the range needs")
	ok := true
	for i := 0; i < sub.Size(); i++ {
		w := false
		if i < want {
			w = bit(init, st+i)
		}
		ok = vsym.And(ok, sub.Get(i) == w)
	}
	vsym.Assert(ok, "bit i of the sub-set is bit start+i of the source")
	vsym.Assert(vsym.EqBytes(s.Bytes(), keep), "the source is unchanged")
	if sub.Size() > 0 {
		b, _ := sub.Set(0, true)
		sub.Set(0, !b)
		vsym.Assert(vsym.EqBytes(s.Bytes(), keep), "the sub-set is independent of the source")
	}
	vsym.ObsS("sub", sub.String())
}

// H_C30_algebra: the combining operations bit by bit.
func H_C30_algebra() {
	c := vsym.Case(15)
	op, cnt := c%5, c/5+1 // operands beside the receiver
	maxn := vsym.Bound(2, 3)
	n := vsym.Pick("n", 0, maxn)
	a := vsym.Bytes("a", n)
	ka := append([]byte(nil), a...)
	s := bitset.New(a...)
	var ops []*bitset.BitSet
	var kb [][]byte
	max := n
	for i := 0; i < cnt; i++ {
		k := vsym.Pick("k", 0, maxn)
		b := vsym.Bytes("b", k)
		kb = append(kb, append([]byte(nil), b...))
		ops = append(ops, bitset.New(b...))
		if k > max {
			max = k
		}
	}
	var r *bitset.BitSet
	switch op {
	case 0:
		r = s.And(ops...)
	case 1:
		r = s.Or(ops...)
	case 2:
		r = s.Xor(ops...)
	case 3:
		r = s.AndNot(ops...)
	case 4:
		r = s.Not()
		max = n
	}
	ok := true
	if op == 4 {
		vsym.Assert(r.Size() == 8*n, "Not keeps the size")
	}
	for i := 0; i < 8*max+8; i++ {
		w := bit(ka, i)
		for _, k := range kb {
			switch op {
			case 0:
				w = vsym.And(w, bit(k, i))
			case 1:
				w = vsym.Or(w, bit(k, i))
			case 2:
				w = w != bit(k, i)
			case 3:
				w = vsym.And(w, !bit(k, i))
			}
		}
		if op == 4 {
			if i >= 8*n {
				break
			}
			w = !bit(ka, i)
		}
		ok = vsym.And(ok, r.Get(i) == w)
	}
	vsym.Assert(ok, "the result is the bitwise combination")
	for i := range ops {
		vsym.Assert(vsym.EqBytes(ops[i].Bytes(), kb[i]), "operands are unchanged")
	}
	vsym.Assert(vsym.EqBytes(s.Bytes(), ka), "the receiver is unchanged")
	// the result is a set of its own
	if r.Size() > 0 {
		b, _ := r.Set(0, true)
		r.Set(0, !b)
		for i := range ops {
			vsym.Assert(vsym.EqBytes(ops[i].Bytes(), kb[i]), "the result shares nothing with an operand")
		}
		vsym.Assert(vsym.EqBytes(s.Bytes(), ka), "the result shares nothing with the receiver")
	}
}

// H_C30_self: an operand may be the receiver itself or occur twice.
func H_C30_self() {
	n := vsym.Pick("n", 0, vsym.Bound(3, 6))
	a := vsym.Bytes("a", n)
	ka := append([]byte(nil), a...)
	k := vsym.Pick("k", 0, vsym.Bound(3, 6))
	b := vsym.Bytes("b", k)
	kb := append([]byte(nil), b...)
	s, t := bitset.New(a...), bitset.New(b...)
	var r *bitset.BitSet
	op := vsym.Case(6)
	switch op {
	case 0:
		r = s.And(s)
	case 1:
		r = s.Or(s)
	case 2:
		r = s.Xor(s)
	case 3:
		r = s.AndNot(s)
	case 4:
		r = s.Xor(t, t)
	case 5:
		r = s.Or(t, s, t)
	}
	ok := true
	for i := 0; i < 8*n+8*k+8; i++ {
		w := bit(ka, i)
		switch op {
		case 2, 3:
			w = false
		case 5:
			w = vsym.Or(w, bit(kb, i))
		}
		ok = vsym.And(ok, r.Get(i) == w)
	}
	vsym.Assert(ok, "combining a set with itself")
	vsym.Assert(vsym.EqBytes(s.Bytes(), ka), "the receiver is unchanged")
	vsym.Assert(vsym.EqBytes(t.Bytes(), kb), "the operand is unchanged")
}

// H_C30_clear: clearing, and the empty operand list.
func H_C30_clear() {
	n := vsym.Pick("n", 0, vsym.Bound(5, 10))
	a := vsym.Bytes("a", n)
	ka := append([]byte(nil), a...)
	s := bitset.New(a...)
	for _, r := range []*bitset.BitSet{s.And(), s.Or(), s.Xor(), s.AndNot()} {
		vsym.Assert(vsym.EqBytes(r.Bytes(), ka), "no operands: the receiver's bits")
	}
	s.Clear()
	ok := true
	for i := 0; i < 8*n; i++ {
		ok = vsym.And(ok, !s.Get(i))
	}
	vsym.Assert(ok, "cleared bits read false")
	vsym.Assert(s.Count(0, -1) == 0, "nothing is counted after clearing")
	vsym.Assert(s.Size() == 8*n, "clearing keeps the size")
	if n > 0 {
		s.Set(8*n-1, true)
		vsym.Assert(vsym.And(s.Get(-1), !s.Get(0)), "the set is usable after clearing")
	}
}

const hexd = "0123456789abcdef"

// H_C31_hex: the hexadecimal form round-trips.
func H_C31_hex() {
	n := vsym.Pick("n", 0, vsym.Bound(5, 12))
	a := vsym.Bytes("a", n)
	ka := append([]byte(nil), a...)
	s := bitset.New(a...)
	x := s.String()
	vsym.Assert(len(x) == 2*n, "two digits per byte")
	ok := true
	for i := range ka {
		ok = vsym.And(ok, vsym.And(x[2*i] == hexd[ka[i]>>4], x[2*i+1] == hexd[ka[i]&15]))
	}
	vsym.Assert(ok, "digits are the bytes in hexadecimal")
	r, err := bitset.NewFromHex(x)
	vsym.Assert(err == nil, "the hexadecimal form parses")
	vsym.Assert(vsym.EqBytes(r.Bytes(), ka), "parsing it gives the same bits")
	vsym.Assert(vsym.EqBytes(s.Bytes(), ka), "construction preserves the bytes")
}

func hv(c byte) (byte, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10, true
	}
	return 0, false
}

// H_C31_parse: parsing arbitrary text.
func H_C31_parse() {
	n := vsym.Case(vsym.Bound(5, 7))
	x := vsym.Str("x", n)
	r, err := bitset.NewFromHex(x)
	good := n%2 == 0
	var want []byte
	for i := 0; i < n; i++ {
		_, ok := hv(x[i])
		good = good && ok
	}
	vsym.Assert((err == nil) == good, "exactly well-formed hexadecimal is accepted")
	if !good {
		return
	}
	for i := 0; i+1 < n; i += 2 {
		h, _ := hv(x[i])
		l, _ := hv(x[i+1])
		want = append(want, h<<4|l)
	}
	vsym.Assert(vsym.EqBytes(r.Bytes(), want), "the parsed bits are those of the digits")
}

// H_C31_binary: the binary form.
func H_C31_binary() {
	n := vsym.Case(vsym.Bound(3, 4))
	k := vsym.Pick("seplen", 0, 2)
	sep := vsym.Str("sep", k)
	a := vsym.Bytes("a", n)
	s := bitset.New(a...)
	got := s.Binary(sep)
	vsym.Assert(len(got) == vsym.IteI(n > 0, 8*n+(n-1)*k, 0), "length of the binary form")
	ok := true
	p := 0
	for i := 0; i < n; i++ {
		if i > 0 {
			ok = vsym.And(ok, got[p:p+k] == sep)
			p += k
		}
		for j := 0; j < 8; j++ {
			ok = vsym.And(ok, got[p] == vsym.IteU8(bit(a, 8*i+j), '1', '0'))
			p++
		}
	}
	vsym.Assert(ok, "each byte's bits, most significant first, with the separator between")
}

// H_C31_bytes: the byte form is a copy.
func H_C31_bytes() {
	n := vsym.Pick("n", 0, vsym.Bound(6, 16))
	a := vsym.Bytes("a", n)
	ka := append([]byte(nil), a...)
	s := bitset.New(a...)
	b := s.Bytes()
	vsym.Assert(vsym.EqBytes(b, ka), "the byte form holds the bits")
	for i := range b {
		b[i] = ^b[i]
	}
	b = append(b, 1)
	vsym.Assert(vsym.EqBytes(s.Bytes(), ka), "changing the byte form does not affect the set")
	c := s.Bytes()
	if n > 0 {
		v := vsym.Bool("v")
		s.Set(0, v)
		vsym.Assert(vsym.EqBytes(c, ka), "changing the set does not affect the byte form")
	}
}

// far are ends of ranges that lie far outside any set.
var far = []int{-1 << 63, 1<<63 - 1, -1<<32 + 3, 1<<32 + 1, -1<<31 - 1, -1 << 31, -1<<16 - 5, -257, 1 << 31, 1<<16 + 2, 256}

// H_C29_far: ranges whose ends lie far outside the set.
func H_C29_far() {
	n := vsym.Case(3)
	init := vsym.Bytes("init", n)
	s := bitset.New(init...)
	start, end := far[vsym.Pick("far", 0, len(far)-1)], vsym.Pick("near", -8*n-1, 8*n)
	switch vsym.Pick("which", 0, 2) {
	case 1:
		start, end = end, start
	case 2:
		end = far[vsym.Pick("far2", 0, len(far)-1)]
	}
	st, en := resolve(8*n, start, end)
	if st > en {
		st, en = 0, -1
	}
	want := 0
	for i := st; i <= en; i++ {
		want += int(init[i/8] >> uint(7-i%8) & 1)
	}
	vsym.Assert(s.Count(start, end) == want, "Count is the number of set bits in the range")
	sub := s.Sub(start, end)
	vsym.Assert(sub.Size() == (en-st+1+7)/8*8, "the sub-set is as large as the range needs")
	ok := true
	for i := 0; i < sub.Size(); i++ {
		ok = vsym.And(ok, sub.Get(i) == (st+i <= en && bit(init, st+i)))
	}
	vsym.Assert(ok, "bit i of the sub-set is bit start+i of the source")
}
