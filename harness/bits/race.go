package bits

import (
	"sync"

	"github.com/miniLCT/gosb/library/bitset"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// bset is the model: at most two bytes.
type bset struct {
	n int
	b [2]byte
}

type bcall struct {
	kind, off int
	val       bool
}

type bres struct {
	n  int
	ok bool
	b  [2]byte
}

const (
	kSet = iota
	kGet
	kClear
	kBytes
	kCount
	kNot
	kSub
	kSize
	kRange
	kBinary
	kString
	bkinds
)

func bitOf(b byte, i int) bool { return b>>(7-uint(i))&1 == 1 }

func ones(b byte) int {
	n := 0
	for i := 0; i < 8; i++ {
		n += int(b >> uint(i) & 1)
	}
	return n
}

func (s *bset) step(c bcall) (r bres) {
	g, i := c.off/8, c.off%8
	switch c.kind {
	case kSet:
		if g >= s.n {
			s.n = g + 1
		}
		r.ok = bitOf(s.b[g], i)
		m := byte(1) << (7 - uint(i))
		if c.val {
			s.b[g] |= m
		} else {
			s.b[g] &^= m
		}
	case kGet:
		if g < s.n {
			r.ok = bitOf(s.b[g], i)
		}
	case kClear:
		s.b = [2]byte{}
	case kBytes, kRange, kBinary, kString:
		r.n, r.b = s.n, s.b
	case kCount:
		r.n = ones(s.b[0]) + ones(s.b[1])
	case kNot:
		r.n = s.n
		for k := 0; k < s.n; k++ {
			r.b[k] = ^s.b[k]
		}
	case kSub:
		r.n, r.b = s.n, s.b
	case kSize:
		r.n = s.n * 8
	}
	return
}

func bdo(s *bitset.BitSet, c bcall) (r bres) {
	fill := func(x []byte) {
		r.n = len(x)
		copy(r.b[:], x)
	}
	switch c.kind {
	case kSet:
		r.ok, _ = s.Set(c.off, c.val)
	case kGet:
		r.ok = s.Get(c.off)
	case kClear:
		s.Clear()
	case kBytes:
		fill(s.Bytes())
	case kCount:
		r.n = s.Count(0, -1)
	case kNot:
		fill(s.Not().Bytes())
	case kSub:
		fill(s.Sub(0, -1).Bytes())
	case kSize:
		r.n = s.Size()
	case kRange:
		s.Range(func(off int, truth bool) bool {
			if off < 16 {
				r.n = off/8 + 1
				r.b[off/8] |= vsym.IteU8(truth, 1<<(7-uint(off%8)), 0)
			}
			return true
		})
	case kBinary:
		t := s.Binary("")
		r.n = len(t) / 8
		for i := 0; i < len(t) && i < 16; i++ {
			r.b[i/8] |= (t[i] - '0') << (7 - uint(i%8))
		}
	case kString:
		t := s.String()
		r.n = len(t) / 2
		for i := 0; i < len(t) && i < 4; i++ {
			d := t[i] - '0'
			d = vsym.IteU8(d > 9, t[i]-'a'+10, d)
			r.b[i/2] = r.b[i/2]<<4 | d
		}
	}
	return
}

func bsame(a, b bres) bool {
	return vsym.And(vsym.And(a.n == b.n, a.ok == b.ok), vsym.And(a.b[0] == b.b[0], a.b[1] == b.b[1]))
}

func bexplain(s bset, cs [][]bcall, rs [][]bres, final bres) bool {
	left, ok := false, false
	for t := range cs {
		if len(cs[t]) == 0 {
			continue
		}
		left = true
		n := s
		r := n.step(cs[t][0])
		c2 := append([][]bcall{}, cs...)
		r2 := append([][]bres{}, rs...)
		c2[t], r2[t] = cs[t][1:], rs[t][1:]
		ok = vsym.Or(ok, vsym.And(bsame(r, rs[t][0]), bexplain(n, c2, r2, final)))
	}
	if left {
		return ok
	}
	return bsame(s.step(bcall{kind: kBytes}), final)
}

// bexplainC is bexplain for concrete calls.
func bexplainC(s bset, cs [][]bcall, rs [][]bres, final bres) bool {
	left := false
	for t := range cs {
		if len(cs[t]) == 0 {
			continue
		}
		left = true
		n := s
		if n.step(cs[t][0]) != rs[t][0] {
			continue
		}
		c, r := cs[t], rs[t]
		cs[t], rs[t] = c[1:], r[1:]
		ok := bexplainC(n, cs, rs, final)
		cs[t], rs[t] = c, r
		if ok {
			return true
		}
	}
	return !left && s.step(bcall{kind: kBytes}) == final
}

func bstart() (*bitset.BitSet, bset) {
	var s bset
	s.n = 1
	s.b[0] = vsym.U8("bits")
	return bitset.New(s.b[0]), s
}

func bcallOf(kind int, val bool) bcall {
	c := bcall{kind: kind, val: val}
	if kind <= kGet {
		c.off = [3]int{3, 6, 9}[vsym.Pick("off", 0, 2)]
	}
	return c
}

func bcallers(x *bitset.BitSet, cs [][]bcall) [][]bres {
	rs := make([][]bres, len(cs))
	vsym.Race(true)
	var wg sync.WaitGroup
	for t := range cs {
		t := t
		rs[t] = make([]bres, len(cs[t]))
		wg.Add(1)
		go func() {
			for i, c := range cs[t] {
				rs[t][i] = bdo(x, c)
			}
			wg.Done()
		}()
	}
	wg.Wait()
	return rs
}

func brace(x *bitset.BitSet, s bset, cs [][]bcall) {
	rs := bcallers(x, cs)
	vsym.Assert(bexplain(s, cs, rs, bdo(x, bcall{kind: kBytes})), "the results and bits are those of some order of the calls")
}

// H_C32_two: two callers of one set, one with two calls.
func H_C32_two() {
	c := vsym.Case(bkinds * bkinds)
	x, s := bstart()
	v := vsym.Pick("val", 0, 1) == 1
	a := bcallOf(c%bkinds, v)
	b := bcallOf(c/bkinds, !v)
	d := bcallOf(kSet, true)
	brace(x, s, [][]bcall{{a}, {b, d}})
}

// H_C32_three: three writers; no write is lost.
func H_C32_three() {
	c := vsym.Case(bkinds)
	x, s := bstart()
	a := bcallOf(c, true)
	brace(x, s, [][]bcall{{a}, {bcallOf(kSet, true)}, {bcallOf(kSet, false)}})
}

// H_C32_crowd: three callers with several calls each, over the schedules that
// deviate a few times from three fixed ones.
func H_C32_crowd() {
	c := vsym.Case(bkinds * 3)
	vsym.Delays(vsym.Bound(1, 2), vsym.Pick("order", 0, 2))
	s := bset{n: 1, b: [2]byte{0x5a}}
	x := bitset.New(0x5a)
	off := vsym.Pick("off", 0, vsym.Bound(1, 4))
	cs := make([][]bcall, 3)
	for t := range cs {
		for i := 0; i < vsym.Bound(2, 3); i++ {
			k := (c/3 + t*(off+1) + i*(c%3+1)) % bkinds
			if (t+i)%2 == 0 {
				k = kSet
			}
			cs[t] = append(cs[t], bcall{k, [5]int{3, 6, 9, 15, 0}[(t+i+off)%5], (t+off)%2 == 0})
		}
	}
	rs := bcallers(x, cs)
	vsym.Assert(bexplainC(s, cs, rs, bdo(x, bcall{kind: kBytes})), "the results and bits are those of some order of the calls")
}

// H_C32_combine: sets combined with themselves and with each other while they
// are written.
func H_C32_combine() {
	c := vsym.Case(4 * 4 * 3)
	op1, op2, shape := c%4, (c/4)%4, c/16
	i0, j0 := vsym.U8("a"), vsym.U8("b")
	a, b := bitset.New(i0), bitset.New(j0)
	comb := func(op int, p *bitset.BitSet, q ...*bitset.BitSet) []byte {
		switch op {
		case 0:
			return p.And(q...).Bytes()
		case 1:
			return p.Or(q...).Bytes()
		case 2:
			return p.Xor(q...).Bytes()
		}
		return p.AndNot(q...).Bytes()
	}
	pure := func(op int, p, q byte) byte {
		return [4]byte{p & q, p | q, p ^ q, p &^ q}[op]
	}
	i1, j1 := i0|1, j0&^2
	vsym.Race(true)
	var wg sync.WaitGroup
	var r1, r2 []byte
	run := func(f func()) {
		wg.Add(1)
		go func() {
			f()
			wg.Done()
		}()
	}
	run(func() { a.Set(7, true) })
	if shape != 1 {
		run(func() { b.Set(6, false) })
	} else {
		j1 = j0
	}
	self := shape == 2
	if self {
		run(func() { r1 = comb(op1, a, a) })
		run(func() { r2 = comb(op2, b, a, b) })
	} else {
		run(func() { r1 = comb(op1, a, b) })
		run(func() { r2 = comb(op2, b, a) })
	}
	wg.Wait()
	fa, fb := a.Bytes(), b.Bytes()
	vsym.Assert(len(fa) == 1 && len(fb) == 1 && fa[0] == i1 && fb[0] == j1, "every write is there in the end")
	vsym.Assert(len(r1) == 1 && len(r2) == 1, "the combination has the size of the sets")
	oneOf := func(r byte, op int, p0, p1, q0, q1 byte) bool {
		return vsym.Or(vsym.Or(r == pure(op, p0, q0), r == pure(op, p0, q1)), vsym.Or(r == pure(op, p1, q0), r == pure(op, p1, q1)))
	}
	if !self {
		vsym.Assert(vsym.And(oneOf(r1[0], op1, i0, i1, j0, j1), oneOf(r2[0], op2, j0, j1, i0, i1)),
			"the combination is that of contents the sets had")
	}
}
