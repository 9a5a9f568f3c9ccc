package main

import (
	"fmt"
	"math"
	"math/bits"
)

// Terms: hash-consed bit-vector / Boolean expressions.  Width 0 means Bool.
// Floats are carried as IEEE bit patterns.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // val = lo ; w = width
	OZext
	OSext
	OMulHi
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OFNeg
	OFFromS // int -> float (width w)
	OFFromU
	OFToS // float -> int (truncate)
	OFToU
	OFToF // float -> float of other width
)

type Term struct {
	op      Op
	w       uint16
	id      int32
	a, b, c *Term
	val     uint64
	name    string
	vars    []uint64 // bitset of variable indices
	emitted bool
	size    int32
	cn      uint8 // >0: tree of ites over constants with that many leaves
}

type tkey struct {
	op      Op
	w       uint16
	a, b, c int32
	val     uint64
}

type lookup struct {
	idx  *Term
	vals []uint64
}

type TermCtx struct {
	lookups map[*Term]lookup
	tab     map[tkey]*Term
	all     int32
	vars    []*Term
	tru     *Term
	fls     *Term
	small   [65][258]*Term
	usum    map[*Term][]*Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[tkey]*Term{}}
	c.tru = c.mk(OConst, 0, nil, nil, nil, 1)
	c.fls = c.mk(OConst, 0, nil, nil, nil, 0)
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *TermCtx) mk(op Op, w uint16, a, b, d *Term, val uint64) *Term {
	k := tkey{op, w, tid(a), tid(b), tid(d), val}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: d, val: val, id: c.all}
	c.all++
	t.size = 1
	for _, x := range [3]*Term{a, b, d} {
		if x != nil {
			t.vars = orVars(t.vars, x.vars)
			if t.size < 1<<28 {
				t.size += x.size
			}
		}
	}
	switch {
	case op == OConst:
		t.cn = 1
	case op == OIte && b.cn > 0 && d.cn > 0 && int(b.cn)+int(d.cn) <= 40:
		t.cn = b.cn + d.cn
	}
	c.tab[k] = t
	return t
}

// leafMap applies f to the constant leaves of a tree of ites.
func (c *TermCtx) leafMap(t *Term, f func(v uint64) *Term) *Term {
	r := c.leafMap1(t, f)
	if l, ok := c.lookups[t]; ok && r.cn > 0 {
		if _, dup := c.lookups[r]; !dup {
			vals := make([]uint64, len(l.vals))
			for i, v := range l.vals {
				k := f(v)
				if k.op != OConst {
					return r
				}
				vals[i] = k.val
			}
			c.lookups[r] = lookup{l.idx, vals}
		}
	}
	return r
}

func (c *TermCtx) leafMap1(t *Term, f func(v uint64) *Term) *Term {
	if t.op == OConst {
		return f(t.val)
	}
	return c.Ite(t.a, c.leafMap1(t.b, f), c.leafMap1(t.c, f))
}

func orVars(a, b []uint64) []uint64 {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	// subset tests to share
	if len(b) <= len(a) {
		sub := true
		for i := range b {
			if b[i]&^a[i] != 0 {
				sub = false
				break
			}
		}
		if sub {
			return a
		}
	}
	if len(a) <= len(b) {
		sub := true
		for i := range a {
			if a[i]&^b[i] != 0 {
				sub = false
				break
			}
		}
		if sub {
			return b
		}
	}
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make([]uint64, n)
	copy(r, a)
	for i := range b {
		r[i] |= b[i]
	}
	return r
}

func varsIntersect(a, b []uint64) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

func (c *TermCtx) Var(name string, w int) *Term {
	t := &Term{op: OVar, w: uint16(w), id: c.all, name: name, val: uint64(len(c.vars)), size: 1}
	c.all++
	t.vars = make([]uint64, len(c.vars)/64+1)
	t.vars[len(c.vars)/64] = 1 << (uint(len(c.vars)) % 64)
	c.vars = append(c.vars, t)
	return t
}

func mask(w uint16) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sx(v uint64, w uint16) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *TermCtx) Const(v uint64, w int) *Term {
	if w == 0 {
		if v != 0 {
			return c.tru
		}
		return c.fls
	}
	v &= mask(uint16(w))
	if v < 257 {
		if t := c.small[w][v]; t != nil {
			return t
		}
		t := c.mk(OConst, uint16(w), nil, nil, nil, v)
		c.small[w][v] = t
		return t
	}
	return c.mk(OConst, uint16(w), nil, nil, nil, v)
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tru
	}
	return c.fls
}

func (t *Term) IsConst() bool { return t.op == OConst }

func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

func (c *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(a.val == 0)
	case ONot:
		return a.a
	case OUlt:
		return c.mk(OUle, 0, a.b, a.a, nil, 0)
	case OUle:
		return c.mk(OUlt, 0, a.b, a.a, nil, 0)
	case OSlt:
		return c.mk(OSle, 0, a.b, a.a, nil, 0)
	case OSle:
		return c.mk(OSlt, 0, a.b, a.a, nil, 0)
	}
	return c.mk(ONot, 0, a, nil, nil, 0)
}

func (c *TermCtx) isNeg(a, b *Term) bool {
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return true
	}
	switch a.op {
	case OUlt:
		return b.op == OUle && b.a == a.b && b.b == a.a
	case OUle:
		return b.op == OUlt && b.a == a.b && b.b == a.a
	case OSlt:
		return b.op == OSle && b.a == a.b && b.b == a.a
	case OSle:
		return b.op == OSlt && b.a == a.b && b.b == a.a
	}
	return false
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return c.fls
	}
	if a.isTrue() || a == b {
		return b
	}
	if b.isTrue() {
		return a
	}
	if c.isNeg(a, b) {
		return c.fls
	}
	if a.op == OAnd && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OAnd && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OOr && (a.a == b || a.b == b) {
		return b
	}
	if b.op == OOr && (b.a == a || b.b == a) {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, 0, a, b, nil, 0)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return c.tru
	}
	if a.isFalse() || a == b {
		return b
	}
	if b.isFalse() {
		return a
	}
	if c.isNeg(a, b) {
		return c.tru
	}
	if a.op == OOr && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OOr && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OAnd && (a.a == b || a.b == b) {
		return b
	}
	if b.op == OAnd && (b.a == a || b.b == a) {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, 0, a, b, nil, 0)
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond.isTrue() {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if cond.op == ONot {
		return c.Ite(cond.a, b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
		if a == cond {
			return c.Or(cond, b)
		}
		if b == cond {
			return c.And(cond, a)
		}
	}
	if a.op == OIte && a.a == cond {
		a = a.b
	}
	if b.op == OIte && b.a == cond {
		b = b.c
	}
	if a == b {
		return a
	}
	return c.mk(OIte, a.w, cond, a, b, 0)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tru
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.val == b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
		if c.isNeg(a, b) {
			return c.fls
		}
	} else if b.op == OConst {
		switch a.op {
		case OZext:
			if b.val > mask(a.a.w) {
				return c.fls
			}
			return c.Eq(a.a, c.Const(b.val, int(a.a.w)))
		case OSext:
			lo := b.val & mask(a.a.w)
			if uint64(sx(lo, a.a.w))&mask(a.w) != b.val {
				return c.fls
			}
			return c.Eq(a.a, c.Const(lo, int(a.a.w)))
		case OIte:
			if a.b.op == OConst && a.c.op == OConst {
				x, y := a.b.val == b.val, a.c.val == b.val
				switch {
				case x && y:
					return c.tru
				case x:
					return a.a
				case y:
					return c.Not(a.a)
				default:
					return c.fls
				}
			}
			if a.b.op == OConst {
				if a.b.val == b.val {
					return c.Or(a.a, c.Eq(a.c, b))
				}
				return c.And(c.Not(a.a), c.Eq(a.c, b))
			}
			if a.c.op == OConst {
				if a.c.val == b.val {
					return c.Or(c.Not(a.a), c.Eq(a.b, b))
				}
				return c.And(a.a, c.Eq(a.b, b))
			}
		case OAdd:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(b.val-a.b.val, int(a.w)))
			}
		case OBXor:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(b.val^a.b.val, int(a.w)))
			}
		case OBNot:
			return c.Eq(a.a, c.Const(^b.val, int(a.w)))
		case OConcat:
			lw := a.b.w
			return c.And(c.Eq(a.a, c.Const(b.val>>lw, int(a.a.w))), c.Eq(a.b, c.Const(b.val, int(lw))))
		case OBAnd:
			if a.b.op == OConst && b.val&^a.b.val != 0 {
				return c.fls
			}
		case OBOr:
			if a.b.op == OConst && a.b.val&^b.val != 0 {
				return c.fls
			}
		case OShl:
			if a.b.op == OConst && a.b.val < uint64(a.w) {
				k := a.b.val
				if b.val&(1<<k-1) != 0 {
					return c.fls
				}
			}
		}
		if lo, hi, ok := c.urange(a); ok && (b.val < lo || b.val > hi) {
			return c.fls
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
		if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
		if a.op == OAdd && b.op == OAdd && a.b.op == OConst && b.b.op == OConst {
			if a.a == b.a {
				return c.Bool(a.b.val == b.b.val)
			}
		}
		if a.op == OAdd && a.b.op == OConst && a.a == b || b.op == OAdd && b.b.op == OConst && b.a == a {
			return c.fls // nonzero constant by construction
		}
		if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w {
			return c.And(c.Eq(a.a, b.a), c.Eq(a.b, b.b))
		}
	}
	if a.op == OConst || (b.op != OConst && a.id > b.id) {
		a, b = b, a
	}
	return c.mk(OEq, 0, a, b, nil, 0)
}

// urange gives a cheap unsigned range for a term.
func (c *TermCtx) urange(t *Term) (lo, hi uint64, ok bool) {
	switch t.op {
	case OConst:
		return t.val, t.val, true
	case OZext:
		l, h, ok := c.urange(t.a)
		if ok {
			return l, h, true
		}
		return 0, mask(t.a.w), true
	case OBAnd:
		if t.b.op == OConst {
			return 0, t.b.val, true
		}
	case OBOr, OBXor:
		if t.size > 200 {
			break
		}
		_, h1, ok1 := c.urange(t.a)
		_, h2, ok2 := c.urange(t.b)
		if ok1 && ok2 {
			return 0, 1<<uint(bits.Len64(h1|h2)) - 1, true
		}
	case OConcat:
		_, h, ok := c.urange(t.a)
		if ok && t.a.size < 200 && t.w <= 64 {
			return 0, h<<t.b.w | mask(t.b.w), true
		}
	case OURem:
		if t.b.op == OConst && t.b.val > 0 {
			return 0, t.b.val - 1, true
		}
	case OLshr:
		if t.b.op == OConst && t.b.val < uint64(t.w) {
			return 0, mask(t.w) >> t.b.val, true
		}
	case OUDiv:
		if t.b.op == OConst && t.b.val > 0 {
			return 0, mask(t.w) / t.b.val, true
		}
	case OIte:
		if t.size > 600 {
			return 0, mask(t.w), t.w > 0 && t.w < 64
		}
		l1, h1, ok1 := c.urange(t.b)
		l2, h2, ok2 := c.urange(t.c)
		if ok1 && ok2 {
			if l2 < l1 {
				l1 = l2
			}
			if h2 > h1 {
				h1 = h2
			}
			return l1, h1, true
		}
	case OAdd:
		if t.size > 600 {
			break
		}
		l1, h1, ok1 := c.urange(t.a)
		l2, h2, ok2 := c.urange(t.b)
		if ok1 && ok2 && h1 <= mask(t.w)-h2 {
			return l1 + l2, h1 + h2, true
		}
	case OMul:
		if t.size > 600 {
			break
		}
		l1, h1, ok1 := c.urange(t.a)
		l2, h2, ok2 := c.urange(t.b)
		if ok1 && ok2 {
			hh, ll := bits.Mul64(h1, h2)
			if hh == 0 && ll <= mask(t.w) {
				return l1 * l2, ll, true
			}
		}
	}
	if t.w < 64 && t.w > 0 {
		return 0, mask(t.w), true
	}
	return 0, 0, false
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.fls
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.val < b.val)
	}
	if b.op == OConst && b.val == 0 {
		return c.fls
	}
	if a.op == OConst && a.val == mask(a.w) {
		return c.fls
	}
	l1, h1, ok1 := c.urange(a)
	l2, h2, ok2 := c.urange(b)
	if ok1 && ok2 {
		if h1 < l2 {
			return c.tru
		}
		if l1 >= h2 {
			return c.fls
		}
	}
	if b.op == OConst && b.val == 1 {
		return c.Eq(a, c.Const(0, int(a.w)))
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	if a.op == OZext && b.op == OConst && b.val <= mask(a.a.w) {
		return c.Ult(a.a, c.Const(b.val, int(a.a.w)))
	}
	if b.op == OZext && a.op == OConst && a.val <= mask(b.a.w) {
		return c.Ult(c.Const(a.val, int(b.a.w)), b.a)
	}
	if a.op == OIte && a.cn > 0 && b.op == OConst {
		return c.leafMap(a, func(v uint64) *Term { return c.Bool(v < b.val) })
	}
	if b.op == OIte && b.cn > 0 && a.op == OConst {
		return c.leafMap(b, func(v uint64) *Term { return c.Bool(a.val < v) })
	}
	return c.mk(OUlt, 0, a, b, nil, 0)
}

func (c *TermCtx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *TermCtx) nonneg(t *Term) bool {
	switch t.op {
	case OConst:
		return sx(t.val, t.w) >= 0
	case OZext:
		return true
	}
	_, h, ok := c.urange(t)
	return ok && h <= mask(t.w)>>1
}

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.fls
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ult(a, b)
	}
	if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return c.Slt(a.a, b.a)
	}
	if a.op == OSext && b.op == OConst {
		v := sx(b.val, b.w)
		lo, hi := -(int64(1) << (a.a.w - 1)), int64(1)<<(a.a.w-1)-1
		if v > hi {
			return c.tru
		}
		if v <= lo {
			return c.fls
		}
		return c.Slt(a.a, c.Const(uint64(v), int(a.a.w)))
	}
	if b.op == OSext && a.op == OConst {
		v := sx(a.val, a.w)
		lo, hi := -(int64(1) << (b.a.w - 1)), int64(1)<<(b.a.w-1)-1
		if v >= hi {
			return c.fls
		}
		if v < lo {
			return c.tru
		}
		return c.Slt(c.Const(uint64(v), int(b.a.w)), b.a)
	}
	if c.nonneg(a) && b.op == OConst && sx(b.val, b.w) < 0 {
		return c.fls
	}
	if c.nonneg(b) && a.op == OConst && sx(a.val, a.w) < 0 {
		return c.tru
	}
	if a.op == OIte && a.cn > 0 && b.op == OConst {
		return c.leafMap(a, func(v uint64) *Term { return c.Bool(sx(v, a.w) < sx(b.val, a.w)) })
	}
	if b.op == OIte && b.cn > 0 && a.op == OConst {
		return c.leafMap(b, func(v uint64) *Term { return c.Bool(sx(a.val, a.w) < sx(v, a.w)) })
	}
	return c.mk(OSlt, 0, a, b, nil, 0)
}

func (c *TermCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func foldBin(op Op, w uint16, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1, true
			}
			return m, true
		}
		if b == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/b) & m, true
	case OSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x, true
		}
		if b == -1 {
			return 0, true
		}
		return uint64(a%b) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		a := sx(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(a>>y) & m, true
	case OMulHi:
		hi, _ := bits.Mul64(x, y)
		return hi, true
	}
	return 0, false
}

// bitSrc is where a bit comes from: bit i of t, or a constant (t nil).
type bitSrc struct {
	t *Term
	i int
}

// bitsOf traces every bit of t to its source.
func (c *TermCtx) bitsOf(t *Term, out []bitSrc) {
	w := int(t.w)
	atom := func() {
		for i := 0; i < w; i++ {
			out[i] = bitSrc{t, i}
		}
	}
	switch t.op {
	case OConst:
		for i := 0; i < w; i++ {
			out[i] = bitSrc{nil, int(t.val >> uint(i) & 1)}
		}
	case OZext:
		for i := int(t.a.w); i < w; i++ {
			out[i] = bitSrc{}
		}
		c.bitsOf(t.a, out[:t.a.w])
	case OExtract:
		if t.a.w > 64 {
			atom()
			return
		}
		var tmp [64]bitSrc
		c.bitsOf(t.a, tmp[:t.a.w])
		copy(out[:w], tmp[t.val:])
	case OConcat:
		c.bitsOf(t.b, out[:t.b.w])
		c.bitsOf(t.a, out[t.b.w:w])
	case OShl, OLshr:
		if t.b.op != OConst || t.b.val >= uint64(w) {
			atom()
			return
		}
		var tmp [64]bitSrc
		c.bitsOf(t.a, tmp[:w])
		k := int(t.b.val)
		for i := 0; i < w; i++ {
			j := i - k
			if t.op == OLshr {
				j = i + k
			}
			if j >= 0 && j < w {
				out[i] = tmp[j]
			} else {
				out[i] = bitSrc{}
			}
		}
	case OBAnd:
		if t.b.op != OConst {
			atom()
			return
		}
		c.bitsOf(t.a, out[:w])
		for i := 0; i < w; i++ {
			if t.b.val>>uint(i)&1 == 0 {
				out[i] = bitSrc{}
			}
		}
	default:
		atom()
	}
}

// packBits is a|b when no bit can be set on both sides: a concatenation.
func (c *TermCtx) packBits(a, b *Term) *Term {
	w := int(a.w)
	var x, y [64]bitSrc
	c.bitsOf(a, x[:w])
	c.bitsOf(b, y[:w])
	for i := 0; i < w; i++ {
		switch {
		case y[i] == bitSrc{}:
		case x[i] == bitSrc{} || x[i] == y[i]:
			x[i] = y[i]
		default:
			return nil
		}
	}
	var r *Term
	segs := 0
	for i := 0; i < w; {
		j := i + 1
		var seg *Term
		if x[i].t == nil {
			v := uint64(x[i].i)
			for j < w && x[j].t == nil {
				v |= uint64(x[j].i) << uint(j-i)
				j++
			}
			seg = c.Const(v, j-i)
		} else {
			for j < w && x[j].t == x[i].t && x[j].i == x[i].i+j-i {
				j++
			}
			seg = c.Extract(x[i].t, x[i].i+j-i-1, x[i].i)
		}
		segs++
		if segs > 12 {
			return nil
		}
		if r == nil {
			r = seg
		} else {
			r = c.Concat(seg, r)
		}
		i = j
	}
	return r
}

// units are the 0/1 summands of a term that is a sum of single bits.
func (c *TermCtx) units(t *Term) []*Term {
	if t.op == OZext && t.a.w == 1 {
		return []*Term{t}
	}
	return c.usum[t]
}

// unitSum keeps sums of single bits in a normal form (sorted summands), so
// that two ways of counting the same bits give the same term.
func (c *TermCtx) unitSum(a, b *Term) *Term {
	x, y := c.units(a), c.units(b)
	if x == nil || y == nil || len(x)+len(y) > 512 {
		return nil
	}
	l := make([]*Term, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) || j < len(y) {
		if j == len(y) || (i < len(x) && x[i].id <= y[j].id) {
			l = append(l, x[i])
			i++
		} else {
			l = append(l, y[j])
			j++
		}
	}
	r := l[0]
	for k := 1; k < len(l); k++ {
		p, q := r, l[k]
		if k == 1 && p.id > q.id {
			p, q = q, p
		}
		r = c.mk(OAdd, 64, p, q, nil, 0)
	}
	if c.usum == nil {
		c.usum = map[*Term][]*Term{}
	}
	c.usum[r] = l
	return r
}

func commut(op Op) bool {
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor, OMulHi:
		return true
	}
	return false
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OConst && b.op == OConst {
		if v, ok := foldBin(op, w, a.val, b.val); ok {
			return c.Const(v, int(w))
		}
	}
	if op == OAdd && w == 64 && a.op != OConst && b.op != OConst {
		if r := c.unitSum(a, b); r != nil {
			return r
		}
	}
	if commut(op) && (a.op == OConst || (b.op != OConst && a.id > b.id)) {
		a, b = b, a
	}
	if op == OBOr && w <= 64 && b.op != OConst && a.size+b.size < 120 {
		if r := c.packBits(a, b); r != nil {
			return r
		}
	}
	m := mask(w)
	if b.op == OConst {
		k := b.val
		switch op {
		case OAdd:
			if k == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return c.Bin(OAdd, a.a, c.Const(a.b.val+k, int(w)))
			}
		case OSub:
			return c.Bin(OAdd, a, c.Const(-k, int(w)))
		case OMul:
			if k == 0 {
				return b
			}
			if k == 1 {
				return a
			}
			if k&(k-1) == 0 {
				return c.Bin(OShl, a, c.Const(uint64(bits.TrailingZeros64(k)), int(w)))
			}
		case OMulHi:
			if k == 0 {
				return b
			}
		case OUDiv:
			if k == 1 {
				return a
			}
			if k != 0 && k&(k-1) == 0 {
				return c.Bin(OLshr, a, c.Const(uint64(bits.TrailingZeros64(k)), int(w)))
			}
		case OURem:
			if k != 0 && k&(k-1) == 0 {
				return c.Bin(OBAnd, a, c.Const(k-1, int(w)))
			}
		case OSDiv:
			if k == 1 {
				return a
			}
			if c.nonneg(a) && sx(k, w) > 0 {
				return c.Bin(OUDiv, a, b)
			}
		case OSRem:
			if c.nonneg(a) && sx(k, w) > 0 {
				return c.Bin(OURem, a, b)
			}
		case OBAnd:
			if k == 0 {
				return b
			}
			if k == m {
				return a
			}
			if a.op == OBAnd && a.b.op == OConst {
				return c.Bin(OBAnd, a.a, c.Const(a.b.val&k, int(w)))
			}
			if a.op == OZext {
				if k&mask(a.a.w) == mask(a.a.w) {
					return a
				}
				return c.Zext(c.Bin(OBAnd, a.a, c.Const(k, int(a.a.w))), int(w))
			}
			if k&(k+1) == 0 { // low mask
				n := bits.Len64(k)
				return c.Zext(c.Extract(a, n-1, 0), int(w))
			}
		case OBOr:
			if k == 0 {
				return a
			}
			if k == m {
				return b
			}
		case OBXor:
			if k == 0 {
				return a
			}
			if k == m {
				return c.BNot(a)
			}
			if a.op == OBXor && a.b.op == OConst {
				return c.Bin(OBXor, a.a, c.Const(a.b.val^k, int(w)))
			}
		case OShl:
			if k == 0 {
				return a
			}
			if k >= uint64(w) {
				return c.Const(0, int(w))
			}
			if a.op == OShl && a.b.op == OConst {
				return c.Bin(OShl, a.a, c.Const(a.b.val+k, int(w)))
			}
		case OLshr:
			if k == 0 {
				return a
			}
			if k >= uint64(w) {
				return c.Const(0, int(w))
			}
			if a.op == OLshr && a.b.op == OConst {
				s := a.b.val + k
				if s >= uint64(w) {
					return c.Const(0, int(w))
				}
				return c.Bin(OLshr, a.a, c.Const(s, int(w)))
			}
			if a.op == OZext {
				if k >= uint64(a.a.w) {
					return c.Const(0, int(w))
				}
				return c.Zext(c.Bin(OLshr, a.a, c.Const(k, int(a.a.w))), int(w))
			}
			return c.Zext(c.Extract(a, int(w)-1, int(k)), int(w))
		case OAshr:
			if k == 0 {
				return a
			}
			if c.nonneg(a) {
				return c.Bin(OLshr, a, b)
			}
		}
	}
	if a.op == OConst && a.val == 0 {
		switch op {
		case OShl, OLshr, OAshr:
			return a
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return c.Const(0, int(w))
		case OBAnd, OBOr:
			return a
		}
	}
	switch op {
	case OSub:
		if a.op == OAdd && a.a == b {
			return a.b
		}
		if a.op == OAdd && a.b == b {
			return a.a
		}
	case OAdd:
		if a.op == OSub && a.b == b {
			return a.a
		}
		if b.op == OSub && b.b == a {
			return b.a
		}
	case OBXor:
		if a.op == OBXor {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
		}
		if b.op == OBXor {
			if b.a == a {
				return b.b
			}
			if b.b == a {
				return b.a
			}
		}
	case OSDiv:
		if c.nonneg(a) && c.nonneg(b) {
			return c.Bin(OUDiv, a, b)
		}
	case OSRem:
		if c.nonneg(a) && c.nonneg(b) {
			return c.Bin(OURem, a, b)
		}
	case OAshr:
		if c.nonneg(a) {
			return c.Bin(OLshr, a, b)
		}
	}
	// push through ite of constants
	if b.op == OConst && a.op == OIte && a.cn > 0 {
		if _, ok := foldBin(op, w, 1, b.val); ok {
			return c.leafMap(a, func(v uint64) *Term {
				x, _ := foldBin(op, w, v, b.val)
				return c.Const(x, int(w))
			})
		}
	}
	if a.op == OConst && b.op == OIte && b.cn > 0 {
		switch op {
		case OUDiv, OURem, OSDiv, OSRem:
		default:
			return c.leafMap(b, func(v uint64) *Term {
				x, _ := foldBin(op, w, a.val, v)
				return c.Const(x, int(w))
			})
		}
	}
	return c.mk(op, w, a, b, nil, 0)
}

func (c *TermCtx) BNot(a *Term) *Term {
	if a.op == OConst {
		return c.Const(^a.val, int(a.w))
	}
	if a.op == OBNot {
		return a.a
	}
	return c.mk(OBNot, a.w, a, nil, nil, 0)
}

func (c *TermCtx) Neg(a *Term) *Term {
	if a.op == OConst {
		return c.Const(-a.val, int(a.w))
	}
	if a.op == ONeg {
		return a.a
	}
	return c.mk(ONeg, a.w, a, nil, nil, 0)
}

func (c *TermCtx) Zext(a *Term, w int) *Term {
	if int(a.w) == w {
		return a
	}
	if a.op == OConst {
		return c.Const(a.val, w)
	}
	if a.op == OZext {
		return c.Zext(a.a, w)
	}
	if a.op == OIte && a.cn > 0 {
		return c.leafMap(a, func(v uint64) *Term { return c.Const(v, w) })
	}
	return c.mk(OZext, uint16(w), a, nil, nil, 0)
}

func (c *TermCtx) Sext(a *Term, w int) *Term {
	if int(a.w) == w {
		return a
	}
	if a.op == OConst {
		return c.Const(uint64(sx(a.val, a.w)), w)
	}
	if a.op == OZext && a.a.w < a.w {
		return c.Zext(a.a, w)
	}
	if a.op == OSext {
		return c.Sext(a.a, w)
	}
	if a.op == OIte && a.cn > 0 {
		return c.leafMap(a, func(v uint64) *Term { return c.Const(uint64(sx(v, a.w)), w) })
	}
	return c.mk(OSext, uint16(w), a, nil, nil, 0)
}

func (c *TermCtx) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == int(a.w) {
		return a
	}
	switch a.op {
	case OConst:
		return c.Const(a.val>>uint(lo), w)
	case OZext:
		if lo >= int(a.a.w) {
			return c.Const(0, w)
		}
		if hi < int(a.a.w) {
			return c.Extract(a.a, hi, lo)
		}
		return c.Zext(c.Extract(a.a, int(a.a.w)-1, lo), w)
	case OSext:
		if hi < int(a.a.w) {
			return c.Extract(a.a, hi, lo)
		}
		if lo == 0 && w > int(a.a.w) {
			return c.Sext(a.a, w)
		}
	case OConcat:
		lw := int(a.b.w)
		if hi < lw {
			return c.Extract(a.b, hi, lo)
		}
		if lo >= lw {
			return c.Extract(a.a, hi-lw, lo-lw)
		}
	case OExtract:
		return c.Extract(a.a, hi+int(a.val), lo+int(a.val))
	case OIte:
		if a.b.op == OConst && a.c.op == OConst {
			return c.Ite(a.a, c.Const(a.b.val>>uint(lo), w), c.Const(a.c.val>>uint(lo), w))
		}
		if a.size < 200 {
			return c.Ite(a.a, c.Extract(a.b, hi, lo), c.Extract(a.c, hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		if a.size > 400 {
			break
		}
		return c.Bin(a.op, c.Extract(a.a, hi, lo), c.Extract(a.b, hi, lo))
	case OBNot:
		return c.BNot(c.Extract(a.a, hi, lo))
	case OAdd, OSub, OMul:
		if lo == 0 && a.size <= 400 {
			return c.Bin(a.op, c.Extract(a.a, hi, 0), c.Extract(a.b, hi, 0))
		}
	case OShl:
		if a.b.op == OConst {
			k := int(a.b.val)
			if lo >= k {
				return c.Extract(a.a, hi-k, lo-k)
			}
			if hi < k {
				return c.Const(0, w)
			}
		}
	case OLshr:
		if a.b.op == OConst {
			k := int(a.b.val)
			if hi+k < int(a.w) {
				return c.Extract(a.a, hi+k, lo+k)
			}
			if lo+k >= int(a.w) {
				return c.Const(0, w)
			}
			return c.Zext(c.Extract(a.a, int(a.w)-1, lo+k), w)
		}
	}
	return c.mk(OExtract, uint16(w), a, nil, nil, uint64(lo))
}

func (c *TermCtx) Concat(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.Const(a.val<<b.w|b.val, int(a.w+b.w))
	}
	if a.op == OConst && a.val == 0 {
		return c.Zext(b, int(a.w+b.w))
	}
	return c.mk(OConcat, a.w+b.w, a, b, nil, 0)
}

// ---- floats ----

func fbits(v uint64, w uint16) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fpack(f float64, w uint16) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func foldF(op Op, w uint16, x, y uint64) uint64 {
	if w == 32 {
		a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		var r float32
		switch op {
		case OFAdd:
			r = a + b
		case OFSub:
			r = a - b
		case OFMul:
			r = a * b
		case OFDiv:
			r = a / b
		}
		return uint64(math.Float32bits(r))
	}
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	var r float64
	switch op {
	case OFAdd:
		r = a + b
	case OFSub:
		r = a - b
	case OFMul:
		r = a * b
	case OFDiv:
		r = a / b
	}
	return math.Float64bits(r)
}

func (c *TermCtx) FBin(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.Const(foldF(op, a.w, a.val, b.val), int(a.w))
	}
	if a.op == OIte && a.cn > 0 && b.op == OConst {
		return c.leafMap(a, func(v uint64) *Term { return c.Const(foldF(op, a.w, v, b.val), int(a.w)) })
	}
	if b.op == OIte && b.cn > 0 && a.op == OConst {
		return c.leafMap(b, func(v uint64) *Term { return c.Const(foldF(op, a.w, a.val, v), int(a.w)) })
	}
	return c.mk(op, a.w, a, b, nil, 0)
}

func (c *TermCtx) FCmp(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.Bool(foldFCmp(op, a.w, a.val, b.val))
	}
	if a.op == OIte && a.cn > 0 && b.op == OConst {
		return c.leafMap(a, func(v uint64) *Term { return c.Bool(foldFCmp(op, a.w, v, b.val)) })
	}
	if b.op == OIte && b.cn > 0 && a.op == OConst {
		return c.leafMap(b, func(v uint64) *Term { return c.Bool(foldFCmp(op, a.w, a.val, v)) })
	}
	return c.mk(op, 0, a, b, nil, 0)
}

func foldFCmp(op Op, w uint16, x, y uint64) bool {
	a, b := fbits(x, w), fbits(y, w)
	switch op {
	case OFLt:
		return a < b
	case OFLe:
		return a <= b
	}
	return a == b
}

func (c *TermCtx) FNeg(a *Term) *Term {
	return c.Bin(OBXor, a, c.Const(1<<(a.w-1), int(a.w)))
}

func foldFConv(op Op, sw, w uint16, v uint64) uint64 {
	switch op {
	case OFFromS:
		if w == 32 {
			return uint64(math.Float32bits(float32(sx(v, sw))))
		}
		return math.Float64bits(float64(sx(v, sw)))
	case OFFromU:
		if w == 32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return math.Float64bits(float64(v))
	case OFToS:
		return uint64(int64(fbits(v, sw))) & mask(w)
	case OFToU:
		return uint64(fbits(v, sw)) & mask(w)
	case OFToF:
		return fpack(fbits(v, sw), w)
	}
	panic("foldFConv")
}

func (c *TermCtx) FConv(op Op, a *Term, w int) *Term {
	if op == OFToF && int(a.w) == w {
		return a
	}
	if a.op == OConst {
		return c.Const(foldFConv(op, a.w, uint16(w), a.val), w)
	}
	if a.op == OIte && a.cn > 0 {
		return c.leafMap(a, func(v uint64) *Term { return c.Const(foldFConv(op, a.w, uint16(w), v), w) })
	}
	return c.mk(op, uint16(w), a, nil, nil, 0)
}

// ---- models ----

type Model struct {
	vals  map[int32]uint64 // var term id -> value
	cache map[int32]uint64
}

func NewModel() *Model { return &Model{vals: map[int32]uint64{}, cache: map[int32]uint64{}} }

func (m *Model) Eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m.vals[t.id]
	}
	if v, ok := m.cache[t.id]; ok {
		return v
	}
	v := m.eval1(t)
	m.cache[t.id] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Model) eval1(t *Term) uint64 {
	switch t.op {
	case ONot:
		return 1 - m.Eval(t.a)
	case OAnd:
		if m.Eval(t.a) == 0 {
			return 0
		}
		return m.Eval(t.b)
	case OOr:
		if m.Eval(t.a) == 1 {
			return 1
		}
		return m.Eval(t.b)
	case OIte:
		if m.Eval(t.a) == 1 {
			return m.Eval(t.b)
		}
		return m.Eval(t.c)
	}
	a := m.Eval(t.a)
	var b uint64
	if t.b != nil {
		b = m.Eval(t.b)
	}
	switch t.op {
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sx(a, t.a.w) < sx(b, t.a.w))
	case OSle:
		return b2u(sx(a, t.a.w) <= sx(b, t.a.w))
	case OBNot:
		return ^a & mask(t.w)
	case ONeg:
		return -a & mask(t.w)
	case OConcat:
		return a<<t.b.w | b
	case OExtract:
		return (a >> t.val) & mask(t.w)
	case OZext:
		return a
	case OSext:
		return uint64(sx(a, t.a.w)) & mask(t.w)
	case OFAdd, OFSub, OFMul, OFDiv:
		return foldF(t.op, t.w, a, b)
	case OFLt, OFLe, OFEq:
		return b2u(foldFCmp(t.op, t.a.w, a, b))
	case OFFromS, OFFromU, OFToS, OFToU, OFToF:
		return foldFConv(t.op, t.a.w, t.w, a)
	}
	v, ok := foldBin(t.op, t.w, a, b)
	if !ok {
		panic(fmt.Sprint("eval op ", t.op))
	}
	return v
}
