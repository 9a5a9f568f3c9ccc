package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func constString(c *ssa.Const) string { return constant.StringVal(c.Value) }

func (ex *Exec) binop(st *State, f *Frame, x *ssa.BinOp) (Value, act) {
	a, b := ex.val(f, x.X), ex.val(f, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		if ia, ok := a.(Iface); ok {
			if ib, ok := b.(Iface); ok && ia.typ != nil && ib.typ != nil && types.Identical(ia.typ, ib.typ) && !types.Comparable(ia.typ) {
				return nil, ex.goPanicRT(st, "comparing uncomparable type "+typeStr(ia.typ), x.Pos())
			}
		}
		// mixed interface / concrete comparison
		r := ex.valEq2(st, a, b, t, x.Y.Type())
		if x.Op == token.NEQ {
			r = ex.tc.Not(r)
		}
		return r, actRet
	}
	if sa, ok := a.(Str); ok {
		sb := b.(Str)
		switch x.Op {
		case token.ADD:
			return ex.strCat(sa, sb), actRet
		case token.LSS:
			return ex.strLess(sa, sb), actRet
		case token.LEQ:
			return ex.tc.Not(ex.strLess(sb, sa)), actRet
		case token.GTR:
			return ex.strLess(sb, sa), actRet
		case token.GEQ:
			return ex.tc.Not(ex.strLess(sa, sb)), actRet
		}
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported(fmt.Sprintf("binop %s on %s,%s", x.Op, ex.show(a), ex.show(b))))
	}
	return ex.arith(st, x.Op, ta, tb, t, x.Y.Type(), x.Pos())
}

func (ex *Exec) arith(st *State, op token.Token, a, b *Term, t, bt types.Type, pos token.Pos) (Value, act) {
	tc := ex.tc
	if isFloat(t) {
		switch op {
		case token.ADD:
			return tc.FBin(OFAdd, a, b), actRet
		case token.SUB:
			return tc.FBin(OFSub, a, b), actRet
		case token.MUL:
			return tc.FBin(OFMul, a, b), actRet
		case token.QUO:
			return tc.FBin(OFDiv, a, b), actRet
		case token.LSS:
			return tc.FCmp(OFLt, a, b), actRet
		case token.LEQ:
			return tc.FCmp(OFLe, a, b), actRet
		case token.GTR:
			return tc.FCmp(OFLt, b, a), actRet
		case token.GEQ:
			return tc.FCmp(OFLe, b, a), actRet
		}
		panic(unsupported("float op " + op.String()))
	}
	uns := isUnsigned(t)
	switch op {
	case token.LSS:
		if uns {
			return tc.Ult(a, b), actRet
		}
		return tc.Slt(a, b), actRet
	case token.LEQ:
		if uns {
			return tc.Ule(a, b), actRet
		}
		return tc.Sle(a, b), actRet
	case token.GTR:
		if uns {
			return tc.Ult(b, a), actRet
		}
		return tc.Slt(b, a), actRet
	case token.GEQ:
		if uns {
			return tc.Ule(b, a), actRet
		}
		return tc.Sle(b, a), actRet
	case token.ADD:
		return tc.Bin(OAdd, a, b), actRet
	case token.SUB:
		return tc.Bin(OSub, a, b), actRet
	case token.MUL:
		return tc.Bin(OMul, a, b), actRet
	case token.QUO, token.REM:
		if ex.decide(st, tc.Eq(b, tc.Const(0, int(b.w)))) {
			return nil, ex.goPanicRT(st, "integer divide by zero", pos)
		}
		var o Op
		switch {
		case op == token.QUO && uns:
			o = OUDiv
		case op == token.QUO:
			o = OSDiv
		case uns:
			o = OURem
		default:
			o = OSRem
		}
		return tc.Bin(o, a, b), actRet
	case token.AND, token.LAND:
		if a.w == 0 {
			return tc.And(a, b), actRet
		}
		return tc.Bin(OBAnd, a, b), actRet
	case token.OR, token.LOR:
		if a.w == 0 {
			return tc.Or(a, b), actRet
		}
		return tc.Bin(OBOr, a, b), actRet
	case token.XOR:
		if a.w == 0 {
			return tc.Not(tc.Eq(a, b)), actRet
		}
		return tc.Bin(OBXor, a, b), actRet
	case token.AND_NOT:
		return tc.Bin(OBAnd, a, tc.BNot(b)), actRet
	case token.SHL, token.SHR:
		if !isUnsigned(bt) {
			if ex.decide(st, tc.Slt(b, tc.Const(0, int(b.w)))) {
				return nil, ex.goPanicRT(st, "negative shift amount", pos)
			}
		}
		w := int(a.w)
		var sat *Term // shift count >= w
		var cnt *Term
		if int(b.w) > w {
			sat = tc.Ule(tc.Const(uint64(w), int(b.w)), b)
			cnt = tc.Extract(b, w-1, 0)
		} else {
			cnt = tc.Zext(b, w)
			sat = tc.fls // SMT semantics of same-width shifts saturate
		}
		switch {
		case op == token.SHL:
			return tc.Ite(sat, tc.Const(0, w), tc.Bin(OShl, a, cnt)), actRet
		case uns:
			return tc.Ite(sat, tc.Const(0, w), tc.Bin(OLshr, a, cnt)), actRet
		default:
			return tc.Ite(sat, tc.Bin(OAshr, a, tc.Const(uint64(w-1), w)), tc.Bin(OAshr, a, cnt)), actRet
		}
	}
	panic(unsupported("op " + op.String()))
}

func (ex *Exec) strCat(a, b Str) Str {
	if a.t == nil && b.t == nil {
		return Str{s: a.s + b.s}
	}
	return ex.mkStr(append(append([]*Term(nil), ex.strBytes(a)...), ex.strBytes(b)...))
}

func (ex *Exec) strLess(a, b Str) *Term {
	if a.t == nil && b.t == nil {
		return ex.tc.Bool(a.s < b.s)
	}
	x, y := ex.strBytes(a), ex.strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := ex.tc.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = ex.tc.Or(ex.tc.Ult(x[i], y[i]), ex.tc.And(ex.tc.Eq(x[i], y[i]), r))
	}
	return r
}

func (ex *Exec) strEq(a, b Str) *Term {
	if a.Len() != b.Len() {
		return ex.tc.fls
	}
	if a.t == nil && b.t == nil {
		return ex.tc.Bool(a.s == b.s)
	}
	x, y := ex.strBytes(a), ex.strBytes(b)
	r := ex.tc.tru
	for i := range x {
		r = ex.tc.And(r, ex.tc.Eq(x[i], y[i]))
	}
	return r
}

func (ex *Exec) valEq2(st *State, a, b Value, ta, tb types.Type) *Term {
	_, ia := a.(Iface)
	_, ib := b.(Iface)
	if ia && !ib {
		b = Iface{typ: ex.P.canon(tb), v: b}
	} else if ib && !ia {
		a = Iface{typ: ex.P.canon(ta), v: a}
		ta = tb
	}
	return ex.valEq(st, a, b, ta)
}

func (ex *Exec) valEq(st *State, a, b Value, t types.Type) *Term {
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if t != nil && isFloat(t) {
			return ex.tc.FCmp(OFEq, x, y)
		}
		return ex.tc.Eq(x, y)
	case Str:
		return ex.strEq(x, b.(Str))
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return ex.tc.fls
		}
		return ex.tc.Bool(ptrEq(x, y))
	case ChanRef:
		return ex.tc.Bool(x == b.(ChanRef))
	case MapRef:
		return ex.tc.Bool(x == b.(MapRef))
	case Slice:
		y := b.(Slice)
		return ex.tc.Bool(x.arr == 0 && y.arr == 0)
	case *Closure:
		y := b.(*Closure)
		if x == nil || y == nil {
			return ex.tc.Bool(x == nil && y == nil)
		}
		return ex.tc.Bool(x == y)
	case Iface:
		y := b.(Iface)
		if x.typ == nil || y.typ == nil {
			return ex.tc.Bool(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return ex.tc.fls
		}
		return ex.valEq(st, x.v, y.v, x.typ)
	case *Agg:
		y := b.(*Agg)
		r := ex.tc.tru
		for i := range x.e {
			var et types.Type
			if t != nil {
				switch u := under(t).(type) {
				case *types.Struct:
					if u.Field(i).Name() == "_" {
						continue
					}
					et = u.Field(i).Type()
				case *types.Array:
					et = u.Elem()
				}
			}
			r = ex.tc.And(r, ex.valEq(st, x.e[i], y.e[i], et))
			if r.isFalse() {
				return r
			}
		}
		return r
	}
	panic(unsupported(fmt.Sprintf("eq of %T", a)))
}

func (ex *Exec) unop(st *State, f *Frame, x *ssa.UnOp) (Value, act) {
	switch x.Op {
	case token.MUL:
		v := ex.val(f, x.X)
		p, ok := v.(Ptr)
		if !ok {
			panic(unsupported("deref of " + ex.show(v)))
		}
		if p.isNil() {
			return nil, ex.goPanicRT(st, "invalid memory address or nil pointer dereference", x.Pos())
		}
		return ex.load(st, p, x.Type(), x.Pos()), actRet
	case token.NOT:
		return ex.tc.Not(ex.term(f, x.X)), actRet
	case token.SUB:
		t := ex.term(f, x.X)
		if isFloat(x.Type()) {
			return ex.tc.FNeg(t), actRet
		}
		return ex.tc.Neg(t), actRet
	case token.XOR:
		return ex.tc.BNot(ex.term(f, x.X)), actRet
	case token.ARROW:
		return ex.chanRecv(st, f, x)
	}
	panic(unsupported("unop " + x.Op.String()))
}

func (ex *Exec) convert(st *State, f *Frame, xv ssa.Value, from, to types.Type) Value {
	v := ex.val(f, xv)
	fu, tu := under(from), under(to)
	if tb, ok := tu.(*types.Basic); ok {
		if tb.Kind() == types.UnsafePointer {
			switch p := v.(type) {
			case Ptr:
				return p
			case *Term:
				if p.op == OConst && p.val == 0 {
					return Ptr{}
				}
			}
			panic(unsupported("uintptr to unsafe.Pointer"))
		}
		if tb.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case Str:
				return x
			case Slice:
				et := under(fu.(*types.Slice).Elem()).(*types.Basic)
				if et.Kind() == types.Uint8 {
					if st.multi && x.n > 0 {
						ex.raceSlice(st, x, false, xv.Pos())
					}
					return ex.mkStr(ex.sliceBytes(st, x))
				}
				var out []*Term
				for _, e := range ex.sliceElems(st, x) {
					out = append(out, ex.encodeRune(st, e.(*Term))...)
				}
				return ex.mkStr(out)
			case *Term:
				r := x
				if r.w < 32 {
					if isUnsigned(from) {
						r = ex.tc.Zext(r, 32)
					} else {
						r = ex.tc.Sext(r, 32)
					}
				} else if r.w > 32 {
					ok := ex.tc.Ule(r, ex.tc.Const(0x10FFFF, int(r.w)))
					r = ex.tc.Ite(ok, ex.tc.Extract(r, 31, 0), ex.tc.Const(0xFFFD, 32))
				}
				return ex.mkStr(ex.encodeRune(st, r))
			}
		}
		if p, ok := v.(Ptr); ok && tb.Kind() == types.Uintptr {
			if p.isNil() {
				return ex.tc.Const(0, 64)
			}
			panic(unsupported("pointer to uintptr"))
		}
		t, ok := v.(*Term)
		if !ok {
			panic(unsupported(fmt.Sprintf("convert %s to %s", from, to)))
		}
		return ex.convNum(t, from, to)
	}
	switch tt := tu.(type) {
	case *types.Slice:
		if s, ok := v.(Str); ok {
			et := under(tt.Elem()).(*types.Basic)
			if et.Kind() == types.Uint8 {
				return ex.bytesToSlice(st, ex.strBytes(s))
			}
			var vals []Value
			b := ex.strBytes(s)
			for p := 0; p < len(b); {
				r, n := ex.decodeRune(st, b[p:])
				vals = append(vals, r)
				p += n
			}
			return ex.mkSlice(st, vals)
		}
		return v
	case *types.Pointer:
		if p, ok := v.(Ptr); ok {
			return p
		}
		if t, ok := v.(*Term); ok && t.op == OConst && t.val == 0 {
			return Ptr{}
		}
	}
	return v
}

func (ex *Exec) convNum(t *Term, from, to types.Type) Value {
	w := widthOf(to)
	if w < 0 {
		panic(unsupported("convert to " + to.String()))
	}
	ff, tf := isFloat(from), isFloat(to)
	switch {
	case ff && tf:
		return ex.tc.FConv(OFToF, t, w)
	case ff:
		if isUnsigned(to) {
			return ex.tc.FConv(OFToU, t, w)
		}
		return ex.tc.FConv(OFToS, t, w)
	case tf:
		if isUnsigned(from) {
			return ex.tc.FConv(OFFromU, t, w)
		}
		return ex.tc.FConv(OFFromS, t, w)
	}
	if w == 0 {
		return t
	}
	if int(t.w) > w {
		return ex.tc.Extract(t, w-1, 0)
	}
	if int(t.w) < w {
		if isUnsigned(from) {
			return ex.tc.Zext(t, w)
		}
		return ex.tc.Sext(t, w)
	}
	return t
}

// ---- builtins ----

func (ex *Exec) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Value, pos token.Pos) (Value, act) {
	k := func(n int) *Term { return ex.tc.Const(uint64(n), 64) }
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return k(x.Len()), actRet
		case Slice:
			return k(x.n), actRet
		case *Agg:
			return k(len(x.e)), actRet
		case Ptr:
			at := under(under(c.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array)
			return k(int(at.Len())), actRet
		case MapRef:
			if x.obj == 0 {
				return k(0), actRet
			}
			if st.multi {
				ex.raceAccess(st, Ptr{obj: x.obj}, false, pos)
			}
			return k(len(st.getObj(ex, x.obj).v.(*MapObj).ents)), actRet
		case ChanRef:
			if x.obj == 0 {
				return k(0), actRet
			}
			return k(len(st.getObj(ex, x.obj).v.(*ChanObj).buf)), actRet
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return k(x.cap), actRet
		case *Agg:
			return k(len(x.e)), actRet
		case ChanRef:
			if x.obj == 0 {
				return k(0), actRet
			}
			return k(st.getObj(ex, x.obj).v.(*ChanObj).cap), actRet
		case Ptr:
			at := under(under(c.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array)
			return k(int(at.Len())), actRet
		}
	case "append":
		var et types.Type
		if c != nil {
			et = under(c.Args[0].Type()).(*types.Slice).Elem()
		} else {
			et = types.Typ[types.Uint8]
		}
		s := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case Str:
			for _, t := range ex.strBytes(y) {
				add = append(add, t)
			}
		case Slice:
			if st.multi && y.n > 0 {
				ex.raceSlice(st, y, false, pos)
			}
			for _, e := range ex.sliceElems(st, y) {
				add = append(add, copyVal(e))
			}
		}
		return ex.appendVals(st, s, add, et, pos), actRet
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Str:
			for _, t := range ex.strBytes(y) {
				src = append(src, t)
			}
		case Slice:
			for _, e := range ex.sliceElems(st, y) {
				src = append(src, copyVal(e))
			}
			if st.multi && y.n > 0 && d.n > 0 {
				ex.raceSlice(st, y, false, pos)
			}
		}
		n := len(src)
		if d.n < n {
			n = d.n
		}
		if n > 0 {
			if st.multi {
				dd := d
				dd.n = n
				ex.raceSlice(st, dd, true, pos)
			}
			st.getWObj(ex, d.arr)
			a := ex.sliceArr(st, d)
			for i := 0; i < n; i++ {
				a.e[d.off+i] = src[i]
			}
		}
		return k(n), actRet
	case "delete":
		m := args[0].(MapRef)
		if m.obj == 0 {
			return nil, actRet
		}
		if msg := ex.unhashable(args[1]); msg != "" {
			return nil, ex.goPanicRT(st, msg, pos)
		}
		if st.multi {
			ex.raceAccess(st, Ptr{obj: m.obj}, true, pos)
		}
		ex.mapDelete(st, m.obj, args[1], under(c.Args[0].Type()).(*types.Map).Key())
		return nil, actRet
	case "clear":
		switch x := args[0].(type) {
		case MapRef:
			if x.obj != 0 {
				if st.multi {
					ex.raceAccess(st, Ptr{obj: x.obj}, true, pos)
				}
				m := st.getWObj(ex, x.obj).v.(*MapObj)
				m.ents = nil
				m.conc = map[string]int{}
				m.nsym = 0
			}
		case Slice:
			if x.n > 0 {
				et := under(c.Args[0].Type()).(*types.Slice).Elem()
				st.getWObj(ex, x.arr)
				a := ex.sliceArr(st, x)
				for i := 0; i < x.n; i++ {
					a.e[x.off+i] = ex.zero(et)
				}
			}
		}
		return nil, actRet
	case "close":
		return ex.chanClose(st, args[0].(ChanRef), pos)
	case "panic":
		v := args[0].(Iface)
		return nil, ex.startPanic(st, v, ex.describePanic(st, v), pos)
	case "recover":
		g := st.G()
		n := len(g.frames)
		f := g.frames[n-1]
		if f.isDefer && n >= 2 && g.frames[n-2].unwinding && g.pan != nil && !g.pan.recovered {
			g.pan.recovered = true
			return g.pan.val, actRet
		}
		return Iface{}, actRet
	case "print", "println":
		return nil, actRet
	case "min", "max":
		t := c.Args[0].Type()
		if _, ok := args[0].(Str); ok {
			panic(unsupported("min/max string"))
		}
		r := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			var lt *Term
			switch {
			case isFloat(t):
				panic(unsupported("min/max float"))
			case isUnsigned(t):
				lt = ex.tc.Ult(y, r)
			default:
				lt = ex.tc.Slt(y, r)
			}
			if b.Name() == "max" {
				lt = ex.tc.Not(lt)
			}
			r = ex.tc.Ite(lt, y, r)
		}
		return r, actRet
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.isNil() {
			return nil, ex.goPanicRT(st, "invalid memory address or nil pointer dereference", pos)
		}
		return args[0], actRet
	case "String": // unsafe.String(ptr, len)
		n := int(ex.concInt(st, args[1].(*Term)))
		p := args[0].(Ptr)
		if n == 0 {
			return Str{}, actRet
		}
		return ex.mkStr(ex.sliceBytes(st, ex.ptrToSlice(st, p, n))), actRet
	case "StringData":
		s := args[0].(Str)
		if s.Len() == 0 {
			return Ptr{}, actRet
		}
		sl := ex.bytesToSlice(st, ex.strBytes(s))
		return Ptr{obj: sl.arr, path: []int32{0}}, actRet
	case "Slice":
		n := int(ex.concInt(st, args[1].(*Term)))
		p := args[0].(Ptr)
		if p.isNil() {
			if n != 0 {
				return nil, ex.goPanicRT(st, "unsafe.Slice: ptr is nil and len is not zero", pos)
			}
			return Slice{}, actRet
		}
		return ex.ptrToSlice(st, p, n), actRet
	case "SliceData":
		s := args[0].(Slice)
		if s.arr == 0 {
			return Ptr{}, actRet
		}
		if s.cap == 0 {
			return Ptr{obj: s.arr, path: s.path}, actRet
		}
		return Ptr{obj: s.arr, path: extPath(s.path, s.off)}, actRet
	}
	panic(unsupported("builtin " + b.Name()))
}

func (ex *Exec) ptrToSlice(st *State, p Ptr, n int) Slice {
	if len(p.path) == 0 {
		panic(unsupported("unsafe.Slice of a plain variable"))
	}
	off := int(p.path[len(p.path)-1])
	s := Slice{arr: p.obj, path: p.path[:len(p.path)-1], off: off, n: n, cap: n}
	if a := ex.sliceArr(st, s); n > 0 && off+n > len(a.e) {
		// memory beyond the allocation: unconstrained content
		if len(a.e) == 0 || n > 1<<16 {
			panic(unsupported("unsafe.Slice out of bounds"))
		}
		z, ok := a.e[0].(*Term)
		if !ok {
			panic(unsupported("unsafe.Slice out of bounds"))
		}
		e := append([]Value(nil), a.e[off:]...)
		for len(e) < n {
			_, k := ex.freshName(st, "beyond")
			e = append(e, ex.getVar(fmt.Sprintf("beyond#%d", k), int(z.w)))
		}
		return Slice{arr: st.alloc(&Agg{e: e}, nil), n: n, cap: n}
	}
	return s
}

func (ex *Exec) appendVals(st *State, s Slice, add []Value, et types.Type, pos token.Pos) Value {
	if len(add) == 0 {
		return s
	}
	nl := s.n + len(add)
	if nl <= s.cap {
		if st.multi {
			ex.raceSlice(st, Slice{arr: s.arr, path: s.path, off: s.off + s.n, n: len(add)}, true, pos)
		}
		st.getWObj(ex, s.arr)
		a := ex.sliceArr(st, s)
		for i, v := range add {
			a.e[s.off+s.n+i] = v
		}
		s.n = nl
		return s
	}
	nc := growCap(nl, s.cap, ex.P.sizes.Sizeof(et))
	a := &Agg{e: make([]Value, nc)}
	if st.multi && s.n > 0 {
		ex.raceSlice(st, s, false, pos)
	}
	for i, v := range ex.sliceElems(st, s) {
		a.e[i] = copyVal(v)
	}
	copy(a.e[s.n:], add)
	for i := nl; i < nc; i++ {
		a.e[i] = ex.zero(et)
	}
	id := st.alloc(a, nil)
	return Slice{arr: id, n: nl, cap: nc}
}
