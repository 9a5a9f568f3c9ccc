package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"strings"
)

var debugAssert = os.Getenv("GOSYM_DEBUG") == "assert"

const vs = modPath + "/verifh/vsym."

// redirects: standard-library functions executed through a Go model in vmodels.
var redirects = map[string]string{
	"internal/bytealg.IndexByte":                        "IndexByte",
	"internal/bytealg.IndexByteString":                  "IndexByteString",
	"internal/bytealg.LastIndexByte":                    "LastIndexByte",
	"internal/bytealg.LastIndexByteString":              "LastIndexByteString",
	"internal/bytealg.Count":                            "CountByte",
	"internal/bytealg.CountString":                      "CountByteString",
	"internal/stringslite.Index":                        "IndexStr",
	"internal/stringslite.IndexByte":                    "IndexByteString",
	"strings.Index":                                     "IndexStr",
	"bytes.Index":                                       "IndexBytes",
	"bytes.IndexByte":                                   "IndexByte",
	"strings.IndexByte":                                 "IndexByteString",
	"errors.Is":                                         "ErrorsIs",
	"errors.is":                                         "ErrorsIs2",
	"crypto/internal/fips140/subtle.XORBytes":           "XORBytes",
	"crypto/subtle.XORBytes":                            "XORBytes",
	"internal/byteorder.BEUint64":                       "BEUint64",
	"internal/byteorder.BEPutUint64":                    "BEPutUint64",
	"crypto/internal/fips140deps/byteorder.BEUint64":    "BEUint64",
	"crypto/internal/fips140deps/byteorder.BEPutUint64": "BEPutUint64",
	"time.Unix":                                         "",
	modPath + "/verifh/vmodels.NewCipher":               "SymNewCipher",
	"(*sync.Pool).Get":                                  "StdPoolGet",
	"context.WithValue":                                 "CtxWithValue",
	"encoding/json.Marshal":                             "JSONMarshal",
	"encoding/json.MarshalIndent":                       "JSONMarshalIndent",
	"encoding/json.Unmarshal":                           "JSONUnmarshal",
	"encoding/json.Valid":                               "JSONValid",
	"encoding/json.NewDecoder":                          "JSONNewDecoder",
	"(*encoding/json.Decoder).Decode":                   "JSONDecode",
	"(*encoding/json.Decoder).More":                     "JSONMore",
	"(*encoding/json.Decoder).Buffered":                 "JSONBuffered",
	"(*encoding/json.Decoder).InputOffset":              "JSONInputOffset",
	"(*encoding/json.Decoder).DisallowUnknownFields":    "JSONStrict",
	"(*encoding/json.Decoder).UseNumber":                "JSONUseNumber",
	"(*encoding/json.Decoder).Token":                    "JSONToken",
	"encoding/json.NewEncoder":                          "JSONNewEncoder",
	"(*encoding/json.Encoder).Encode":                   "JSONEncode",
	"(*encoding/json.Encoder).SetIndent":                "JSONSetIndent",
	"(*encoding/json.Encoder).SetEscapeHTML":            "JSONSetEscape",
	"(*sync.Pool).Put":                                  "StdPoolPut",
	"crypto/cipher.NewCTR":                              "NewCTR",
	"crypto/md5.block":                                  "=crypto/md5.blockGeneric",
	"crypto/sha1.block":                                 "=crypto/sha1.blockGeneric",
	"crypto/internal/fips140/sha256.block":              "=crypto/internal/fips140/sha256.blockGeneric",
	"crypto/internal/fips140/sha512.block":              "=crypto/internal/fips140/sha512.blockGeneric",
}

func argT(c *callCtx, i int) *Term {
	t, ok := c.args[i].(*Term)
	if !ok {
		panic(unsupported("scalar argument expected: " + c.fn.String()))
	}
	return t
}

func argS(ex *Exec, c *callCtx, i int) string {
	s, ok := c.args[i].(Str)
	if !ok || s.t != nil {
		panic(unsupported("concrete string expected: " + c.fn.String()))
	}
	return s.s
}

func (ex *Exec) freshName(st *State, name string) (string, int) {
	k := st.names[name]
	return fmt.Sprintf("%s#%d", name, k), k
}

func (ex *Exec) addDraw(st *State, name, kind string, ts []*Term) {
	if st.names == nil {
		st.names = map[string]int{}
	}
	k := st.names[name]
	st.names[name] = k + 1
	st.draws = &Draw{name: name, idx: k, kind: kind, t: ts, up: st.draws}
}

// rangeVar is a fresh symbolic integer in [lo,hi], as narrow as the range allows.
func (ex *Exec) rangeVar(st *State, vn string, lo, hi *Term) *Term {
	if lo.op == OConst && hi.op == OConst && int64(lo.val) <= int64(hi.val) {
		n := hi.val - lo.val
		w := 0
		switch {
		case n < 1<<3:
			w = 3
		case n < 1<<4:
			w = 4
		case n < 1<<8:
			w = 8
		case n < 1<<16:
			w = 16
		}
		if w > 0 {
			v := ex.getVar(fmt.Sprintf("%s~%d", vn, w), w)
			if n != mask(uint16(w)) {
				ex.assume(st, ex.tc.Ule(v, ex.tc.Const(n, w)))
			}
			return ex.tc.Bin(OAdd, ex.tc.Zext(v, 64), lo)
		}
	}
	t := ex.getVar(vn, 64)
	ex.assume(st, ex.tc.And(ex.tc.Sle(lo, t), ex.tc.Sle(t, hi)))
	return t
}

func scalarDraw(w int) intrinsic {
	return func(ex *Exec, st *State, c *callCtx) (Value, act) {
		name := argS(ex, c, 0)
		vn, _ := ex.freshName(st, name)
		t := ex.getVar(vn, w)
		ex.addDraw(st, name, "int", []*Term{t})
		return t, actRet
	}
}

func nop(v func(ex *Exec) Value) intrinsic {
	return func(ex *Exec, st *State, c *callCtx) (Value, act) {
		if v == nil {
			return nil, actRet
		}
		return v(ex), actRet
	}
}

// leaf finds the first integer cell at or below p.
func (ex *Exec) leaf(st *State, p Ptr) Ptr {
	o := st.getObj(ex, p.obj)
	v := navigate(o.v, p.path)
	path := append([]int32(nil), p.path...)
	var rec func(v Value) bool
	rec = func(v Value) bool {
		switch x := v.(type) {
		case *Term:
			return x.w >= 32
		case *Agg:
			for i, e := range x.e {
				path = append(path, int32(i))
				if rec(e) {
					return true
				}
				path = path[:len(path)-1]
			}
		}
		return false
	}
	if !rec(v) {
		panic(unsupported("no state cell in synchronisation object"))
	}
	return Ptr{obj: p.obj, path: path}
}

func (ex *Exec) cell(st *State, p Ptr) int64 {
	t := navigate(st.getObj(ex, p.obj).v, p.path).(*Term)
	if t.op != OConst {
		panic(unsupported("symbolic synchronisation state"))
	}
	return sx(t.val, t.w)
}

func (ex *Exec) setCell(st *State, p Ptr, v int64) {
	o := st.getWObj(ex, p.obj)
	a := navigate(o.v, p.path[:len(p.path)-1]).(*Agg)
	i := p.path[len(p.path)-1]
	w := a.e[i].(*Term).w
	a.e[i] = ex.tc.Const(uint64(v), int(w))
}

func recvPtr(ex *Exec, st *State, c *callCtx) (Ptr, bool) {
	p, ok := c.args[0].(Ptr)
	if !ok || p.isNil() {
		return p, false
	}
	return p, true
}

const (
	rwPending = 1 << 20
	rwWriter  = 1 << 21
	rwMask    = 1<<20 - 1
)

func nilDeref(ex *Exec, st *State, c *callCtx) (Value, act) {
	return nil, ex.goPanicRT(st, "invalid memory address or nil pointer dereference", c.pos)
}

func mutexLock(ex *Exec, st *State, c *callCtx) (Value, act) {
	p, ok := recvPtr(ex, st, c)
	if !ok {
		return nilDeref(ex, st, c)
	}
	l := ex.leaf(st, p)
	op := &VOp{kind: "lock", pos: c.pos, keys: []keyAcc{{okey(l.obj, l.path), true}},
		enabled: func(ex *Exec, st *State) bool { return ex.cell(st, l) == 0 },
		run: func(ex *Exec, st *State) (Value, act) {
			ex.setCell(st, l, 1)
			ex.acquire(st, l.obj, tagged(l.path, -1))
			return nil, actRet
		}}
	return ex.vis(st, op, c.dst, c.isDefer, nil)
}

func mutexUnlock(ex *Exec, st *State, c *callCtx) (Value, act) {
	p, ok := recvPtr(ex, st, c)
	if !ok {
		return nilDeref(ex, st, c)
	}
	l := ex.leaf(st, p)
	if ex.cell(st, l) == 0 {
		ex.violation(st, "panic", "fatal error: sync: unlock of unlocked mutex", c.pos, nil)
		panic(killPath{"fatal"})
	}
	ex.setCell(st, l, 0)
	ex.release(st, l.obj, tagged(l.path, -1), false)
	return nil, actRet
}

func mutexTryLock(ex *Exec, st *State, c *callCtx) (Value, act) {
	panic(unsupported("TryLock"))
}

func rwLock(ex *Exec, st *State, c *callCtx) (Value, act) {
	p, ok := recvPtr(ex, st, c)
	if !ok {
		return nilDeref(ex, st, c)
	}
	l := ex.leaf(st, p)
	keys := []keyAcc{{okey(l.obj, l.path), true}}
	take := func(ex *Exec, st *State) {
		ex.setCell(st, l, rwWriter)
		ex.acquire(st, l.obj, tagged(l.path, -1))
		ex.acquire(st, l.obj, tagged(l.path, -2))
	}
	op := &VOp{kind: "rwlock", pos: c.pos, keys: keys,
		enabled: func(ex *Exec, st *State) bool {
			v := ex.cell(st, l)
			if !st.multi {
				return v == 0
			}
			return v&(rwPending|rwWriter) == 0
		},
		run: func(ex *Exec, st *State) (Value, act) {
			v := ex.cell(st, l)
			if v == 0 {
				take(ex, st)
				return nil, actRet
			}
			// readers present: announce, then wait for them
			ex.setCell(st, l, v|rwPending)
			g := st.G()
			f := st.wframe(g, len(g.frames)-1)
			f.vop = &VOp{kind: "rwlock-wait", pos: c.pos, keys: keys,
				enabled: func(ex *Exec, st *State) bool { return ex.cell(st, l)&rwMask == 0 },
				run: func(ex *Exec, st *State) (Value, act) {
					take(ex, st)
					return nil, actRet
				}}
			return nil, actPushed
		}}
	return ex.vis(st, op, c.dst, c.isDefer, nil)
}

func rwUnlock(ex *Exec, st *State, c *callCtx) (Value, act) {
	p, ok := recvPtr(ex, st, c)
	if !ok {
		return nilDeref(ex, st, c)
	}
	l := ex.leaf(st, p)
	v := ex.cell(st, l)
	if v&rwWriter == 0 {
		ex.violation(st, "panic", "fatal error: sync: Unlock of unlocked RWMutex", c.pos, nil)
		panic(killPath{"fatal"})
	}
	ex.setCell(st, l, 0)
	ex.release(st, l.obj, tagged(l.path, -1), false)
	return nil, actRet
}

func rwRLock(ex *Exec, st *State, c *callCtx) (Value, act) {
	p, ok := recvPtr(ex, st, c)
	if !ok {
		return nilDeref(ex, st, c)
	}
	l := ex.leaf(st, p)
	op := &VOp{kind: "rlock", pos: c.pos, keys: []keyAcc{{okey(l.obj, l.path), false}},
		enabled: func(ex *Exec, st *State) bool { return ex.cell(st, l)&(rwPending|rwWriter) == 0 },
		run: func(ex *Exec, st *State) (Value, act) {
			ex.setCell(st, l, ex.cell(st, l)+1)
			ex.acquire(st, l.obj, tagged(l.path, -1))
			return nil, actRet
		}}
	return ex.vis(st, op, c.dst, c.isDefer, nil)
}

func rwRUnlock(ex *Exec, st *State, c *callCtx) (Value, act) {
	p, ok := recvPtr(ex, st, c)
	if !ok {
		return nilDeref(ex, st, c)
	}
	l := ex.leaf(st, p)
	v := ex.cell(st, l)
	if v&rwMask == 0 {
		ex.violation(st, "panic", "fatal error: sync: RUnlock of unlocked RWMutex", c.pos, nil)
		panic(killPath{"fatal"})
	}
	ex.setCell(st, l, v-1)
	ex.release(st, l.obj, tagged(l.path, -2), true)
	return nil, actRet
}

func wgAdd(ex *Exec, st *State, p Ptr, n int64, c *callCtx) (Value, act) {
	l := ex.leaf(st, p)
	run := func(ex *Exec, st *State) (Value, act) {
		v := ex.cell(st, l) + n
		if v < 0 {
			return nil, ex.startPanic(st, Iface{typ: types.Typ[types.String], v: Str{s: "sync: negative WaitGroup counter"}}, "sync: negative WaitGroup counter", c.pos)
		}
		ex.setCell(st, l, v)
		if n < 0 {
			ex.release(st, l.obj, tagged(l.path, -1), true)
		}
		return nil, actRet
	}
	if n < 0 || !st.multi {
		return run(ex, st)
	}
	op := &VOp{kind: "wg-add", pos: c.pos, keys: []keyAcc{{okey(l.obj, l.path), true}}, run: run}
	return ex.vis(st, op, c.dst, c.isDefer, nil)
}

func wgWait(ex *Exec, st *State, c *callCtx) (Value, act) {
	p, ok := recvPtr(ex, st, c)
	if !ok {
		return nilDeref(ex, st, c)
	}
	l := ex.leaf(st, p)
	op := &VOp{kind: "wg-wait", pos: c.pos, keys: []keyAcc{{okey(l.obj, l.path), true}},
		enabled: func(ex *Exec, st *State) bool { return ex.cell(st, l) == 0 },
		run: func(ex *Exec, st *State) (Value, act) {
			ex.acquire(st, l.obj, tagged(l.path, -1))
			return nil, actRet
		}}
	return ex.vis(st, op, c.dst, c.isDefer, nil)
}

// atomicOp wraps a memory operation on c.args[0] as a visible operation.
func atomicOp(kind string, read, write bool, body func(ex *Exec, st *State, p Ptr, c *callCtx) (Value, act)) intrinsic {
	return func(ex *Exec, st *State, c *callCtx) (Value, act) {
		p, ok := recvPtr(ex, st, c)
		if !ok {
			return nilDeref(ex, st, c)
		}
		if !st.multi {
			return body(ex, st, p, c)
		}
		cc := *c
		op := &VOp{kind: kind, pos: c.pos, keys: []keyAcc{{okey(p.obj, p.path), write}}}
		op.run = func(ex *Exec, st *State) (Value, act) {
			v, a := body(ex, st, p, &cc)
			if a == actRet {
				tag := tagged(p.path, -3)
				if read {
					ex.acquire(st, p.obj, tag)
				}
				if write {
					ex.release(st, p.obj, tag, read)
				}
			}
			return v, a
		}
		return ex.vis(st, op, c.dst, c.isDefer, nil)
	}
}

// raw memory access without race tracking (atomics)
func (ex *Exec) rawLoad(st *State, p Ptr) Value {
	if p.sym != nil {
		panic(unsupported("atomic on symbolic index"))
	}
	return copyVal(navigate(st.getObj(ex, p.obj).v, p.path))
}

func (ex *Exec) rawStore(st *State, p Ptr, v Value) {
	o := st.getWObj(ex, p.obj)
	if len(p.path) == 0 {
		o.v = copyVal(v)
		return
	}
	navigate(o.v, p.path[:len(p.path)-1]).(*Agg).e[p.path[len(p.path)-1]] = copyVal(v)
}

func addAtomics(m map[string]intrinsic, T string, isPtr bool) {
	pre := "sync/atomic."
	load := atomicOp("atomic-load", true, false, func(ex *Exec, st *State, p Ptr, c *callCtx) (Value, act) {
		return ex.rawLoad(st, p), actRet
	})
	store := atomicOp("atomic-store", false, true, func(ex *Exec, st *State, p Ptr, c *callCtx) (Value, act) {
		ex.rawStore(st, p, c.args[1])
		return nil, actRet
	})
	swap := atomicOp("atomic-swap", true, true, func(ex *Exec, st *State, p Ptr, c *callCtx) (Value, act) {
		v := ex.rawLoad(st, p)
		ex.rawStore(st, p, c.args[1])
		return v, actRet
	})
	cas := atomicOp("atomic-cas", true, true, func(ex *Exec, st *State, p Ptr, c *callCtx) (Value, act) {
		v := ex.rawLoad(st, p)
		var eq *Term
		switch x := v.(type) {
		case *Term:
			eq = ex.tc.Eq(x, c.args[1].(*Term))
		case Ptr:
			eq = ex.tc.Bool(ptrEq(x, c.args[1].(Ptr)))
		default:
			panic(unsupported("cas operand"))
		}
		if ex.decide(st, eq) {
			ex.rawStore(st, p, c.args[2])
			return ex.tc.tru, actRet
		}
		return ex.tc.fls, actRet
	})
	m[pre+"Load"+T] = load
	m[pre+"Store"+T] = store
	m[pre+"Swap"+T] = swap
	m[pre+"CompareAndSwap"+T] = cas
	if !isPtr {
		m[pre+"Add"+T] = atomicOp("atomic-add", true, true, func(ex *Exec, st *State, p Ptr, c *callCtx) (Value, act) {
			v := ex.tc.Bin(OAdd, ex.rawLoad(st, p).(*Term), c.args[1].(*Term))
			ex.rawStore(st, p, v)
			return v, actRet
		})
		for _, k := range []string{"And", "Or"} {
			k := k
			m[pre+k+T] = atomicOp("atomic-"+k, true, true, func(ex *Exec, st *State, p Ptr, c *callCtx) (Value, act) {
				old := ex.rawLoad(st, p).(*Term)
				o := OBAnd
				if k == "Or" {
					o = OBOr
				}
				ex.rawStore(st, p, ex.tc.Bin(o, old, c.args[1].(*Term)))
				return old, actRet
			})
		}
	}
}

func fieldPtr(p Ptr, i int) Ptr { return Ptr{obj: p.obj, path: extPath(p.path, i)} }

func strPanic(ex *Exec, st *State, msg string, c *callCtx) (Value, act) {
	return nil, ex.startPanic(st, Iface{typ: types.Typ[types.String], v: Str{s: msg}}, msg, c.pos)
}

// ifaceEq compares two interface values as Go's == would.
func (ex *Exec) ifaceEq(st *State, a, b Iface) *Term {
	if a.typ == nil || b.typ == nil {
		return ex.tc.Bool(a.typ == nil && b.typ == nil)
	}
	if !types.Identical(a.typ, b.typ) {
		return ex.tc.fls
	}
	return ex.valEq(st, a.v, b.v, a.typ)
}

func addAtomicValue(m map[string]intrinsic) {
	chk := func(ex *Exec, st *State, old, nw Iface, name string, c *callCtx) (bool, Value, act) {
		if nw.typ == nil {
			v, a := strPanic(ex, st, "sync/atomic: "+name+" of nil value into Value", c)
			return false, v, a
		}
		if old.typ != nil && !types.Identical(old.typ, nw.typ) {
			v, a := strPanic(ex, st, "sync/atomic: "+name+" of inconsistently typed value into Value", c)
			return false, v, a
		}
		return true, nil, actRet
	}
	m["(*sync/atomic.Value).Load"] = atomicOp("value-load", true, false, func(ex *Exec, st *State, p Ptr, c *callCtx) (Value, act) {
		return ex.rawLoad(st, fieldPtr(p, 0)), actRet
	})
	m["(*sync/atomic.Value).Store"] = atomicOp("value-store", false, true, func(ex *Exec, st *State, p Ptr, c *callCtx) (Value, act) {
		fp := fieldPtr(p, 0)
		ok, v, a := chk(ex, st, ex.rawLoad(st, fp).(Iface), c.args[1].(Iface), "store", c)
		if !ok {
			return v, a
		}
		ex.rawStore(st, fp, c.args[1])
		return nil, actRet
	})
	m["(*sync/atomic.Value).Swap"] = atomicOp("value-swap", true, true, func(ex *Exec, st *State, p Ptr, c *callCtx) (Value, act) {
		fp := fieldPtr(p, 0)
		old := ex.rawLoad(st, fp).(Iface)
		ok, v, a := chk(ex, st, old, c.args[1].(Iface), "swap", c)
		if !ok {
			return v, a
		}
		ex.rawStore(st, fp, c.args[1])
		return old, actRet
	})
	m["(*sync/atomic.Value).CompareAndSwap"] = atomicOp("value-cas", true, true, func(ex *Exec, st *State, p Ptr, c *callCtx) (Value, act) {
		fp := fieldPtr(p, 0)
		cur := ex.rawLoad(st, fp).(Iface)
		o, n := c.args[1].(Iface), c.args[2].(Iface)
		if n.typ == nil {
			return strPanic(ex, st, "sync/atomic: compare and swap of nil value into Value", c)
		}
		if o.typ != nil && !types.Identical(o.typ, n.typ) {
			return strPanic(ex, st, "sync/atomic: compare and swap of inconsistently typed values", c)
		}
		if cur.typ != nil && !types.Identical(cur.typ, n.typ) {
			return strPanic(ex, st, "sync/atomic: compare and swap of inconsistently typed value into Value", c)
		}
		if ex.decide(st, ex.ifaceEq(st, cur, o)) {
			ex.rawStore(st, fp, n)
			return ex.tc.tru, actRet
		}
		return ex.tc.fls, actRet
	})
}

func intrinsics() map[string]intrinsic {
	delete(redirects, "time.Unix")
	m := map[string]intrinsic{}
	// ---- vsym ----
	m[vs+"Bool"] = scalarDraw(0)
	for n, w := range map[string]int{"U8": 8, "U16": 16, "U32": 32, "U64": 64, "I8": 8, "I16": 16, "I32": 32, "I64": 64, "F64": 64, "F32": 32} {
		m[vs+n] = scalarDraw(w)
	}
	m[vs+"Int"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		name := argS(ex, c, 0)
		lo, hi := argT(c, 1), argT(c, 2)
		vn, _ := ex.freshName(st, name)
		if lo.op == OConst && hi.op == OConst && lo.val == hi.val {
			ex.addDraw(st, name, "int", []*Term{lo})
			return lo, actRet
		}
		t := ex.rangeVar(st, vn, lo, hi)
		ex.addDraw(st, name, "int", []*Term{t})
		return t, actRet
	}
	m[vs+"Pick"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		name := argS(ex, c, 0)
		lo, hi := argT(c, 1), argT(c, 2)
		vn, _ := ex.freshName(st, name)
		if lo.op == OConst && hi.op == OConst && lo.val == hi.val {
			ex.addDraw(st, name, "int", []*Term{lo})
			return lo, actRet
		}
		t := ex.rangeVar(st, vn, lo, hi)
		v := ex.concInt(st, t)
		ex.addDraw(st, name, "int", []*Term{t})
		return ex.tc.Const(uint64(v), 64), actRet
	}
	m[vs+"Conc"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		return ex.tc.Const(uint64(ex.concInt(st, argT(c, 0))), 64), actRet
	}
	bytesDraw := func(ex *Exec, st *State, c *callCtx) ([]*Term, string) {
		name := argS(ex, c, 0)
		n := int(ex.concInt(st, argT(c, 1)))
		vn, _ := ex.freshName(st, name)
		ts := make([]*Term, n)
		for i := range ts {
			ts[i] = ex.getVar(fmt.Sprintf("%s[%d]", vn, i), 8)
		}
		ex.addDraw(st, name, "bytes", ts)
		return ts, name
	}
	m[vs+"Bytes"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		ts, _ := bytesDraw(ex, st, c)
		vals := make([]Value, len(ts))
		for i := range ts {
			vals[i] = ts[i]
		}
		return ex.mkSlice(st, vals), actRet
	}
	m[vs+"Str"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		ts, _ := bytesDraw(ex, st, c)
		return ex.mkStr(ts), actRet
	}
	m[vs+"Assume"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		ex.assume(st, argT(c, 0))
		return nil, actRet
	}
	m[vs+"Assert"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		if debugAssert {
			fmt.Println("ASSERT", argS(ex, c, 1), ex.show(argT(c, 0)))
		}
		ex.assert(st, argT(c, 0), argS(ex, c, 1), c.pos)
		return nil, actRet
	}
	m[vs+"Fail"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		ex.assert(st, ex.tc.fls, argS(ex, c, 0), c.pos)
		return nil, actRet
	}
	m[vs+"Reach"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		ex.st.Reach[argS(ex, c, 0)]++
		return nil, actRet
	}
	m[vs+"Need"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		ex.st.Need[argS(ex, c, 0)]++
		return nil, actRet
	}
	m[vs+"And"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		return ex.tc.And(argT(c, 0), argT(c, 1)), actRet
	}
	m[vs+"Or"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		return ex.tc.Or(argT(c, 0), argT(c, 1)), actRet
	}
	m[vs+"Implies"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		return ex.tc.Or(ex.tc.Not(argT(c, 0)), argT(c, 1)), actRet
	}
	ite := func(ex *Exec, st *State, c *callCtx) (Value, act) {
		return ex.tc.Ite(argT(c, 0), argT(c, 1), argT(c, 2)), actRet
	}
	m[vs+"IteI"] = ite
	m[vs+"IteB"] = ite
	m[vs+"IteU8"] = ite
	m[vs+"EqBytes"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		a, b := c.args[0].(Slice), c.args[1].(Slice)
		if a.n != b.n {
			return ex.tc.fls, actRet
		}
		x, y := ex.sliceBytes(st, a), ex.sliceBytes(st, b)
		r := ex.tc.tru
		for i := range x {
			r = ex.tc.And(r, ex.tc.Eq(x[i], y[i]))
		}
		return r, actRet
	}
	m[vs+"Distinct"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		a, b := c.args[0].(Slice), c.args[1].(Slice)
		ov := a.arr != 0 && a.arr == b.arr && pathEq(a.path, b.path) && a.cap > 0 && b.cap > 0 && a.off < b.off+b.cap && b.off < a.off+a.cap
		return ex.tc.Bool(!ov), actRet
	}
	obs := func(ex *Exec, st *State, c *callCtx) (Value, act) {
		n := 0
		if st.obs != nil {
			n = st.obs.n
		}
		st.obs = &Obs{label: argS(ex, c, 0), v: c.args[1], up: st.obs, n: n + 1}
		return nil, actRet
	}
	m[vs+"ObsI"] = obs
	m[vs+"ObsS"] = obs
	m[vs+"ObsB"] = obs
	m[vs+"Thorough"] = func(ex *Exec, st *State, c *callCtx) (Value, act) { return ex.tc.Bool(ex.cfg.Thorough), actRet }
	m[vs+"Bound"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		if ex.cfg.Thorough {
			return argT(c, 1), actRet
		}
		return argT(c, 0), actRet
	}
	m[vs+"Case"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		n := int(argT(c, 0).val)
		if n > ex.wantCases {
			ex.wantCases = n
			if ex.onCases != nil {
				ex.onCases(n)
			}
		}
		if ex.cfg.Case >= n {
			panic(killPath{"case"})
		}
		return ex.tc.Const(uint64(ex.cfg.Case), 64), actRet
	}
	flag := func(f func(ex *Exec, b bool)) intrinsic {
		return func(ex *Exec, st *State, c *callCtx) (Value, act) {
			f(ex, argT(c, 0).isTrue())
			return nil, actRet
		}
	}
	m[vs+"MapOrder"] = flag(func(ex *Exec, b bool) { ex.cfg.MapOrder = b })
	m[vs+"Merge"] = flag(func(ex *Exec, b bool) { ex.cfg.Merge = b })
	m[vs+"Race"] = flag(func(ex *Exec, b bool) { ex.cfg.Race = b })
	m[vs+"Delays"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		st.delays = int(argT(c, 0).val) + 1
		st.order = int(argT(c, 1).val)
		return nil, actRet
	}
	m[vs+"Unwind"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		ex.cfg.Unwind = int(argT(c, 0).val)
		return nil, actRet
	}
	m[vs+"Quiesce"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		op := &VOp{kind: "quiesce", quiesce: true, pos: c.pos}
		op.run = func(ex *Exec, st *State) (Value, act) {
			if st.multi {
				// what the others did happened before what is looked at now
				g := st.G()
				for _, o := range st.gs {
					if o != g {
						g.vc = joinVC(g.vc, o.vc)
					}
				}
			}
			return nil, actRet
		}
		return ex.vis(st, op, c.dst, c.isDefer, nil)
	}
	m[vs+"Blocked"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		n := 0
		for i := 1; i < len(st.gs); i++ {
			if !st.gs[i].done {
				n++
			}
		}
		return ex.tc.Const(uint64(n), 64), actRet
	}
	m[vs+"Enter"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		st.G().quiet++
		return nil, actRet
	}
	m[vs+"Leave"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		st.G().quiet--
		return nil, actRet
	}
	m[vs+"Yield"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		if !st.multi {
			return nil, actRet
		}
		op := &VOp{kind: "yield", pos: c.pos, keys: []keyAcc{{"yield", true}}}
		op.run = func(ex *Exec, st *State) (Value, act) { return nil, actRet }
		return ex.vis(st, op, c.dst, c.isDefer, nil)
	}
	m[vs+"Sync"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		if !st.multi {
			return nil, actRet
		}
		name := argS(ex, c, 0)
		op := &VOp{kind: "sync", pos: c.pos, keys: []keyAcc{{"sync:" + name, true}}}
		op.run = func(ex *Exec, st *State) (Value, act) {
			gl := ex.P.globID[ex.P.byPath[modPath+"/verifh/vsym"].Var("Vec")]
			ex.acquire(st, gl, []int32{-7})
			ex.release(st, gl, []int32{-7}, true)
			return nil, actRet
		}
		return ex.vis(st, op, c.dst, c.isDefer, nil)
	}
	// Touch: one step on named resources; orders nothing for the race check
	m[vs+"Touch"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		if !st.multi {
			return nil, actRet
		}
		op := &VOp{kind: "sync", pos: c.pos}
		for i := 0; i < 2; i++ {
			for _, n := range strings.Split(argS(ex, c, i), "\n") {
				if n != "" {
					op.keys = append(op.keys, keyAcc{"res:" + n, i == 1})
				}
			}
		}
		op.run = func(ex *Exec, st *State) (Value, act) { return nil, actRet }
		return ex.vis(st, op, c.dst, c.isDefer, nil)
	}
	m[vs+"Symbolic"] = nop(func(ex *Exec) Value { return ex.tc.tru })

	// ---- sync ----
	for _, p := range []string{"sync.Mutex", "internal/sync.Mutex"} {
		m["(*"+p+").Lock"] = mutexLock
		m["(*"+p+").Unlock"] = mutexUnlock
		m["(*"+p+").TryLock"] = mutexTryLock
	}
	m["(*sync.RWMutex).Lock"] = rwLock
	m["(*sync.RWMutex).Unlock"] = rwUnlock
	m["(*sync.RWMutex).RLock"] = rwRLock
	m["(*sync.RWMutex).RUnlock"] = rwRUnlock
	m["(*sync.RWMutex).TryLock"] = mutexTryLock
	m["(*sync.RWMutex).TryRLock"] = mutexTryLock
	m["(*sync.WaitGroup).Add"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		p, ok := recvPtr(ex, st, c)
		if !ok {
			return nilDeref(ex, st, c)
		}
		return wgAdd(ex, st, p, ex.concInt(st, argT(c, 1)), c)
	}
	m["(*sync.WaitGroup).Done"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		p, ok := recvPtr(ex, st, c)
		if !ok {
			return nilDeref(ex, st, c)
		}
		return wgAdd(ex, st, p, -1, c)
	}
	m["(*sync.WaitGroup).Wait"] = wgWait
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		addAtomics(m, t, false)
	}
	addAtomics(m, "Pointer", true)
	addAtomicValue(m)

	// ---- runtime & friends ----
	m["runtime.Gosched"] = nop(nil)
	m["runtime.KeepAlive"] = nop(nil)
	m["runtime.GC"] = nop(nil)
	m["runtime.SetFinalizer"] = nop(nil)
	m["(*strings.Builder).copyCheck"] = nop(nil)
	m["internal/bytealg.MakeNoZero"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		n := int(ex.concInt(st, argT(c, 0)))
		return ex.newSlice(st, types.Typ[types.Uint8], n, roundup(n)), actRet
	}
	m["internal/bytealg.Equal"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		return ex.strEq(ex.mkStr(ex.sliceBytes(st, c.args[0].(Slice))), ex.mkStr(ex.sliceBytes(st, c.args[1].(Slice)))), actRet
	}
	m["bytes.Equal"] = m["internal/bytealg.Equal"]
	cmp := func(ex *Exec, a, b Str) Value {
		lt, eq := ex.strLess(a, b), ex.strEq(a, b)
		return ex.tc.Ite(eq, ex.tc.Const(0, 64), ex.tc.Ite(lt, ex.tc.Const(^uint64(0), 64), ex.tc.Const(1, 64)))
	}
	m["internal/bytealg.Compare"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		return cmp(ex, ex.mkStr(ex.sliceBytes(st, c.args[0].(Slice))), ex.mkStr(ex.sliceBytes(st, c.args[1].(Slice)))), actRet
	}
	m["bytes.Compare"] = m["internal/bytealg.Compare"]
	m["internal/bytealg.CompareString"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		return cmp(ex, c.args[0].(Str), c.args[1].(Str)), actRet
	}
	m["strings.Compare"] = m["internal/bytealg.CompareString"]
	m["internal/stringslite.Clone"] = func(ex *Exec, st *State, c *callCtx) (Value, act) { return c.args[0], actRet }
	m["strings.Clone"] = m["internal/stringslite.Clone"]
	// pure functions of one string, computed directly when it is concrete
	for n, fn := range map[string]func(string) string{"Clean": filepath.Clean, "Dir": filepath.Dir, "Base": filepath.Base} {
		fn := fn
		m["internal/filepathlite."+n] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
			if x, ok := c.args[0].(Str); ok && x.t == nil {
				return Str{s: fn(x.s)}, actRet
			}
			ex.pushFrame(st, c.fn, nil, c.args, c.dst, c.isDefer)
			return nil, actPushed
		}
	}
	id := func(ex *Exec, st *State, c *callCtx) (Value, act) { return c.args[0], actRet }
	m["internal/abi.NoEscape"] = id
	m["internal/abi.Escape"] = id
	m["strings.noescape"] = id
	m["internal/godebug.New"] = func(ex *Exec, st *State, c *callCtx) (Value, act) { return Ptr{}, actRet }
	m["(*internal/godebug.Setting).Value"] = nop(func(ex *Exec) Value { return Str{} })
	m["(*internal/godebug.Setting).IncNonDefault"] = nop(nil)
	for _, al := range []string{"crypto/internal/fips140/alias", "crypto/internal/alias"} {
		ov := func(inexact bool) intrinsic {
			return func(ex *Exec, st *State, c *callCtx) (Value, act) {
				a, b := c.args[0].(Slice), c.args[1].(Slice)
				o := a.n > 0 && b.n > 0 && a.arr == b.arr && pathEq(a.path, b.path) && a.off < b.off+b.n && b.off < a.off+a.n
				if inexact && (a.n == 0 || b.n == 0 || a.arr == b.arr && pathEq(a.path, b.path) && a.off == b.off) {
					o = false
				}
				return ex.tc.Bool(o), actRet
			}
		}
		m[al+".AnyOverlap"] = ov(false)
		m[al+".InexactOverlap"] = ov(true)
	}
	m["crypto/internal/fips140.RecordApproved"] = nop(nil)
	m["crypto/internal/fips140.RecordNonApproved"] = nop(nil)
	m["crypto/internal/fips140only.Enforced"] = nop(func(ex *Exec) Value { return ex.tc.fls })
	m["crypto/fips140.Enforced"] = nop(func(ex *Exec) Value { return ex.tc.fls })
	m["math.Float64bits"] = id
	m["math.Float64frombits"] = id
	m["math.Float32bits"] = id
	m["math.Float32frombits"] = id
	m["internal/reflectlite.TypeOf"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		t := ex.P.byPath["internal/reflectlite"].Type("rtype").Type()
		return Iface{typ: ex.P.canon(t), v: ex.zero(t)}, actRet
	}
	m["(internal/reflectlite.rtype).Elem"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		t := ex.P.byPath["internal/reflectlite"].Type("rtype").Type()
		return Iface{typ: ex.P.canon(t), v: ex.zero(t)}, actRet
	}
	addBits(m)
	addMath(m)
	addTime(m)
	addFmt(m)
	addHash(m)
	addAES(m)
	addJSON(m)
	return m
}

// aesEnt is one known point of the block permutation of a key.
type aesEnt struct {
	key, in, out []*Term
	up           *aesEnt
}

func (ex *Exec) termsEq(a, b []*Term) *Term {
	if len(a) != len(b) {
		return ex.tc.fls
	}
	r := ex.tc.tru
	for i := range a {
		r = ex.tc.And(r, ex.tc.Eq(a[i], b[i]))
	}
	return r
}

// addAES: one block of AES is an unknown permutation, the same wherever the
// key is the same.
func addAES(m map[string]intrinsic) {
	m[modPath+"/verifh/vmodels.AesBlock"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		key := ex.sliceBytes(st, c.args[0].(Slice))
		in := ex.sliceBytes(st, c.args[1].(Slice))
		dec := argT(c, 2).isTrue()
		same := func(a, b []*Term) bool { return ex.termsEq(a, b).isTrue() }
		var out []*Term
		for e := st.aes; e != nil && out == nil; e = e.up {
			if !same(e.key, key) {
				continue
			}
			if !dec && same(e.in, in) {
				out = e.out
			} else if dec && same(e.out, in) {
				out = e.in
			}
		}
		if out == nil {
			n := 0
			for e := st.aes; e != nil; e = e.up {
				n++
			}
			for i := range in {
				out = append(out, ex.tc.Var(fmt.Sprintf("aes!%d.%d", n, i), 8))
			}
			ne := &aesEnt{key: key, in: in, out: out, up: st.aes}
			if dec {
				ne.in, ne.out = out, in
			}
			for e := st.aes; e != nil; e = e.up {
				k := ex.termsEq(e.key, key)
				a, b := ex.termsEq(e.in, ne.in), ex.termsEq(e.out, ne.out)
				iff := ex.tc.And(ex.tc.Or(ex.tc.Not(a), b), ex.tc.Or(a, ex.tc.Not(b)))
				ex.assume(st, ex.tc.Or(ex.tc.Not(k), iff))
			}
			st.aes = ne
		}
		b := make([]*Term, len(out))
		copy(b, out)
		return ex.bytesToSlice(st, b), actRet
	}
}

// addHash: the environment of the digest packages, which are executed from source.
func addHash(m map[string]intrinsic) {
	f := nop(func(ex *Exec) Value { return ex.tc.fls })
	for _, n := range []string{"crypto/internal/fips140only.Enforced", "crypto/internal/fips140only.enforced", "crypto/internal/boring.Enabled"} {
		m[n] = f
	}
	for _, n := range []string{"crypto.RegisterHash", "crypto/internal/fips140.RecordApproved", "crypto/internal/fips140.RecordNonApproved", "crypto/internal/fips140.CAST", "crypto/internal/fips140.PCT", "crypto/internal/impl.Register", "crypto/internal/boring/sig.StandardCrypto", "crypto/internal/boring/sig.BoringCrypto"} {
		m[n] = nop(nil)
	}
}

// addMath: the assembly-backed functions of package math.
func addMath(m map[string]intrinsic) {
	minmax := func(max bool) intrinsic {
		return func(ex *Exec, st *State, c *callCtx) (Value, act) {
			tc := ex.tc
			x, y := argT(c, 0), argT(c, 1)
			nan := func(t *Term) *Term { return tc.Not(tc.FCmp(OFEq, t, t)) }
			zero := tc.Const(0, 64)
			both0 := tc.And(tc.FCmp(OFEq, x, zero), tc.FCmp(OFEq, y, zero))
			var z, lt *Term
			if max {
				z, lt = tc.Bin(OBAnd, x, y), tc.FCmp(OFLt, x, y)
			} else {
				z, lt = tc.Bin(OBOr, x, y), tc.FCmp(OFLt, y, x)
			}
			r := tc.Ite(both0, z, tc.Ite(lt, y, x))
			if x.op == OConst && y.op != OConst {
				x, y = y, x
			}
			inf := tc.Const(math.Float64bits(math.Inf(1)), 64)
			if !max {
				inf = tc.Const(math.Float64bits(math.Inf(-1)), 64)
			}
			anyInf := tc.Or(tc.FCmp(OFEq, x, inf), tc.FCmp(OFEq, y, inf))
			r = tc.Ite(anyInf, inf, tc.Ite(tc.Or(nan(x), nan(y)), tc.Const(0x7FF8000000000001, 64), r))
			return r, actRet
		}
	}
	m["math.archMax"] = minmax(true)
	m["math.archMin"] = minmax(false)
	m["math.Max"] = minmax(true)
	m["math.Min"] = minmax(false)
	un := func(name string, f func(float64) float64) {
		in := func(ex *Exec, st *State, c *callCtx) (Value, act) {
			x := argT(c, 0)
			if x.cn == 0 {
				panic(unsupported("symbolic argument of " + name))
			}
			return ex.tc.leafMap(x, func(v uint64) *Term {
				return ex.tc.Const(math.Float64bits(f(math.Float64frombits(v))), 64)
			}), actRet
		}
		m["math.arch"+name] = in
		m["math."+name] = in
	}
	un("Floor", math.Floor)
	un("Ceil", math.Ceil)
	un("Trunc", math.Trunc)
	un("Sqrt", math.Sqrt)
	un("Log", math.Log)
	un("Log2", math.Log2)
	un("Exp", math.Exp)
	m["math.sqrt"] = m["math.Sqrt"]
	m["math.Pow"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		x, y := argT(c, 0), argT(c, 1)
		if x.op == OConst && y.cn > 0 {
			return ex.tc.leafMap(y, func(v uint64) *Term {
				return ex.tc.Const(math.Float64bits(math.Pow(math.Float64frombits(x.val), math.Float64frombits(v))), 64)
			}), actRet
		}
		if y.op == OConst && x.cn > 0 {
			return ex.tc.leafMap(x, func(v uint64) *Term {
				return ex.tc.Const(math.Float64bits(math.Pow(math.Float64frombits(v), math.Float64frombits(y.val))), 64)
			}), actRet
		}
		panic(unsupported("symbolic math.Pow"))
	}
}

func addBits(m map[string]intrinsic) {
	tz := func(w int) intrinsic {
		return func(ex *Exec, st *State, c *callCtx) (Value, act) {
			x := argT(c, 0)
			r := ex.tc.Const(uint64(w), 64)
			for i := w - 1; i >= 0; i-- {
				r = ex.tc.Ite(ex.tc.Eq(ex.tc.Extract(x, i, i), ex.tc.Const(1, 1)), ex.tc.Const(uint64(i), 64), r)
			}
			return r, actRet
		}
	}
	ln := func(w int) intrinsic {
		return func(ex *Exec, st *State, c *callCtx) (Value, act) {
			x := argT(c, 0)
			r := ex.tc.Const(0, 64)
			for i := 0; i < w; i++ {
				r = ex.tc.Ite(ex.tc.Eq(ex.tc.Extract(x, i, i), ex.tc.Const(1, 1)), ex.tc.Const(uint64(i+1), 64), r)
			}
			return r, actRet
		}
	}
	pop := func(w int) intrinsic {
		return func(ex *Exec, st *State, c *callCtx) (Value, act) {
			x := argT(c, 0)
			r := ex.tc.Const(0, 64)
			for i := 0; i < w; i++ {
				r = ex.tc.Bin(OAdd, r, ex.tc.Zext(ex.tc.Extract(x, i, i), 64))
			}
			return r, actRet
		}
	}
	for n, w := range map[string]int{"8": 8, "16": 16, "32": 32, "64": 64, "": 64} {
		m["math/bits.TrailingZeros"+n] = tz(w)
		m["math/bits.Len"+n] = ln(w)
		m["math/bits.OnesCount"+n] = pop(w)
	}
}

// ---- time: time.Time is modelled as {wall: 1 when set, ext: nanoseconds} ----

func addTime(m map[string]intrinsic) {
	ns := func(v Value) *Term { return v.(*Agg).e[1].(*Term) }
	set := func(ex *Exec, v Value) *Term { return ex.tc.Not(ex.tc.Eq(v.(*Agg).e[0].(*Term), ex.tc.Const(0, 64))) }
	mk := func(ex *Exec, t *Term) Value { return &Agg{e: []Value{ex.tc.Const(1, 64), t, Ptr{}}} }
	less := func(ex *Exec, a, b Value) *Term {
		sa, sb := set(ex, a), set(ex, b)
		return ex.tc.Ite(sb, ex.tc.Ite(sa, ex.tc.Slt(ns(a), ns(b)), ex.tc.tru), ex.tc.fls)
	}
	const T = "(time.Time)."
	m["time.Unix"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		s := argT(c, 0)
		t := argT(c, 1)
		if !(s.op == OConst && s.val == 0) {
			t = ex.tc.Bin(OAdd, t, ex.tc.Bin(OMul, s, ex.tc.Const(1000000000, 64)))
		}
		return mk(ex, t), actRet
	}
	m["time.UnixMilli"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		return mk(ex, ex.tc.Bin(OMul, argT(c, 0), ex.tc.Const(1000000, 64))), actRet
	}
	m[T+"After"] = func(ex *Exec, st *State, c *callCtx) (Value, act) { return less(ex, c.args[1], c.args[0]), actRet }
	m[T+"Before"] = func(ex *Exec, st *State, c *callCtx) (Value, act) { return less(ex, c.args[0], c.args[1]), actRet }
	m[T+"Equal"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		return ex.tc.And(ex.tc.Not(less(ex, c.args[0], c.args[1])), ex.tc.Not(less(ex, c.args[1], c.args[0]))), actRet
	}
	m[T+"Compare"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		return ex.tc.Ite(less(ex, c.args[0], c.args[1]), ex.tc.Const(^uint64(0), 64), ex.tc.Ite(less(ex, c.args[1], c.args[0]), ex.tc.Const(1, 64), ex.tc.Const(0, 64))), actRet
	}
	m[T+"IsZero"] = func(ex *Exec, st *State, c *callCtx) (Value, act) { return ex.tc.Not(set(ex, c.args[0])), actRet }
	m[T+"Add"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		if !set(ex, c.args[0]).isTrue() {
			panic(unsupported("Add on zero time"))
		}
		return mk(ex, ex.tc.Bin(OAdd, ns(c.args[0]), argT(c, 1))), actRet
	}
	m[T+"Sub"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		if !set(ex, c.args[0]).isTrue() || !set(ex, c.args[1]).isTrue() {
			panic(unsupported("Sub on zero time"))
		}
		return ex.tc.Bin(OSub, ns(c.args[0]), ns(c.args[1])), actRet
	}
	m[T+"UnixNano"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		if !set(ex, c.args[0]).isTrue() {
			panic(unsupported("UnixNano of zero time"))
		}
		return ns(c.args[0]), actRet
	}
	m[T+"Unix"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		if !set(ex, c.args[0]).isTrue() {
			panic(unsupported("Unix of zero time"))
		}
		return ex.tc.Bin(OSDiv, ns(c.args[0]), ex.tc.Const(1000000000, 64)), actRet
	}
	m[T+"UnixMilli"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		if !set(ex, c.args[0]).isTrue() {
			panic(unsupported("UnixMilli of zero time"))
		}
		return ex.tc.Bin(OSDiv, ns(c.args[0]), ex.tc.Const(1000000, 64)), actRet
	}
}

// ---- fmt ----

func (ex *Exec) fmtVal(st *State, v Value, verb byte, width int, zero bool, plus bool) Str {
	if i, ok := v.(Iface); ok {
		if i.typ == nil {
			return Str{s: "<nil>"}
		}
		t := i.typ
		switch u := under(t).(type) {
		case *types.Basic:
			if ex.hasErrOrString(t) {
				panic(unsupported("fmt of Stringer"))
			}
			switch x := i.v.(type) {
			case Str:
				if verb == 'q' || verb == 'x' {
					if x.t == nil {
						return Str{s: fmt.Sprintf("%"+string(verb), x.s)}
					}
					panic(unsupported("fmt %q of symbolic string"))
				}
				return x
			case *Term:
				if u.Info()&types.IsBoolean != 0 {
					if ex.decide(st, x) {
						return Str{s: "true"}
					}
					return Str{s: "false"}
				}
				if isFloat(t) {
					if x.op != OConst {
						panic(unsupported("fmt of symbolic float"))
					}
					return Str{s: fmt.Sprintf("%"+string(verb), fbits(x.val, x.w))}
				}
				if verb == 'b' && x.op != OConst && zero && width == int(x.w) {
					// fixed-width binary: one symbolic digit per bit
					bs := make([]*Term, x.w)
					for k := range bs {
						bit := int(x.w) - 1 - k
						bs[k] = ex.tc.Bin(OAdd, ex.tc.Const('0', 8), ex.tc.Zext(ex.tc.Extract(x, bit, bit), 8))
					}
					return ex.mkStr(bs)
				}
				if (verb == 'x' || verb == 'X') && x.op != OConst && zero && width*4 == int(x.w) {
					bs := make([]*Term, width)
					a := uint64('a' - 10)
					if verb == 'X' {
						a = 'A' - 10
					}
					for k := range bs {
						hi := int(x.w) - 1 - 4*k
						d := ex.tc.Zext(ex.tc.Extract(x, hi, hi-3), 8)
						bs[k] = ex.tc.Bin(OAdd, d, ex.tc.Ite(ex.tc.Ult(d, ex.tc.Const(10, 8)), ex.tc.Const('0', 8), ex.tc.Const(a, 8)))
					}
					return ex.mkStr(bs)
				}
				n := ex.concInt(st, x)
				if verb == 'v' || verb == 's' {
					verb = 'd'
				}
				f := "%"
				if plus {
					f += "+"
				}
				if zero {
					f += "0"
				}
				if width > 0 {
					f += fmt.Sprint(width)
				}
				f += string(verb)
				if isUnsigned(t) {
					un := uint64(n)
					if x.w < 64 {
						un &= 1<<x.w - 1
					}
					return Str{s: fmt.Sprintf(f, un)}
				}
				return Str{s: fmt.Sprintf(f, n)}
			}
		case *types.Pointer:
			if p, ok := i.v.(Ptr); ok && !p.isNil() {
				// errors created by errors.New / fmt.Errorf
				if a, ok := navigate(st.getObj(ex, p.obj).v, p.path).(*Agg); ok && ex.hasErrOrString(t) && len(a.e) > 0 {
					if s, ok := a.e[0].(Str); ok {
						return s
					}
				}
			}
			return Str{s: "0xc000000000"}
		case *types.Slice:
			s := i.v.(Slice)
			out := Str{s: "["}
			for k, e := range ex.sliceElems(st, s) {
				if k > 0 {
					out = ex.strCat(out, Str{s: " "})
				}
				ie := Iface{typ: u.Elem(), v: e}
				if x, ok := e.(Iface); ok {
					ie = x
				}
				out = ex.strCat(out, ex.fmtVal(st, ie, verb, 0, false, false))
			}
			return ex.strCat(out, Str{s: "]"})
		case *types.Array:
			out := Str{s: "["}
			for k, e := range i.v.(*Agg).e {
				if k > 0 {
					out = ex.strCat(out, Str{s: " "})
				}
				ie := Iface{typ: u.Elem(), v: e}
				if x, ok := e.(Iface); ok {
					ie = x
				}
				out = ex.strCat(out, ex.fmtVal(st, ie, verb, 0, false, false))
			}
			return ex.strCat(out, Str{s: "]"})
		case *types.Struct:
			if ex.hasErrOrString(t) {
				panic(unsupported("fmt of Stringer"))
			}
			out := Str{s: "{"}
			for k, e := range i.v.(*Agg).e {
				if k > 0 {
					out = ex.strCat(out, Str{s: " "})
				}
				ie := Iface{typ: u.Field(k).Type(), v: e}
				if x, ok := e.(Iface); ok {
					ie = x
				}
				out = ex.strCat(out, ex.fmtVal(st, ie, verb, 0, false, false))
			}
			return ex.strCat(out, Str{s: "}"})
		}
		panic(unsupported("fmt of " + typeStr(t)))
	}
	panic(unsupported("fmt arg"))
}

// rtypeStr is the name fmt prints for a type.
func rtypeStr(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Byte {
		return "uint8"
	}
	return s
}

// fmtSharp is the Go-syntax form of a value.
func (ex *Exec) fmtSharp(st *State, i Iface) Str {
	if i.typ == nil {
		return Str{s: "<nil>"}
	}
	t := i.typ
	if hasMethodNamed(t, "GoString", "Format") {
		panic(unsupported("fmt of GoStringer"))
	}
	elem := func(v Value, et types.Type) Str {
		if x, ok := v.(Iface); ok {
			if x.typ == nil {
				return Str{s: rtypeStr(et) + "(nil)"}
			}
			return ex.fmtSharp(st, x)
		}
		return ex.fmtSharp(st, Iface{typ: et, v: v})
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch x := i.v.(type) {
		case Str:
			if x.t != nil {
				panic(unsupported("fmt %#v of symbolic string"))
			}
			return Str{s: fmt.Sprintf("%#v", x.s)}
		case *Term:
			if u.Info()&types.IsBoolean != 0 || !isUnsigned(t) && !isFloat(t) {
				return ex.fmtVal(st, i, 'v', 0, false, false)
			}
			if isFloat(t) {
				if x.op != OConst {
					panic(unsupported("fmt of symbolic float"))
				}
				return Str{s: fmt.Sprintf("%#v", fbits(x.val, x.w))}
			}
			n := uint64(ex.concInt(st, x))
			if x.w < 64 {
				n &= 1<<x.w - 1
			}
			return Str{s: fmt.Sprintf("0x%x", n)}
		}
	case *types.Struct:
		out := Str{s: rtypeStr(t) + "{"}
		for k, e := range i.v.(*Agg).e {
			if k > 0 {
				out = ex.strCat(out, Str{s: ", "})
			}
			out = ex.strCat(out, Str{s: u.Field(k).Name() + ":"})
			out = ex.strCat(out, elem(e, u.Field(k).Type()))
		}
		return ex.strCat(out, Str{s: "}"})
	case *types.Array:
		out := Str{s: rtypeStr(t) + "{"}
		for k, e := range i.v.(*Agg).e {
			if k > 0 {
				out = ex.strCat(out, Str{s: ", "})
			}
			out = ex.strCat(out, elem(e, u.Elem()))
		}
		return ex.strCat(out, Str{s: "}"})
	}
	panic(unsupported("fmt %#v of " + typeStr(t)))
}

func (ex *Exec) hasErrOrString(t types.Type) bool {
	for _, n := range []string{"Error", "String"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, n); o != nil {
			if _, ok := o.(*types.Func); ok {
				return true
			}
		}
	}
	return false
}

func (ex *Exec) sprintf(st *State, format string, args []Value) Str {
	out := Str{}
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			out = ex.strCat(out, Str{s: format[i:j]})
			i = j - 1
			continue
		}
		i++
		zero, plus, sharp, width := false, false, false, 0
		for i < len(format) && strings.IndexByte("+-# 0", format[i]) >= 0 {
			if format[i] == '0' {
				zero = true
			}
			if format[i] == '+' {
				plus = true
			}
			if format[i] == '#' {
				sharp = true
			}
			i++
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			out = ex.strCat(out, Str{s: "%"})
			continue
		}
		if k >= len(args) {
			out = ex.strCat(out, Str{s: "%!" + string(format[i]) + "(MISSING)"})
			continue
		}
		var s Str
		switch {
		case format[i] == 'T':
			s = Str{s: "<nil>"}
			if a := args[k].(Iface); a.typ != nil {
				s.s = rtypeStr(a.typ)
			}
		case sharp && format[i] == 'v':
			s = ex.fmtSharp(st, args[k].(Iface))
		default:
			s = ex.fmtVal(st, args[k], format[i], width, zero, plus)
		}
		k++
		for pad := width - s.Len(); pad > 0; pad-- {
			s = ex.strCat(Str{s: " "}, s)
		}
		out = ex.strCat(out, s)
	}
	return out
}

func addFmt(m map[string]intrinsic) {
	va := func(ex *Exec, st *State, v Value) []Value { return ex.sliceElems(st, v.(Slice)) }
	m["fmt.Sprintf"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		return ex.sprintf(st, argS(ex, c, 0), va(ex, st, c.args[1])), actRet
	}
	sprint := func(ex *Exec, st *State, as []Value) Str {
		out := Str{}
		for i, a := range as {
			if i > 0 {
				sx, ok1 := as[i-1].(Iface)
				sy, ok2 := a.(Iface)
				if ok1 && ok2 && sx.typ != nil && sy.typ != nil && !isString(sx.typ) && !isString(sy.typ) {
					out = ex.strCat(out, Str{s: " "})
				}
			}
			out = ex.strCat(out, ex.fmtVal(st, a, 'v', 0, false, false))
		}
		return out
	}
	m["fmt.Sprint"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		return sprint(ex, st, va(ex, st, c.args[0])), actRet
	}
	m["fmt.Sprintln"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		panic(unsupported("fmt.Sprintln"))
	}
	m["fmt.Errorf"] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
		f := argS(ex, c, 0)
		if strings.Contains(f, "%w") {
			we := ex.P.byPath["fmt"].Type("wrapError")
			as := va(ex, st, c.args[1])
			var wrapped Value
			n := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] == '%' {
					if f[i+1] == 'w' && n < len(as) {
						wrapped = as[n]
					}
					n++
					i++
				}
			}
			id := st.alloc(&Agg{e: []Value{Str{s: f}, wrapped}}, nil)
			return Iface{typ: ex.P.canon(types.NewPointer(we.Type())), v: Ptr{obj: id}}, actRet
		}
		s := ex.sprintf(st, f, va(ex, st, c.args[1]))
		es := ex.P.byPath["errors"].Type("errorString")
		id := st.alloc(&Agg{e: []Value{s}}, nil)
		return Iface{typ: ex.P.canon(types.NewPointer(es.Type())), v: Ptr{obj: id}}, actRet
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		m[n] = func(ex *Exec, st *State, c *callCtx) (Value, act) {
			return Tuple{ex.tc.Const(0, 64), Iface{}}, actRet
		}
	}
}
