package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, Ptr, Str, Slice, Iface, *Closure (nil func = (*Closure)(nil)),
// MapRef, ChanRef, *Agg (struct/array), Tuple, *Iter, nil (dead / unset).
type Value interface{}

type Ptr struct {
	obj  int
	path []int32
	sym  *Term // symbolic last index into the array at path (elements scalar), or nil
}

func (p Ptr) isNil() bool { return p.obj == 0 }

type Str struct {
	s string
	t []*Term // nil => concrete
}

func (s Str) Len() int {
	if s.t != nil {
		return len(s.t)
	}
	return len(s.s)
}

type Slice struct {
	arr  int // object id of backing array; 0 = nil slice
	path []int32
	off  int
	n    int
	cap  int
}

type Iface struct {
	typ types.Type // nil = nil interface
	v   Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
	bltn *ssa.Builtin
}

type MapRef struct{ obj int }
type ChanRef struct{ obj int }

type Agg struct{ e []Value }

type Tuple []Value

type Iter struct {
	str  *Str
	pos  int
	mp   int   // map object
	keys []int // entry sequence numbers already visited
	done bool
}

type MapEnt struct {
	seq int
	k   Value
	v   Value
}

type MapObj struct {
	ents []MapEnt
	next int
	// index of concrete-key entries by key string; only valid if allConc
	conc map[string]int
	nsym int
}

type ChanObj struct {
	buf     []Value
	cap     int
	closed  bool
	bufVC   []VC // clock of each buffered element
	recvVC  []VC // clocks of past receives (for capacity HB)
	closeVC VC
}

type VC []int32

type syncVC struct {
	path []int32
	vc   VC
}

type access struct {
	path  []int32
	g     int
	clk   int32
	write bool
	pos   string
	sym   *Term // a read at this index of the n elements from lo of the array at path
	lo, n int
}

func typeStr(t types.Type) string { return types.TypeString(t, nil) }

// ---- heap ----

type owner struct{ _ int }

type Obj struct {
	own    *owner
	v      Value // cell content: Value, or *MapObj, *ChanObj
	shadow []access
	svc    []syncVC
	typ    types.Type // static elem type when known
	norace bool
}

const chunkN = 64

type chunk struct {
	own  *owner
	objs [chunkN]*Obj
}

type Heap struct {
	chunks []*chunk
	next   int
}

func (h *Heap) get(id int) *Obj {
	c := id / chunkN
	if c >= len(h.chunks) || h.chunks[c] == nil {
		return nil
	}
	return h.chunks[c].objs[id%chunkN]
}

func copyVal(v Value) Value {
	if a, ok := v.(*Agg); ok {
		n := &Agg{e: make([]Value, len(a.e))}
		for i, x := range a.e {
			if y, ok := x.(*Agg); ok {
				n.e[i] = copyVal(y)
			} else {
				n.e[i] = x
			}
		}
		return n
	}
	return v
}

func (o *Obj) clone(own *owner) *Obj {
	n := &Obj{own: own, typ: o.typ, norace: o.norace}
	switch v := o.v.(type) {
	case *Agg:
		n.v = copyVal(v)
	case *MapObj:
		m := &MapObj{next: v.next, nsym: v.nsym, ents: append([]MapEnt(nil), v.ents...)}
		if v.conc != nil {
			m.conc = make(map[string]int, len(v.conc))
			for k, x := range v.conc {
				m.conc[k] = x
			}
		}
		n.v = m
	case *ChanObj:
		c := *v
		c.buf = append([]Value(nil), v.buf...)
		c.bufVC = append([]VC(nil), v.bufVC...)
		c.recvVC = append([]VC(nil), v.recvVC...)
		n.v = &c
	default:
		n.v = v
	}
	n.shadow = append([]access(nil), o.shadow...)
	n.svc = append([]syncVC(nil), o.svc...)
	return n
}

func (st *State) obj(id int) *Obj { return st.heap.get(id) }

// wobj returns the object for writing.
func (st *State) wobj(id int) *Obj {
	ci := id / chunkN
	h := &st.heap
	for ci >= len(h.chunks) {
		h.chunks = append(h.chunks, nil)
	}
	c := h.chunks[ci]
	if c == nil {
		c = &chunk{own: st.own}
		h.chunks[ci] = c
	} else if c.own != st.own {
		nc := *c
		nc.own = st.own
		c = &nc
		h.chunks[ci] = c
	}
	o := c.objs[id%chunkN]
	if o == nil {
		return nil
	}
	if o.own != st.own {
		o = o.clone(st.own)
		c.objs[id%chunkN] = o
	}
	return o
}

func (st *State) setObj(id int, o *Obj) {
	st.wobj(id)
	o.own = st.own
	st.heap.chunks[id/chunkN].objs[id%chunkN] = o
}

func (st *State) alloc(v Value, t types.Type) int {
	id := st.heap.next
	st.heap.next++
	st.setObj(id, &Obj{v: v, typ: t})
	return id
}

// ---- helpers ----

func (ex *Exec) cStr(s string) Str { return Str{s: s} }

func (ex *Exec) strBytes(s Str) []*Term {
	if s.t != nil {
		return s.t
	}
	r := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i] = ex.tc.Const(uint64(s.s[i]), 8)
	}
	return r
}

func (ex *Exec) mkStr(b []*Term) Str {
	conc := true
	for _, t := range b {
		if t.op != OConst {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, t := range b {
			bs[i] = byte(t.val)
		}
		return Str{s: string(bs)}
	}
	return Str{t: append([]*Term(nil), b...)}
}

func ptrEq(a, b Ptr) bool {
	if a.obj != b.obj || len(a.path) != len(b.path) || a.sym != b.sym {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

func extPath(p []int32, i int) []int32 {
	n := make([]int32, len(p)+1)
	copy(n, p)
	n[len(p)] = int32(i)
	return n
}

func (ex *Exec) show(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case *Term:
		return ex.showTerm(x, 3)
	case Str:
		if x.t == nil {
			return fmt.Sprintf("%q", x.s)
		}
		return fmt.Sprintf("symstr(%d)", len(x.t))
	case Ptr:
		return fmt.Sprintf("&%d%v", x.obj, x.path)
	case Slice:
		return fmt.Sprintf("slice(%d,%d,%d,%d)", x.arr, x.off, x.n, x.cap)
	case Iface:
		if x.typ == nil {
			return "nil-iface"
		}
		return "iface(" + typeStr(x.typ) + "," + ex.show(x.v) + ")"
	case *Closure:
		if x == nil {
			return "nil-func"
		}
		return x.fn.String()
	case *Agg:
		var sb strings.Builder
		sb.WriteString("{")
		for i, e := range x.e {
			if i > 0 {
				sb.WriteString(" ")
			}
			if i > 8 {
				sb.WriteString("...")
				break
			}
			sb.WriteString(ex.show(e))
		}
		sb.WriteString("}")
		return sb.String()
	case Tuple:
		var sb strings.Builder
		for _, e := range x {
			sb.WriteString(ex.show(e) + ",")
		}
		return sb.String()
	}
	return fmt.Sprintf("%T", v)
}

func (ex *Exec) showTerm(t *Term, d int) string {
	if t.op == OConst {
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprint(sx(t.val, t.w))
	}
	if t.op == OVar {
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("t%d", t.id)
	}
	s := "(" + opn[t.op]
	if s == "(" {
		s = fmt.Sprintf("(op%d", t.op)
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + ex.showTerm(x, d-1)
		}
	}
	return s + ")"
}
