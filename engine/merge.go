package main

import (
	"golang.org/x/tools/go/ssa"
)

// mergeSite keeps statistics per branch to stop merging where it never works.
type mergeSite struct{ ok, fail, tried int }

// mergeBranch executes both sides of a symbolic branch up to its immediate
// post-dominator (or the return of the function) and merges the resulting
// states into one whenever their shapes agree.  Returns false when the caller
// should fork in the ordinary way.
func (ex *Exec) mergeBranch(st *State, f *Frame, x *ssa.If, c *Term) bool {
	if st.known(ex.tc, c) != 0 {
		return false
	}
	g := st.gs[st.cur]
	if len(g.frames) < 1 || g.pan != nil || ex.mdepth > 60 {
		return false
	}
	site := ex.msites[x]
	if site == nil {
		site = &mergeSite{}
		ex.msites[x] = site
	}
	if site.ok == 0 && site.fail >= 2 || site.fail > 20 && site.fail > 3*site.ok {
		return false
	}
	pd := f.fi.postDom(f.block)
	if pd == -2 {
		return false
	}
	// both sides feasible?
	nc := ex.tc.Not(c)
	side := func(t *Term) (Res, *Model) {
		if st.model != nil && st.model.Eval(t) == 1 {
			return Sat, st.model
		}
		r, m := ex.checkPC(st, t)
		if r == Sat && st.model == nil {
			r, m = ex.fullModel(st, t, m)
		}
		return r, m
	}
	ra, ma := side(c)
	if ra == Unsat {
		st.addFact(nc)
		return false
	}
	rb, mb := side(nc)
	if rb == Unsat {
		st.addFact(c)
		return false
	}
	if ra != Sat || rb != Sat {
		return false
	}
	stop := &stopPt{g: st.cur, depth: len(g.frames)}
	if pd >= 0 {
		stop.block = f.fn.Blocks[pd]
	}
	if pd == -1 && len(g.frames) == 1 {
		return false
	}
	base := st.pc
	baseN := 0
	if base != nil {
		baseN = base.n
	}
	a := st.fork()
	b := st.fork()
	a.addPC(c)
	a.model = ma
	b.addPC(nc)
	b.model = mb
	saved := ex.work
	ex.mdepth++
	var got, other []*State
	run := func(s *State, succ int) {
		ex.work = nil
		if !ex.guard(s, func() {
			fr := s.top()
			ex.jump(s, fr, fr.block.Succs[succ])
		}) {
			return
		}
		ex.work = []*State{s}
		first := true
		for len(ex.work) > 0 {
			w := ex.work[len(ex.work)-1]
			ex.work = ex.work[:len(ex.work)-1]
			if first && stop.hit(w) {
				first = false
				got = append(got, w)
				continue
			}
			first = false
			switch ex.runLocal(w, stop) {
			case rStop:
				got = append(got, w)
			case rEnd:
			default:
				other = append(other, w)
			}
			if len(got)+len(other) > 256 {
				other = append(other, ex.work...)
				ex.work = nil
			}
		}
	}
	run(a, 0)
	run(b, 1)
	ex.mdepth--
	ex.work = saved
	site.tried++
	// merge greedily
	var res []*State
	for _, s := range got {
		merged := false
		for i, r := range res {
			if m := ex.mergeStates(r, s, base, baseN, stop); m != nil {
				res[i] = m
				merged = true
				ex.st.Merges++
				break
			}
		}
		if !merged {
			res = append(res, s)
		}
	}
	if len(got) > 1 {
		if len(res) == 1 {
			site.ok++
		} else {
			site.fail++
			ex.st.MergeFail++
		}
	}
	res = append(res, other...)
	if len(res) == 0 {
		panic(killPath{"merged-away"})
	}
	for _, r := range res[1:] {
		ex.push(r)
	}
	n := *res[0]
	*st = n
	if res[0].parked || len(other) > 0 && res[0] == other[0] {
		// ended goroutine or parked state: continue in the main loop
	}
	return true
}

// suffix returns the conjunction of the conditions added since base.
func (ex *Exec) suffix(s *State, baseN int) *Term {
	t := ex.tc.tru
	for p := s.pc; p != nil && p.n > baseN; p = p.up {
		if !p.implied {
			t = ex.tc.And(p.cond, t)
		}
	}
	return t
}

type noMerge struct{}

func (ex *Exec) mergeStates(a, b *State, base *PC, baseN int, stop *stopPt) (out *State) {
	if len(a.gs) != len(b.gs) || a.multi || b.multi || a.cur != b.cur || a.draws != b.draws || a.aes != b.aes || a.obs != b.obs || a.nch != b.nch || a.clock != b.clock || a.expect != b.expect || a.leakOK != b.leakOK {
		return nil
	}
	ga, gb := a.gs[a.cur], b.gs[b.cur]
	if len(ga.frames) != len(gb.frames) || ga.pan != nil || gb.pan != nil || ga.done != gb.done {
		return nil
	}
	if len(a.tags) != len(b.tags) {
		return nil
	}
	for k := range a.tags {
		if !b.tags[k] {
			return nil
		}
	}
	for i := range ga.frames {
		fa, fb := ga.frames[i], gb.frames[i]
		if fa == fb {
			continue
		}
		if fa.fn != fb.fn || fa.block != fb.block || fa.pc != fb.pc || len(fa.defers) != len(fb.defers) || fa.running != fb.running || fa.unwinding != fb.unwinding || fa.recov != fb.recov || fa.isDefer != fb.isDefer || fa.dst != fb.dst || fa.vop != nil || fb.vop != nil {
			return nil
		}
		for k := range fa.defers {
			if fa.defers[k] != fb.defers[k] {
				return nil
			}
		}
		if (fa.onRet == nil) != (fb.onRet == nil) {
			return nil
		}
	}
	sa, sb := ex.suffix(a, baseN), ex.suffix(b, baseN)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(noMerge); ok {
				out = nil
				return
			}
			panic(r)
		}
	}()
	mg := &merger{ex: ex, c: sa}
	n := a.fork()
	// frames
	g := n.G()
	for i := range ga.frames {
		fa, fb := ga.frames[i], gb.frames[i]
		if fa == fb {
			continue
		}
		nf := n.wframe(g, i)
		var live map[int32]bool
		top := i == len(ga.frames)-1
		if top && stop.block != nil && fa.block == stop.block && fa.pc == phiCount(stop.block) {
			live = fa.fi.liveIn(fa.block.Index)
		}
		for r := range fa.regs {
			x, y := fa.regs[r], fb.regs[r]
			if sameVal(x, y) {
				continue
			}
			if live != nil && !live[int32(r)] {
				nf.regs[r] = nil
				continue
			}
			if live == nil && !ex.liveAt(fa, int32(r)) {
				nf.regs[r] = nil
				continue
			}
			nf.regs[r] = mg.val(x, y)
		}
		if fb.unw != nil {
			if nf.unw == nil {
				nf.unw = make([]int32, len(fb.unw))
			}
			for k := range fb.unw {
				if fb.unw[k] > nf.unw[k] {
					nf.unw[k] = fb.unw[k]
				}
			}
		}
	}
	// heap
	hn := len(b.heap.chunks)
	if len(a.heap.chunks) > hn {
		hn = len(a.heap.chunks)
	}
	for ci := 0; ci < hn; ci++ {
		var ca, cb *chunk
		if ci < len(a.heap.chunks) {
			ca = a.heap.chunks[ci]
		}
		if ci < len(b.heap.chunks) {
			cb = b.heap.chunks[ci]
		}
		if ca == cb || cb == nil {
			continue
		}
		for k := 0; k < chunkN; k++ {
			var oa, ob *Obj
			if ca != nil {
				oa = ca.objs[k]
			}
			ob = cb.objs[k]
			if oa == ob || ob == nil {
				continue
			}
			id := ci*chunkN + k
			if oa == nil {
				if id <= ex.P.nGlob {
					// global materialised on one side only: zero on the other
					oa = n.getObj(ex, id)
				} else {
					n.setObj(id, ob.clone(n.own))
					continue
				}
			}
			if sameVal(oa.v, ob.v) {
				continue
			}
			v := mg.obj(oa.v, ob.v)
			w := n.getWObj(ex, id)
			w.v = v
		}
	}
	if b.heap.next > n.heap.next {
		n.heap.next = b.heap.next
	}
	if b.steps > n.steps {
		n.steps = b.steps
	}
	if b.nconc > n.nconc {
		n.nconc = b.nconc
	}
	n.weight = a.weight + b.weight
	if n.weight > 1<<40 {
		n.weight = 1 << 40
	}
	n.pc = base
	n.addPC(ex.tc.Or(sa, sb))
	return n
}

// liveAt is a conservative liveness test for suspended frames.
func (ex *Exec) liveAt(f *Frame, r int32) bool {
	for _, s := range f.block.Succs {
		if f.fi.liveIn(s.Index)[r] {
			return true
		}
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for _, e := range ph.Edges {
				if i, ok := f.fi.idx[e]; ok && i == r {
					return true
				}
			}
		}
	}
	var ops []*ssa.Value
	for k := f.pc; k < len(f.block.Instrs); k++ {
		ops = f.block.Instrs[k].Operands(ops[:0])
		for _, o := range ops {
			if *o != nil {
				if i, ok := f.fi.idx[*o]; ok && i == r {
					return true
				}
			}
		}
	}
	if f.fn.Recover != nil && f.fi.liveIn(f.fn.Recover.Index)[r] {
		return true
	}
	return false
}

func sameVal(x, y Value) bool {
	switch a := x.(type) {
	case nil:
		return y == nil
	case *Term:
		b, ok := y.(*Term)
		return ok && a == b
	case *Agg:
		b, ok := y.(*Agg)
		if !ok || len(a.e) != len(b.e) {
			return false
		}
		if a == b {
			return true
		}
		for i := range a.e {
			if !sameVal(a.e[i], b.e[i]) {
				return false
			}
		}
		return true
	case Ptr:
		b, ok := y.(Ptr)
		return ok && ptrEq(a, b)
	case Str:
		b, ok := y.(Str)
		if !ok || (a.t == nil) != (b.t == nil) {
			return false
		}
		if a.t == nil {
			return a.s == b.s
		}
		if len(a.t) != len(b.t) {
			return false
		}
		for i := range a.t {
			if a.t[i] != b.t[i] {
				return false
			}
		}
		return true
	case Slice:
		b, ok := y.(Slice)
		return ok && a.arr == b.arr && a.off == b.off && a.n == b.n && a.cap == b.cap && pathEq(a.path, b.path)
	case Iface:
		b, ok := y.(Iface)
		return ok && a.typ == b.typ && (a.typ == nil || sameVal(a.v, b.v))
	case *Closure:
		b, ok := y.(*Closure)
		if !ok {
			return false
		}
		if a == b {
			return true
		}
		if a == nil || b == nil || a.fn != b.fn || a.bltn != b.bltn || len(a.free) != len(b.free) {
			return false
		}
		for i := range a.free {
			if !sameVal(a.free[i], b.free[i]) {
				return false
			}
		}
		return true
	case MapRef:
		b, ok := y.(MapRef)
		return ok && a == b
	case ChanRef:
		b, ok := y.(ChanRef)
		return ok && a == b
	case Tuple:
		b, ok := y.(Tuple)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameVal(a[i], b[i]) {
				return false
			}
		}
		return true
	case *Iter:
		b, ok := y.(*Iter)
		if !ok {
			return false
		}
		if a == b {
			return true
		}
		if a.pos != b.pos || a.mp != b.mp || len(a.keys) != len(b.keys) || (a.str == nil) != (b.str == nil) {
			return false
		}
		for i := range a.keys {
			if a.keys[i] != b.keys[i] {
				return false
			}
		}
		return a.str == nil || sameVal(*a.str, *b.str)
	case *MapObj:
		b, ok := y.(*MapObj)
		if !ok {
			return false
		}
		if a == b {
			return true
		}
		if a.next != b.next || len(a.ents) != len(b.ents) {
			return false
		}
		for i := range a.ents {
			if a.ents[i].seq != b.ents[i].seq || !sameVal(a.ents[i].k, b.ents[i].k) || !sameVal(a.ents[i].v, b.ents[i].v) {
				return false
			}
		}
		return true
	case *ChanObj:
		b, ok := y.(*ChanObj)
		if !ok {
			return false
		}
		if a == b {
			return true
		}
		if a.closed != b.closed || len(a.buf) != len(b.buf) || a.cap != b.cap {
			return false
		}
		for i := range a.buf {
			if !sameVal(a.buf[i], b.buf[i]) {
				return false
			}
		}
		return true
	}
	return false
}

type merger struct {
	ex *Exec
	c  *Term
}

func (m *merger) obj(a, b Value) Value {
	switch x := a.(type) {
	case *MapObj:
		y, ok := b.(*MapObj)
		if !ok || x.next != y.next || len(x.ents) != len(y.ents) || x.nsym != y.nsym {
			panic(noMerge{})
		}
		n := &MapObj{next: x.next, nsym: x.nsym, conc: map[string]int{}}
		for k, v := range x.conc {
			n.conc[k] = v
		}
		for i := range x.ents {
			if x.ents[i].seq != y.ents[i].seq || !sameVal(x.ents[i].k, y.ents[i].k) {
				panic(noMerge{})
			}
			e := x.ents[i]
			e.v = m.val(x.ents[i].v, y.ents[i].v)
			n.ents = append(n.ents, e)
		}
		return n
	case *ChanObj:
		y, ok := b.(*ChanObj)
		if !ok || x.closed != y.closed || x.cap != y.cap || len(x.buf) != len(y.buf) || len(x.recvVC) != len(y.recvVC) {
			panic(noMerge{})
		}
		n := *x
		n.buf = nil
		for i := range x.buf {
			n.buf = append(n.buf, m.val(x.buf[i], y.buf[i]))
		}
		return &n
	}
	return m.val(a, b)
}

func (m *merger) val(a, b Value) Value {
	if sameVal(a, b) {
		return a
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			panic(noMerge{})
		}
		return m.ex.tc.Ite(m.c, x, y)
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.e) != len(y.e) {
			panic(noMerge{})
		}
		n := &Agg{e: make([]Value, len(x.e))}
		for i := range x.e {
			n.e[i] = copyVal(m.val(x.e[i], y.e[i]))
		}
		return n
	case Str:
		y, ok := b.(Str)
		if !ok || x.Len() != y.Len() || x.Len() > 64 {
			panic(noMerge{})
		}
		bx, by := m.ex.strBytes(x), m.ex.strBytes(y)
		t := make([]*Term, len(bx))
		for i := range bx {
			t[i] = m.ex.tc.Ite(m.c, bx[i], by[i])
		}
		return m.ex.mkStr(t)
	case Iface:
		y, ok := b.(Iface)
		if !ok || x.typ != y.typ || x.typ == nil {
			panic(noMerge{})
		}
		return Iface{typ: x.typ, v: m.val(x.v, y.v)}
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			panic(noMerge{})
		}
		n := make(Tuple, len(x))
		for i := range x {
			n[i] = m.val(x[i], y[i])
		}
		return n
	case Ptr:
		y, ok := b.(Ptr)
		// pointers into the same scalar array at different positions
		if ok && x.obj == y.obj && x.obj != 0 && x.sym == nil && y.sym == nil {
			panic(noMerge{})
		}
	}
	panic(noMerge{})
}
