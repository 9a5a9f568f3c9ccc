package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- visible operations ----

type keyAcc struct {
	k string
	w bool
}

type chCase struct {
	send bool
	obj  int
	val  Value
	et   types.Type
}

// VOp is a pending visible operation of a goroutine (top pseudo frame).
type VOp struct {
	kind    string
	keys    []keyAcc
	enabled func(ex *Exec, st *State) bool
	run     func(ex *Exec, st *State) (Value, act)
	cases   []chCase
	isCh    bool
	def     bool
	sel     bool
	commaOk bool
	quiesce bool
	pos     token.Pos
}

type variant struct{ ci, q, qc int }

type SchedStep struct {
	G, Q int
	C    int
	QC   int
	Kind string
	Pos  string
}

// step is a scheduling step as the native replay counts them: goroutines by
// their go statement in rewritten source, points in rewritten source only.
func (ex *Exec) schedStep(s *State, p int, op *VOp, v variant) (st SchedStep, rec bool) {
	g := s.gs[p]
	if g.inst < 0 {
		return
	}
	if s.ninst == 0 {
		return
	}
	ok := false
	switch op.kind {
	case "sync", "yield", "quiesce":
		ok = true
	default:
		n := len(g.frames) - 2
		for n >= 0 && ex.P.inAtomic(g.frames[n].fn) {
			n-- // the typed atomics call the plain functions
		}
		ok = n < 0 || ex.P.instrumented(g.frames[n].fn)
	}
	if !ok {
		return
	}
	st = SchedStep{G: g.inst, Q: -1, C: v.ci, QC: -1, Kind: op.kind, Pos: posOf(ex.P.prog, op.pos)}
	if v.q >= 0 {
		if q := s.gs[v.q].inst; q >= 0 {
			st.Q, st.QC = q, v.qc
		}
	}
	return st, true
}

func okey(obj int, path []int32) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", obj)
	for _, p := range path {
		fmt.Fprintf(&sb, ".%d", p)
	}
	return sb.String()
}

// vis performs op now (single goroutine) or parks the goroutine on it.
// adv is called once the instruction is committed (to advance the pc).
func (ex *Exec) vis(st *State, op *VOp, dst int32, isDefer bool, adv func(*State)) (Value, act) {
	if !st.multi {
		vs := ex.variants(st, st.cur, op)
		if len(vs) == 0 {
			ex.deadlock(st, op.kind, op.pos)
		}
		c := 0
		if len(vs) > 1 {
			c = ex.choose(st, len(vs))
		}
		if !op.isCh {
			return op.run(ex, st)
		}
		return ex.chanExec(st, st.cur, op, vs[c], func() {
			if adv != nil {
				adv(st)
			}
		}, false)
	}
	if adv != nil {
		adv(st)
	}
	g := st.G()
	g.frames = append(g.frames, &Frame{own: st.own, vop: op, dst: dst, isDefer: isDefer})
	return nil, actPushed
}

func (ex *Exec) deadlock(st *State, what string, pos token.Pos) {
	if st.expect != "deadlock" {
		ex.violation(st, "deadlock", "all goroutines are asleep - deadlock ("+what+")", pos, nil)
	}
	panic(killPath{"deadlock"})
}

func (ex *Exec) execSingle(st *State) bool {
	panic(unsupported("pending operation in single mode"))
}

// topOp returns the pending op of goroutine gi, or nil.
func topOp(st *State, gi int) *VOp {
	g := st.gs[gi]
	if g.done || len(g.frames) == 0 {
		return nil
	}
	return g.frames[len(g.frames)-1].vop
}

func (ex *Exec) variants(st *State, gi int, op *VOp) []variant {
	if op == nil || op.quiesce && st.multi {
		return nil
	}
	if op.quiesce {
		return []variant{{-1, -1, -1}}
	}
	if !op.isCh {
		if op.enabled == nil || op.enabled(ex, st) {
			return []variant{{-1, -1, -1}}
		}
		return nil
	}
	var out []variant
	definitive := false
	for ci, c := range op.cases {
		if c.obj == 0 {
			continue
		}
		ch := st.getObj(ex, c.obj).v.(*ChanObj)
		if c.send {
			if ch.closed || len(ch.buf) < ch.cap {
				out = append(out, variant{ci, -1, -1})
				definitive = true
				continue
			}
			if ch.cap == 0 {
				for q := range st.gs {
					if q == gi {
						continue
					}
					qo := topOp(st, q)
					if qo == nil || !qo.isCh || qo.def {
						continue
					}
					for qc, k := range qo.cases {
						if !k.send && k.obj == c.obj {
							out = append(out, variant{ci, q, qc})
						}
					}
				}
			}
			continue
		}
		if len(ch.buf) > 0 || ch.closed {
			out = append(out, variant{ci, -1, -1})
			definitive = true
			continue
		}
		if ch.cap == 0 && op.def {
			for q := range st.gs {
				if q == gi {
					continue
				}
				qo := topOp(st, q)
				if qo == nil || !qo.isCh || qo.def {
					continue
				}
				for qc, k := range qo.cases {
					if k.send && k.obj == c.obj {
						out = append(out, variant{ci, q, qc})
					}
				}
			}
		}
	}
	if op.def && !definitive {
		out = append(out, variant{-1, -1, -1})
	}
	return out
}

func (ex *Exec) chResult(op *VOp, ci int, v Value, ok bool) Value {
	if op.sel {
		t := Tuple{ex.tc.Const(uint64(int64(ci)), 64), ex.tc.Bool(ok)}
		for i, c := range op.cases {
			if !c.send {
				if i == ci {
					t = append(t, v)
				} else {
					t = append(t, ex.zero(c.et))
				}
			}
		}
		return t
	}
	if op.cases[ci].send {
		return nil
	}
	if op.commaOk {
		return Tuple{v, ex.tc.Bool(ok)}
	}
	return v
}

// chanExec performs channel operation variant v of goroutine gi.  The pending
// frames of the goroutines involved are popped and results delivered when
// parked is true; otherwise the result is returned.
func (ex *Exec) chanExec(st *State, gi int, op *VOp, v variant, adv func(), parked bool) (Value, act) {
	fin := func(res Value) (Value, act) {
		if !parked {
			if adv != nil {
				adv()
			}
			return res, actRet
		}
		return res, actRet
	}
	if v.ci < 0 {
		return fin(ex.chResult(op, -1, nil, false))
	}
	c := op.cases[v.ci]
	if v.q >= 0 {
		qo := topOp(st, v.q)
		var val Value
		if c.send {
			val = c.val
		} else {
			val = qo.cases[v.qc].val
		}
		// synchronise both ways
		a, b := st.g(gi), st.g(v.q)
		j := joinVC(a.vc, b.vc)
		a.vc = append(VC(nil), j...)
		b.vc = append(VC(nil), j...)
		tick(a)
		tick(b)
		var rp, rq Value
		if c.send {
			rp = ex.chResult(op, v.ci, nil, false)
			rq = ex.chResult(qo, v.qc, copyVal(val), true)
		} else {
			rp = ex.chResult(op, v.ci, copyVal(val), true)
			rq = ex.chResult(qo, v.qc, nil, false)
		}
		cur := st.cur
		ex.deliver(st, v.q, rq)
		st.cur = cur
		return fin(rp)
	}
	ch := st.getWObj(ex, c.obj).v.(*ChanObj)
	g := st.g(gi)
	if c.send {
		if ch.closed {
			return nil, ex.startPanic(st, ex.plainErr(st, "send on closed channel"), "send on closed channel", op.pos)
		}
		if st.multi {
			n := len(ch.recvVC)
			sent := len(ch.buf) + n
			if k := sent - ch.cap; k >= 0 && k < n {
				g.vc = joinVC(g.vc, ch.recvVC[k])
			}
			ch.bufVC = append(ch.bufVC, append(VC(nil), g.vc...))
			tick(g)
		} else {
			ch.bufVC = append(ch.bufVC, nil)
		}
		ch.buf = append(ch.buf, copyVal(c.val))
		return fin(ex.chResult(op, v.ci, nil, false))
	}
	if len(ch.buf) > 0 {
		val := ch.buf[0]
		ch.buf = append([]Value(nil), ch.buf[1:]...)
		bv := ch.bufVC[0]
		ch.bufVC = append([]VC(nil), ch.bufVC[1:]...)
		if st.multi {
			g.vc = joinVC(g.vc, bv)
			ch.recvVC = append(ch.recvVC, append(VC(nil), g.vc...))
			tick(g)
		} else {
			ch.recvVC = append(ch.recvVC, nil)
		}
		return fin(ex.chResult(op, v.ci, val, true))
	}
	if st.multi {
		g.vc = joinVC(g.vc, ch.closeVC)
	}
	return fin(ex.chResult(op, v.ci, ex.zero(c.et), false))
}

func (ex *Exec) plainErr(st *State, msg string) Value {
	if ex.P.rtErr != nil {
		return Iface{typ: ex.P.rtErr, v: Str{s: msg}}
	}
	return Iface{typ: types.Typ[types.String], v: Str{s: msg}}
}

// deliver pops the pseudo frame of gi and hands over the result.
func (ex *Exec) deliver(st *State, gi int, res Value) {
	st.cur = gi
	g := st.G()
	f := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		return
	}
	b := st.wframe(g, len(g.frames)-1)
	if f.isDefer {
		ex.afterDefer(st, g, b)
		return
	}
	if b.fn != nil {
		ex.setReg(b, f.dst, res)
	}
}

// ---- instructions ----

func chanElem(t types.Type) types.Type { return under(t).(*types.Chan).Elem() }

func (ex *Exec) advance(n int) func(*State) {
	return func(st *State) {
		g := st.G()
		f := st.wframe(g, n)
		f.pc++
	}
}

func (ex *Exec) chanSend(st *State, f *Frame, x *ssa.Send) {
	c := ex.val(f, x.Chan).(ChanRef)
	op := &VOp{kind: "send", isCh: true, pos: x.Pos(), cases: []chCase{{send: true, obj: c.obj, val: copyVal(ex.val(f, x.X)), et: chanElem(x.Chan.Type())}}}
	op.keys = []keyAcc{{okey(c.obj, nil), true}}
	ex.vis(st, op, -1, false, ex.advance(len(st.G().frames)-1))
}

func (ex *Exec) chanRecv(st *State, f *Frame, x *ssa.UnOp) (Value, act) {
	c := ex.val(f, x.X).(ChanRef)
	op := &VOp{kind: "recv", isCh: true, commaOk: x.CommaOk, pos: x.Pos(), cases: []chCase{{obj: c.obj, et: chanElem(x.X.Type())}}}
	op.keys = []keyAcc{{okey(c.obj, nil), true}}
	if st.multi {
		return ex.vis(st, op, f.fi.idx[x], false, ex.advance(len(st.G().frames)-1))
	}
	return ex.vis(st, op, f.fi.idx[x], false, nil)
}

func (ex *Exec) selectInstr(st *State, f *Frame, x *ssa.Select) (Value, act) {
	op := &VOp{kind: "select", isCh: true, sel: true, def: !x.Blocking, pos: x.Pos()}
	for _, s := range x.States {
		c := ex.val(f, s.Chan).(ChanRef)
		k := chCase{send: s.Dir == types.SendOnly, obj: c.obj, et: chanElem(s.Chan.Type())}
		if k.send {
			k.val = copyVal(ex.val(f, s.Send))
		}
		op.cases = append(op.cases, k)
		if c.obj != 0 {
			op.keys = append(op.keys, keyAcc{okey(c.obj, nil), true})
		}
	}
	if st.multi {
		return ex.vis(st, op, f.fi.idx[x], false, ex.advance(len(st.G().frames)-1))
	}
	return ex.vis(st, op, f.fi.idx[x], false, nil)
}

// chanClose is reached from the builtin; the caller (step) advances the pc.
func (ex *Exec) chanClose(st *State, c ChanRef, pos token.Pos) (Value, act) {
	if c.obj == 0 {
		return nil, ex.startPanic(st, ex.plainErr(st, "close of nil channel"), "close of nil channel", pos)
	}
	run := func(ex *Exec, st *State) (Value, act) {
		ch := st.getWObj(ex, c.obj).v.(*ChanObj)
		if ch.closed {
			return nil, ex.startPanic(st, ex.plainErr(st, "close of closed channel"), "close of closed channel", pos)
		}
		ch.closed = true
		if st.multi {
			g := st.G()
			ch.closeVC = append(VC(nil), g.vc...)
			tick(g)
		}
		return nil, actRet
	}
	op := &VOp{kind: "close", keys: []keyAcc{{okey(c.obj, nil), true}}, run: run, pos: pos}
	return ex.vis(st, op, -1, ex.inDefer, nil)
}

func (ex *Exec) spawn(st *State, cl *Closure, args []Value, pos token.Pos) {
	parent := st.G()
	if !st.multi {
		st.multi = true
		if len(parent.vc) == 0 {
			parent.vc = VC{1}
		}
	}
	id := len(st.gs)
	if id > 64 {
		ex.limit("goroutines")
	}
	vc := make(VC, id+1)
	copy(vc, parent.vc)
	vc[id] = 1
	g := &G{own: st.own, id: id, vc: vc, parent: st.cur, inst: -1}
	if n := len(parent.frames); n > 0 && ex.P.instrumented(parent.frames[n-1].fn) {
		st.ninst++
		g.inst = st.ninst
	}
	if cl.fn != nil {
		g.name = fmt.Sprintf("%d:%s", id, cl.fn.String())
	}
	st.gs = append(st.gs, g)
	tick(parent)
	cur := st.cur
	st.cur = id
	_, a := ex.call(st, cl, args, -1, pos, false)
	if a == actRet {
		st.G().done = true
	}
	st.cur = cur
}

// ---- vector clocks ----

func joinVC(a, b VC) VC {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make(VC, n)
	copy(r, a)
	for i, x := range b {
		if x > r[i] {
			r[i] = x
		}
	}
	return r
}

func tick(g *G) {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc = append(VC(nil), g.vc...)
	g.vc[g.id]++
}

func pathEq(a, b []int32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func tagged(p []int32, tag int32) []int32 {
	n := make([]int32, len(p)+1)
	copy(n, p)
	n[len(p)] = tag
	return n
}

func (ex *Exec) acquire(st *State, obj int, path []int32) {
	if !st.multi {
		return
	}
	o := st.getObj(ex, obj)
	for i := range o.svc {
		if pathEq(o.svc[i].path, path) {
			g := st.G()
			g.vc = joinVC(g.vc, o.svc[i].vc)
			return
		}
	}
}

func (ex *Exec) release(st *State, obj int, path []int32, join bool) {
	if !st.multi {
		return
	}
	o := st.getWObj(ex, obj)
	g := st.G()
	done := false
	for i := range o.svc {
		if pathEq(o.svc[i].path, path) {
			if join {
				o.svc[i].vc = joinVC(o.svc[i].vc, g.vc)
			} else {
				o.svc[i].vc = append(VC(nil), g.vc...)
			}
			done = true
		}
	}
	if !done {
		o.svc = append(o.svc, syncVC{path: append([]int32(nil), path...), vc: append(VC(nil), g.vc...)})
	}
	tick(g)
}

// ---- data races ----

func prefixOf(a, b []int32) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (ex *Exec) raceAccess(st *State, p Ptr, write bool, pos token.Pos) {
	if !ex.cfg.Race || p.obj <= 0 {
		return
	}
	path := p.path
	lo, cnt := 0, 0
	if p.sym != nil {
		// only reads (see symRead)
		lo, cnt = int(path[len(path)-2]), int(path[len(path)-1])
		path = path[:len(path)-2]
	}
	g := st.gs[st.cur]
	if g.quiet > 0 {
		return
	}
	o := st.getObj(ex, p.obj)
	if o.norace {
		return
	}
	idx := -1
	for i := range o.shadow {
		a := &o.shadow[i]
		if a.g == g.id {
			if a.write == write && a.sym == p.sym && pathEq(a.path, path) {
				idx = i
			}
			continue
		}
		if !a.write && !write {
			continue
		}
		if !prefixOf(a.path, path) {
			continue
		}
		if a.g < len(g.vc) && g.vc[a.g] >= a.clk {
			continue
		}
		if a.sym != nil && len(path) > len(a.path) {
			k := int(path[len(a.path)]) - a.lo
			if k < 0 || k >= a.n || !ex.decide(st, ex.tc.Eq(a.sym, ex.tc.Const(uint64(k), int(a.sym.w)))) {
				continue
			}
		}
		here := posOf(ex.P.prog, pos)
		k := []string{a.pos, here}
		sort.Strings(k)
		ex.violation(st, "race", "data race between "+k[0]+" and "+k[1], pos, nil)
		panic(killPath{"race"})
	}
	clk := int32(1)
	if g.id < len(g.vc) {
		clk = g.vc[g.id]
	}
	if idx >= 0 && o.shadow[idx].clk == clk {
		return
	}
	w := st.getWObj(ex, p.obj)
	n := access{path: append([]int32(nil), path...), g: g.id, clk: clk, write: write, pos: posOf(ex.P.prog, pos), sym: p.sym, lo: lo, n: cnt}
	if idx >= 0 {
		w.shadow[idx] = n
	} else {
		w.shadow = append(w.shadow, n)
	}
}

// symRead reports whether an element address at an unknown index may stay
// unknown while several goroutines run: it is only read through, and no other
// goroutine has written to the object.
func (ex *Exec) symRead(st *State, obj int, x *ssa.IndexAddr) bool {
	if obj <= 0 {
		return false
	}
	for _, r := range *x.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			if _, ok := r.(*ssa.DebugRef); !ok {
				return false
			}
		}
	}
	for _, a := range st.getObj(ex, obj).shadow {
		if a.write && a.g != st.cur {
			return false
		}
	}
	return true
}

func (ex *Exec) raceSlice(st *State, s Slice, write bool, pos token.Pos) {
	if !ex.cfg.Race {
		return
	}
	for i := 0; i < s.n; i++ {
		ex.raceAccess(st, Ptr{obj: s.arr, path: extPath(s.path, s.off+i)}, write, pos)
	}
}

// ---- exploration of schedules ----

type schedNode struct {
	enabled []int
	back    map[int]bool
	done    map[int]bool
}

type trEv struct {
	g, q int
	keys []keyAcc
	node *schedNode
	clk  int32
	vc   VC
}

type Trace struct{ ev []*trEv }

func conflict(a, b []keyAcc) bool {
	for _, x := range a {
		for _, y := range b {
			if x.k == y.k && (x.w || y.w) {
				return true
			}
		}
	}
	return false
}

// settle runs every goroutine to its next visible operation.
func (ex *Exec) settle(st *State) []*State {
	saved := ex.work
	ex.work = []*State{st}
	var out []*State
	for len(ex.work) > 0 {
		s := ex.work[len(ex.work)-1]
		ex.work = ex.work[:len(ex.work)-1]
		ok := true
	again:
		for i := 0; i < len(s.gs); i++ {
			g := s.gs[i]
			if g.done || (len(g.frames) > 0 && g.frames[len(g.frames)-1].vop != nil) {
				continue
			}
			s.cur = i
			switch ex.runLocal(s, nil) {
			case rEnd:
				ok = false
			case rParked, rGDone:
				goto again
			}
			if !ok {
				break
			}
		}
		if ok {
			out = append(out, s)
		}
	}
	ex.work = saved
	return out
}

func (ex *Exec) concurrent(st *State) {
	tr := &Trace{}
	for _, s := range ex.settle(st) {
		ex.dfs(s, tr, extendC(nil, s), map[int][]keyAcc{})
	}
}

func extendC(C [][]int32, s *State) [][]int32 {
	n := make([][]int32, len(s.gs))
	for i := range n {
		if i < len(C) {
			n[i] = C[i]
		} else if p := s.gs[i].parent; p >= 0 && p < i && i > 0 {
			n[i] = n[p]
		}
	}
	return n
}

func cget(c []int32, i int) int32 {
	if i < len(c) {
		return c[i]
	}
	return 0
}

func (ex *Exec) enabledSet(s *State) ([]int, [][]variant) {
	vs := make([][]variant, len(s.gs))
	var en []int
	quiet := -1
	for i := range s.gs {
		op := topOp(s, i)
		if op == nil {
			continue
		}
		if op.quiesce {
			quiet = i
			continue
		}
		vs[i] = ex.variants(s, i, op)
		if len(vs[i]) > 0 {
			en = append(en, i)
		}
	}
	if len(en) == 0 && quiet >= 0 {
		en = append(en, quiet)
		vs[quiet] = []variant{{-1, -1, -1}}
	}
	return en, vs
}

func (ex *Exec) dfs(s *State, tr *Trace, C [][]int32, sleep map[int][]keyAcc) {
	if !ex.cfg.Deadline.IsZero() && time.Now().After(ex.cfg.Deadline) {
		ex.st.Killed++
		ex.st.Limits["deadline"]++
		ex.st.Incomplete = true
		return
	}
	if s.gs[0].done {
		ex.endPath(s)
		return
	}
	en, vs := ex.enabledSet(s)
	ex.st.SchedPoints++
	if len(en) == 0 {
		ex.guard(s, func() {
			var sb []string
			for i := range s.gs {
				if op := topOp(s, i); op != nil {
					sb = append(sb, fmt.Sprintf("g%d %s at %s", i, op.kind, posOf(ex.P.prog, op.pos)))
				}
			}
			ex.deadlock(s, strings.Join(sb, ", "), token.NoPos)
		})
		return
	}
	if s.delays > 0 {
		ex.delayed(s, tr, en, vs)
		return
	}
	if len(tr.ev) > 3000 {
		ex.st.Limits["schedule-length"]++
		ex.st.Killed++
		return
	}
	// reversible races with earlier transitions
	if !ex.cfg.NoDPOR {
		for p := range s.gs {
			op := topOp(s, p)
			if op == nil || op.quiesce {
				continue
			}
			for i := len(tr.ev) - 1; i >= 0; i-- {
				e := tr.ev[i]
				if e.g == p || e.q == p || !conflict(e.keys, op.keys) || cget(C[p], e.g) >= e.clk {
					continue
				}
				nd := e.node
				has := false
				for _, x := range nd.enabled {
					if x == p {
						has = true
					}
				}
				if has {
					nd.back[p] = true
				} else {
					for _, x := range nd.enabled {
						nd.back[x] = true
					}
				}
				break
			}
		}
	}
	nd := &schedNode{enabled: en, back: map[int]bool{}, done: map[int]bool{}}
	pick := -1
	for _, p := range en {
		if _, sl := sleep[p]; !sl {
			if pick < 0 || p == s.lastG {
				pick = p
			}
		}
	}
	if pick < 0 {
		ex.st.SleepCut++
		return
	}
	nd.back[pick] = true
	if ex.cfg.NoDPOR {
		for _, p := range en {
			nd.back[p] = true
		}
	}
	slp := map[int][]keyAcc{}
	for k, v := range sleep {
		slp[k] = v
	}
	for {
		p := -1
		for _, q := range en {
			if nd.back[q] && !nd.done[q] {
				if _, sl := slp[q]; sl {
					nd.done[q] = true
					continue
				}
				if p < 0 || q == pick {
					p = q
				}
			}
		}
		if p < 0 {
			break
		}
		nd.done[p] = true
		op := topOp(s, p)
		for _, v := range vs[p] {
			keys := op.keys
			if v.q >= 0 {
				keys = append(append([]keyAcc(nil), keys...), topOp(s, v.q).keys...)
			}
			clk := int32(len(tr.ev) + 1)
			// clocks
			vcl := append([]int32(nil), C[p]...)
			if v.q >= 0 {
				vcl = joinVC(vcl, C[v.q])
			}
			for _, e := range tr.ev {
				if conflict(e.keys, keys) {
					vcl = joinVC(vcl, e.vc)
				}
			}
			for len(vcl) <= p || len(vcl) <= v.q {
				vcl = append(vcl, 0)
			}
			vcl[p] = clk
			if v.q >= 0 {
				vcl[v.q] = clk
			}
			ev := &trEv{g: p, q: v.q, keys: keys, node: nd, clk: clk}
			ev.vc = vcl
			C2 := append([][]int32(nil), C...)
			C2[p] = vcl
			if v.q >= 0 {
				C2[v.q] = vcl
			}
			ex.st.Transitions++
			res := ex.transition(s.fork(), p, v)
			tr.ev = append(tr.ev, ev)
			for _, r := range res {
				sl2 := map[int][]keyAcc{}
				for q, k := range slp {
					if q == v.q || q == p || conflict(k, keys) {
						continue
					}
					if !sameVariants(vs[q], ex.variants(r, q, topOp(r, q))) {
						continue
					}
					sl2[q] = k
				}
				ex.dfs(r, tr, extendC(C2, r), sl2)
			}
			tr.ev = tr.ev[:len(tr.ev)-1]
		}
		slp[p] = op.keys
	}
}

// delayed continues with the schedules that deviate at most s.delays-1 times
// from the fixed order.
func (ex *Exec) delayed(s *State, tr *Trace, en []int, vs [][]variant) {
	if len(s.sched) > 20000 {
		ex.st.Limits["schedule-length"]++
		ex.st.Killed++
		return
	}
	rank := func(p int) int {
		n := len(s.gs)
		switch s.order {
		case 0:
			if p == s.lastG {
				return -1
			}
			return p
		case 1:
			if p == s.lastG {
				return -1
			}
			return n - p
		}
		return (p - s.lastG - 1 + n) % n
	}
	order := append([]int(nil), en...)
	sort.Slice(order, func(i, j int) bool { return rank(order[i]) < rank(order[j]) })
	cost := 0
	for _, p := range order {
		for _, v := range vs[p] {
			if cost >= s.delays {
				return
			}
			ex.st.Transitions++
			t := s.fork()
			t.delays -= cost
			cost++
			for _, r := range ex.transition(t, p, v) {
				ex.dfs(r, tr, nil, nil)
			}
		}
	}
}

func sameVariants(a, b []variant) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// transition executes variant v of goroutine p and settles the result.
func (ex *Exec) transition(s *State, p int, v variant) []*State {
	saved := ex.work
	list := []*State{s}
	var out []*State
	for len(list) > 0 {
		s := list[len(list)-1]
		list = list[:len(list)-1]
		ex.work = nil
		s.cur = p
		s.lastG = p
		op := topOp(s, p)
		ok := ex.guard(s, func() {
			if op.isCh {
				if step, rec := ex.schedStep(s, p, op, v); rec {
					s.sched = append(s.sched, step)
				}
				res, a := ex.chanExec(s, p, op, v, nil, true)
				if a == actRet {
					ex.deliver(s, p, res)
				}
				return
			}
			var res Value
			a := actRet
			step, rec := ex.schedStep(s, p, op, variant{-1, -1, -1})
			if op.run != nil {
				res, a = op.run(ex, s) // may fork: the copies run it again
			}
			if rec {
				s.sched = append(s.sched, step)
			}
			if a == actRet {
				ex.deliver(s, p, res)
			}
		})
		list = append(list, ex.work...)
		ex.work = nil
		if ok {
			out = append(out, ex.settle(s)...)
		}
	}
	ex.work = saved
	return out
}

// guard runs f, absorbing path-ending panics; reports whether the path lives.
func (ex *Exec) guard(st *State, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ex.absorb(st, r)
			ok = false
		}
	}()
	f()
	return true
}
