package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Config struct {
	MaxSteps    int
	Unwind      int
	MaxConc     int
	Deadline    time.Time
	MapOrder    bool
	Merge       bool
	MaxPaths    int
	Thorough    bool
	Case        int
	NCases      int
	Race        bool
	NoDPOR      bool
	Leak        bool
	Select      bool
	MaxViol     int
	ExpDeadlock bool
	Samples     int
	Trace       bool
}

type Violation struct {
	Kind   string // assert, panic, deadlock, race, leak
	Msg    string
	Pos    string
	Vector map[string][]string
	Sched  []SchedStep
	Stack  string
	Known  bool
}

type Sample struct {
	Vector map[string][]string
	Obs    []string
	Sched  []SchedStep
	Multi  bool
}

type Stats struct {
	Paths, Killed, Forks, Steps int
	Merges, MergeFail           int
	Asserts, AssertsConst       int
	AssertsSolver               int
	Unsup                       map[string]int
	Limits                      map[string]int
	Inconclusive                int
	Reach                       map[string]int
	Need                        map[string]int
	Funcs                       map[string]bool
	SchedPoints, Transitions    int
	SleepCut                    int
	Incomplete                  bool
	Obs                         int
	MaxPC                       int
	Tags                        map[string]int
}

type Exec struct {
	P         *Program
	tc        *TermCtx
	jsonTab   []*jnode
	jsonIdx   map[string]int
	sol       *Solver
	cfg       Config
	work      []*State
	st        Stats
	viol      []*Violation
	vkeys     map[string]bool
	consts    map[*ssa.Const]Value
	fdesc     map[*ssa.Function]*funcDesc
	vars      map[string]*Term
	qcache    map[string]qres
	recent    []*Model
	samples   []*Sample
	fis       map[*ssa.Function]*FuncInfo
	entry     *ssa.Function
	meths     map[methKey]*ssa.Function
	anyTrue   bool
	nq        int
	inDefer   bool
	mdepth    int
	wantCases int
	onCases   func(int)
	ended     int
	msites    map[*ssa.If]*mergeSite
}

type methKey struct {
	t types.Type
	m *types.Func
}

type qres struct {
	r Res
	m *Model
}

type funcDesc struct {
	intr intrinsic
	fn   *ssa.Function // function to execute (possibly a redirect)
}

type callCtx struct {
	fn      *ssa.Function
	args    []Value
	dst     int32
	pos     token.Pos
	typ     types.Type
	isDefer bool
}

// action of an intrinsic
type act int

const (
	actRet    act = iota // result available
	actPushed            // pushed a frame; result will arrive through dst
	actPanic             // a Go panic was started
)

type intrinsic func(ex *Exec, st *State, c *callCtx) (Value, act)

type killPath struct{ reason string }

// cleanup drops the exploration's memory, keeping the results.
func (ex *Exec) cleanup() {
	ex.work, ex.qcache, ex.recent, ex.consts, ex.vars, ex.tc = nil, nil, nil, nil, nil, nil
}

func NewExec(P *Program, cfg Config) *Exec {
	tc := NewTermCtx()
	ex := &Exec{P: P, tc: tc, sol: NewSolver(tc), cfg: cfg, vkeys: map[string]bool{}, consts: map[*ssa.Const]Value{}, fdesc: map[*ssa.Function]*funcDesc{},
		vars: map[string]*Term{}, qcache: map[string]qres{}, fis: map[*ssa.Function]*FuncInfo{}, meths: map[methKey]*ssa.Function{}, msites: map[*ssa.If]*mergeSite{}}
	ex.st.Unsup = map[string]int{}
	ex.st.Limits = map[string]int{}
	ex.st.Reach = map[string]int{}
	ex.st.Need = map[string]int{}
	ex.st.Funcs = map[string]bool{}
	ex.st.Tags = map[string]int{}
	ex.sol.dead = cfg.Deadline
	return ex
}

func (ex *Exec) fi(fn *ssa.Function) *FuncInfo {
	if f, ok := ex.fis[fn]; ok {
		return f
	}
	f := ex.P.funcInfo(fn)
	ex.fis[fn] = f
	if fn.Pkg != nil && fn.Blocks != nil {
		ex.st.Funcs[fn.String()] = true
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		ex.st.Funcs[fn.String()] = true
	} else if fn.Parent() != nil {
		ex.st.Funcs[fn.String()] = true
	}
	return f
}

// ---- decisions ----

func (ex *Exec) slicePC(st *State, cond *Term) []*Term {
	vs := cond.vars
	var all []*Term
	for p := st.pc; p != nil; p = p.up {
		if !p.implied {
			all = append(all, p.cond)
		}
	}
	used := make([]bool, len(all))
	out := []*Term{cond}
	for ch := true; ch; {
		ch = false
		for i, t := range all {
			if !used[i] && varsIntersect(vs, t.vars) {
				used[i] = true
				nv := orVars(vs, t.vars)
				if len(nv) != len(vs) || &nv[0] != &vs[0] {
					ch = true
				}
				vs = nv
				out = append(out, t)
			}
		}
	}
	return out
}

func (ex *Exec) checkPC(st *State, cond *Term) (Res, *Model) {
	if cond.isFalse() {
		return Unsat, nil
	}
	conds := ex.slicePC(st, cond)
	ids := make([]int, len(conds))
	for i, t := range conds {
		ids[i] = int(t.id)
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteByte(byte(i))
		kb.WriteByte(byte(i >> 8))
		kb.WriteByte(byte(i >> 16))
		kb.WriteByte(byte(i >> 24))
	}
	key := kb.String()
	if q, ok := ex.qcache[key]; ok {
		if q.r == Sat {
			return Sat, ex.overlay(st.model, q.m, conds)
		}
		return q.r, nil
	}
	// try recent models
	if st.model != nil {
		for _, m := range ex.recent {
			ok := true
			for _, t := range conds {
				if m.Eval(t) != 1 {
					ok = false
					break
				}
			}
			if ok {
				return Sat, ex.overlay(st.model, m, conds)
			}
		}
	}
	if cond.size > 4000 {
		// digests and the like: a few arbitrary inputs first
		vars := ex.sol.condVars(conds)
		for i := uint64(1); i <= 8; i++ {
			m, x := NewModel(), i*0x9e3779b97f4a7c15
			for _, v := range vars {
				x ^= x << 13
				x ^= x >> 7
				x ^= x << 17
				m.vals[v.id] = x * 0x2545f4914f6cdd1d & mask(v.w)
			}
			ok := true
			for _, t := range conds {
				if m.Eval(t) != 1 {
					ok = false
					break
				}
			}
			if ok {
				return Sat, ex.overlay(st.model, m, conds)
			}
		}
	}
	ex.nq++
	r, m := ex.sol.Check(conds, true, st.model)
	if r == Sat && m != nil {
		for _, t := range conds {
			if m.Eval(t) != 1 {
				ex.st.Inconclusive++
				ex.st.Limits["model-eval-mismatch"]++
				return Unknown, nil
			}
		}
		ex.recent = append(ex.recent, m)
		if len(ex.recent) > 6 {
			ex.recent = ex.recent[1:]
		}
	}
	if len(ex.qcache) > 400000 {
		ex.qcache = map[string]qres{}
	}
	if r == Unsat {
		ex.qcache[key] = qres{r, nil}
	} else if r == Sat {
		ex.qcache[key] = qres{r, m}
	} else {
		ex.st.Inconclusive++
		ex.st.Limits["solver-unknown"]++
	}
	return r, m
}

// overlay takes base and replaces the variables of conds by m's values.
func (ex *Exec) overlay(base, m *Model, conds []*Term) *Model {
	n := NewModel()
	if base != nil {
		for k, v := range base.vals {
			n.vals[k] = v
		}
	}
	for _, v := range ex.sol.condVars(conds) {
		n.vals[v.id] = m.vals[v.id]
	}
	return n
}

// decide returns the truth of cond on this state, forking a clone that takes
// the other side when both are feasible.  Must be called before side effects.
func (ex *Exec) decide(st *State, cond *Term) bool {
	if cond.op == OConst {
		return cond.val == 1
	}
	switch st.known(ex.tc, cond) {
	case 1:
		return true
	case -1:
		return false
	}
	v := true
	if st.model == nil {
		r, m := ex.checkPC(st, cond)
		if r == Unsat {
			st.addFact(ex.tc.Not(cond))
			return false
		}
		if r == Sat {
			full, fm := ex.fullModel(st, cond, m)
			if full == Unsat {
				panic(killPath{"infeasible"})
			}
			st.model = fm
		}
	} else {
		v = st.model.Eval(cond) == 1
	}
	side, other := cond, ex.tc.Not(cond)
	if !v {
		side, other = other, side
	}
	r, m := ex.checkPC(st, other)
	if r == Unsat {
		st.addFact(side)
		return v
	}
	cl := st.fork()
	cl.addPC(other)
	if r == Sat {
		cl.model = m
	} else {
		cl.model = nil
	}
	ex.push(cl)
	st.addPC(side)
	return v
}

// fullModel finds a model of the whole path condition and cond.
func (ex *Exec) fullModel(st *State, cond *Term, m *Model) (Res, *Model) {
	if st.model != nil {
		return Sat, m
	}
	conds := []*Term{cond}
	for p := st.pc; p != nil; p = p.up {
		if !p.implied {
			conds = append(conds, p.cond)
		}
	}
	return ex.sol.Check(conds, true, nil)
}

func (ex *Exec) push(st *State) {
	ex.st.Forks++
	ex.work = append(ex.work, st)
}

// concInt picks one concrete value for t on this state, forking the rest.
func (ex *Exec) concInt(st *State, t *Term) int64 {
	for k := 0; ; k++ {
		if t.op == OConst {
			return sx(t.val, t.w)
		}
		if k == 0 {
			// already pinned?
			for p := st.pc; p != nil; p = p.up {
				c := p.cond
				if c.op == OEq && c.a == t && c.b.op == OConst {
					return sx(c.b.val, t.w)
				}
				if c.op == OEq && c.b == t && c.a.op == OConst {
					return sx(c.a.val, t.w)
				}
			}
		}
		var v uint64
		if st.model != nil {
			v = st.model.Eval(t)
		} else {
			r, m := ex.fullModel(st, ex.tc.tru, nil)
			if r != Sat {
				panic(killPath{"no-model"})
			}
			st.model = m
			v = m.Eval(t)
		}
		st.nconc++
		if st.nconc > ex.cfg.MaxConc {
			ex.limit("concretization")
		}
		if ex.decide(st, ex.tc.Eq(t, ex.tc.Const(v, int(t.w)))) {
			return sx(v, t.w)
		}
	}
}

// hang records a path beyond the loop bound: the replay on the real code
// decides whether it ends.
func (ex *Exec) hang(st *State, f *Frame) {
	if st.multi || len(st.sched) > 0 || f.fn == nil {
		return
	}
	ex.violation(st, "hang", "does not terminate in "+f.fn.String(), f.fn.Pos(), nil)
}

func (ex *Exec) limit(why string) {
	ex.st.Limits[why]++
	panic(killPath{why})
}

// choose returns a symbolic-but-forked choice in [0,n).
func (ex *Exec) choose(st *State, n int) int {
	if n <= 1 {
		st.nch++
		return 0
	}
	v := ex.getVar(fmt.Sprintf("choice!%d", st.nch), 8)
	c := ex.tc.Ult(v, ex.tc.Const(uint64(n), 8))
	ex.assume(st, c)
	r := int(ex.concInt(st, v)) & 0xff
	st.nch++
	return r
}

func (ex *Exec) getVar(name string, w int) *Term {
	key := fmt.Sprintf("%s:%d", name, w)
	if t, ok := ex.vars[key]; ok {
		return t
	}
	t := ex.tc.Var(name, w)
	ex.vars[key] = t
	return t
}

// assume adds cond; kills the path when infeasible.
func (ex *Exec) assume(st *State, c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(killPath{"assume"})
	}
	if k := st.known(ex.tc, c); k == 1 {
		return
	} else if k == -1 {
		panic(killPath{"assume"})
	}
	if st.model != nil && st.model.Eval(c) == 1 {
		st.addPC(c)
		return
	}
	r, m := ex.checkPC(st, c)
	if r == Unsat {
		panic(killPath{"assume"})
	}
	if r == Sat && st.model == nil {
		r, m = ex.fullModel(st, c, m)
		if r == Unsat {
			panic(killPath{"assume"})
		}
	}
	if r == Sat {
		st.model = m
	} else {
		st.model = nil
	}
	st.addPC(c)
}

func (ex *Exec) assert(st *State, c *Term, msg string, pos token.Pos) {
	ex.st.Asserts++
	if c.isTrue() {
		ex.st.AssertsConst++
		return
	}
	ex.st.AssertsSolver++
	if c.isFalse() {
		ex.violation(st, "assert", msg, pos, nil)
		panic(killPath{"violation"})
	}
	nc := ex.tc.Not(c)
	var r Res
	var m *Model
	if st.known(ex.tc, c) == 1 {
		return
	}
	if st.model != nil && st.model.Eval(c) == 0 {
		r, m = Sat, st.model
	} else {
		r, m = ex.checkPC(st, nc)
		if r == Sat && st.model == nil {
			r, m = ex.fullModel(st, nc, m)
		}
	}
	switch r {
	case Sat:
		ex.violation(st, "assert", msg, pos, m)
		// continue under the assertion
		if c.size > 4000 {
			panic(killPath{"violation"})
		}
		ex.assume(st, c)
	case Unsat:
		st.addFact(c)
	default:
		ex.st.Incomplete = true
		ex.st.Limits["assert-unknown:"+msg]++
	}
}

func (ex *Exec) violation(st *State, kind, msg string, pos token.Pos, m *Model) {
	key := kind + "|" + msg
	if ex.vkeys[key] && len(ex.viol) >= ex.cfg.MaxViol {
		return
	}
	n := 0
	for _, v := range ex.viol {
		if v.Kind == kind && v.Msg == msg {
			n++
		}
	}
	if n >= 3 {
		return
	}
	if m == nil {
		m = st.model
	}
	if m == nil {
		r, mm := ex.fullModel(st, ex.tc.tru, nil)
		if r != Sat {
			if r == Unknown {
				ex.st.Incomplete = true
			}
			return
		}
		m = mm
	}
	ex.vkeys[key] = true
	ex.viol = append(ex.viol, &Violation{Kind: kind, Msg: msg, Pos: posOf(ex.P.prog, pos), Vector: ex.vector(st, m), Sched: append([]SchedStep(nil), st.sched...), Stack: ex.stack(st)})
}

func (ex *Exec) stack(st *State) string {
	g := st.gs[st.cur]
	var sb strings.Builder
	for i := len(g.frames) - 1; i >= 0 && i >= len(g.frames)-12; i-- {
		f := g.frames[i]
		if f.fn == nil {
			continue
		}
		p := token.NoPos
		if f.block != nil {
			for k := f.pc; k >= 0; k-- {
				if k < len(f.block.Instrs) && f.block.Instrs[k].Pos().IsValid() {
					p = f.block.Instrs[k].Pos()
					break
				}
			}
		}
		fmt.Fprintf(&sb, "%s(%s) ", f.fn.String(), posOf(ex.P.prog, p))
	}
	return sb.String()
}

func (ex *Exec) vector(st *State, m *Model) map[string][]string {
	out := map[string][]string{}
	var ds []*Draw
	for d := st.draws; d != nil; d = d.up {
		ds = append(ds, d)
	}
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var s string
		if d.kind == "bytes" {
			bs := make([]byte, len(d.t))
			for k, t := range d.t {
				bs[k] = byte(m.Eval(t))
			}
			s = fmt.Sprintf("%x", bs)
		} else {
			s = fmt.Sprint(sx(m.Eval(d.t[0]), d.t[0].w))
			if d.t[0].w == 0 {
				s = fmt.Sprint(m.Eval(d.t[0]))
			}
		}
		out[d.name] = append(out[d.name], s)
	}
	return out
}

// ---- values of operands ----

func (ex *Exec) constVal(c *ssa.Const) Value {
	if v, ok := ex.consts[c]; ok {
		return v
	}
	var v Value
	t := c.Type()
	if c.Value == nil {
		v = ex.zero(t)
	} else {
		switch u := under(t).(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsBoolean != 0:
				v = ex.tc.Bool(c.Value.String() == "true")
			case u.Info()&types.IsString != 0:
				v = Str{s: constString(c)}
			case u.Info()&types.IsFloat != 0:
				f := c.Float64()
				v = ex.tc.Const(fpack(f, uint16(widthOf(t))), widthOf(t))
			case u.Info()&types.IsInteger != 0:
				if u.Info()&types.IsUnsigned != 0 {
					v = ex.tc.Const(c.Uint64(), widthOf(t))
				} else {
					v = ex.tc.Const(uint64(c.Int64()), widthOf(t))
				}
			default:
				panic(unsupported("const " + c.String()))
			}
		default:
			panic(unsupported("const " + c.String()))
		}
	}
	ex.consts[c] = v
	return v
}

func (ex *Exec) val(f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return copyVal(ex.constVal(x))
	case *ssa.Global:
		return Ptr{obj: ex.P.globID[x]}
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Builtin:
		return &Closure{bltn: x}
	}
	return f.regs[f.fi.idx[v]]
}

func (ex *Exec) term(f *Frame, v ssa.Value) *Term {
	t, ok := ex.val(f, v).(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("non-scalar operand %s = %s in %s", v.Name(), ex.show(ex.val(f, v)), f.fn)))
	}
	return t
}

// ---- memory ----

func (st *State) getObj(ex *Exec, id int) *Obj {
	o := st.obj(id)
	if o == nil && id <= ex.P.nGlob {
		g := ex.P.globs[id]
		et := g.Type().(*types.Pointer).Elem()
		o = &Obj{v: ex.zero(et), typ: et}
		st.setObj(id, o)
	}
	if o == nil {
		panic(unsupported(fmt.Sprintf("dangling object %d", id)))
	}
	return o
}

func (st *State) getWObj(ex *Exec, id int) *Obj {
	st.getObj(ex, id)
	return st.wobj(id)
}

func navigate(v Value, path []int32) Value {
	for _, i := range path {
		a, ok := v.(*Agg)
		if !ok {
			panic(unsupported(fmt.Sprintf("navigate %T", v)))
		}
		v = a.e[i]
	}
	return v
}

type symIdx struct {
	t     *Term
	lo, n int
}

func (ex *Exec) load(st *State, p Ptr, t types.Type, pos token.Pos) Value {
	o := st.getObj(ex, p.obj)
	if st.multi {
		ex.raceAccess(st, p, false, pos)
	}
	if p.sym != nil {
		arr := navigate(o.v, p.path[:len(p.path)-2]).(*Agg)
		lo, n := int(p.path[len(p.path)-2]), int(p.path[len(p.path)-1])
		return ex.symSelect(arr.e[lo:lo+n], p.sym)
	}
	v := navigate(o.v, p.path)
	if b, ok := v.(*Term); ok && b.w == 8 && t != nil && len(p.path) > 0 {
		if w := widthOf(t); w > 8 && !isFloat(t) {
			a := navigate(o.v, p.path[:len(p.path)-1]).(*Agg)
			k := int(p.path[len(p.path)-1])
			if k+w/8 > len(a.e) {
				panic(unsupported("unsafe load outside the allocation"))
			}
			for i := 1; i < w/8; i++ {
				b = ex.tc.Concat(a.e[k+i].(*Term), b)
			}
			return b
		}
	}
	v = ex.coerce(st, v, t)
	return copyVal(v)
}

// coerce handles reads through unsafe casts between string and []byte headers.
func (ex *Exec) coerce(st *State, v Value, t types.Type) Value {
	if t == nil {
		return v
	}
	switch x := v.(type) {
	case Slice:
		if isString(t) {
			return ex.mkStr(ex.sliceBytes(st, x))
		}
	case Str:
		if _, ok := under(t).(*types.Slice); ok {
			return ex.bytesToSlice(st, ex.strBytes(x))
		}
	case *Term:
		w := widthOf(t)
		if w >= 0 && int(x.w) != w {
			panic(unsupported(fmt.Sprintf("type-punned load of width %d as %s", x.w, t)))
		}
	}
	return v
}

// symSelect builds e[idx] for scalar elements (idx known in range).
func (ex *Exec) symSelect(e []Value, idx *Term) Value {
	n := len(e)
	if n == 0 {
		panic(unsupported("empty symbolic select"))
	}
	ts := make([]*Term, n)
	for i := range e {
		t, ok := e[i].(*Term)
		if !ok {
			panic(unsupported("symbolic select of non-scalar"))
		}
		ts[i] = t
	}
	return ex.tc.tableSel(ts, idx)
}

// tableSel is ts[idx]; looking up the result of another constant table
// composes the tables, and the identity table is the index itself.
func (c *TermCtx) tableSel(ts []*Term, idx *Term) *Term {
	n := len(ts)
	for idx.op == OZext {
		idx = idx.a
	}
	if l, ok := c.lookups[idx]; ok {
		comp := make([]*Term, len(l.vals))
		for i, v := range l.vals {
			if v >= uint64(n) {
				comp = nil
				break
			}
			comp[i] = ts[v]
		}
		if comp != nil {
			return c.tableSel(comp, l.idx)
		}
	}
	if _, hi, ok := c.urange(idx); ok && hi+1 < uint64(n) {
		n = int(hi + 1)
		ts = ts[:n]
	}
	allc, ident := true, true
	for i, t := range ts {
		if t.op != OConst {
			allc, ident = false, false
			break
		}
		if t.val != uint64(i) {
			ident = false
		}
	}
	if _, hi, ok := c.urange(idx); ident && ok && hi < uint64(n) {
		w := int(ts[0].w)
		if int(idx.w) < w {
			return c.Zext(idx, w)
		}
		if int(idx.w) > w {
			return c.Extract(idx, w-1, 0)
		}
		return idx
	}
	// runs
	type run struct {
		lo, hi int
		t      *Term
	}
	var runs []run
	for i, t := range ts {
		if len(runs) > 0 && runs[len(runs)-1].t == t {
			runs[len(runs)-1].hi = i
		} else {
			runs = append(runs, run{i, i, t})
		}
	}
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if lo == hi {
			return runs[lo].t
		}
		m := (lo + hi) / 2
		return c.Ite(c.Ule(idx, c.Const(uint64(runs[m].hi), int(idx.w))), build(lo, m), build(m+1, hi))
	}
	r := build(0, len(runs)-1)
	if _, hi, ok := c.urange(idx); allc && ok && hi < uint64(n) && r.op != OConst && r != idx {
		if c.lookups == nil {
			c.lookups = map[*Term]lookup{}
		}
		if _, dup := c.lookups[r]; !dup {
			vals := make([]uint64, n)
			for i, t := range ts {
				vals[i] = t.val
			}
			c.lookups[r] = lookup{idx, vals}
		}
	}
	return r
}

func (ex *Exec) store(st *State, p Ptr, v Value, pos token.Pos) {
	if st.multi {
		ex.raceAccess(st, p, true, pos)
	}
	o := st.getWObj(ex, p.obj)
	v = copyVal(v)
	if p.sym != nil {
		arr := navigate(o.v, p.path[:len(p.path)-2]).(*Agg)
		lo, n := int(p.path[len(p.path)-2]), int(p.path[len(p.path)-1])
		nt := v.(*Term)
		for i := 0; i < n; i++ {
			old := arr.e[lo+i].(*Term)
			arr.e[lo+i] = ex.tc.Ite(ex.tc.Eq(p.sym, ex.tc.Const(uint64(i), int(p.sym.w))), nt, old)
		}
		return
	}
	if len(p.path) == 0 {
		o.v = v
		return
	}
	a, ok := navigate(o.v, p.path[:len(p.path)-1]).(*Agg)
	if !ok {
		panic(unsupported("store path"))
	}
	k := int(p.path[len(p.path)-1])
	if nt, ok := v.(*Term); ok && nt.w > 8 {
		if old, ok := a.e[k].(*Term); ok && old.w == 8 {
			n := int(nt.w) / 8
			if k+n > len(a.e) {
				panic(unsupported("unsafe store outside the allocation"))
			}
			for i := 0; i < n; i++ {
				a.e[k+i] = ex.tc.Extract(nt, i*8+7, i*8)
			}
			return
		}
	}
	a.e[k] = v
}

func (ex *Exec) sliceArr(st *State, s Slice) *Agg {
	o := st.getObj(ex, s.arr)
	a, ok := navigate(o.v, s.path).(*Agg)
	if !ok {
		panic(unsupported("slice backing"))
	}
	return a
}

func (ex *Exec) sliceElems(st *State, s Slice) []Value {
	if s.n == 0 {
		return nil
	}
	return ex.sliceArr(st, s).e[s.off : s.off+s.n]
}

func (ex *Exec) sliceBytes(st *State, s Slice) []*Term {
	e := ex.sliceElems(st, s)
	r := make([]*Term, len(e))
	for i, v := range e {
		r[i] = v.(*Term)
	}
	return r
}

func (ex *Exec) bytesToSlice(st *State, b []*Term) Slice {
	c := roundup(len(b))
	a := &Agg{e: make([]Value, c)}
	for i := range a.e {
		if i < len(b) {
			a.e[i] = b[i]
		} else {
			a.e[i] = ex.tc.Const(0, 8)
		}
	}
	id := st.alloc(a, nil)
	return Slice{arr: id, n: len(b), cap: c}
}

func (ex *Exec) mkSlice(st *State, vals []Value) Slice {
	a := &Agg{e: vals}
	id := st.alloc(a, nil)
	return Slice{arr: id, n: len(vals), cap: len(vals)}
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundup(n int) int {
	for _, c := range sizeClasses {
		if c >= n {
			return c
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(newLen, oldCap int, esz int64) int {
	nc := oldCap
	d := nc + nc
	if newLen > d {
		nc = newLen
	} else if oldCap < 256 {
		nc = d
	} else {
		for nc < newLen {
			nc += (nc + 768) >> 2
		}
	}
	if esz == 0 {
		return newLen
	}
	return roundup(nc*int(esz)) / int(esz)
}

// ---- calls ----

func (ex *Exec) setReg(f *Frame, r int32, v Value) {
	if r >= 0 {
		f.regs[r] = v
	}
}

func (ex *Exec) desc(fn *ssa.Function) *funcDesc {
	if d, ok := ex.fdesc[fn]; ok {
		return d
	}
	d := &funcDesc{fn: fn}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if in := ex.P.findIntrinsic(fn, name); in != nil {
		d.intr = in
	} else if r := ex.P.redirect(name); r != nil {
		d.fn = r
	}
	ex.fdesc[fn] = d
	return d
}

func (ex *Exec) pushFrame(st *State, fn *ssa.Function, free []Value, args []Value, dst int32, isDefer bool) {
	if fn.Blocks == nil {
		panic(unsupported("no body: " + fn.String()))
	}
	fi := ex.fi(fn)
	f := &Frame{own: st.own, fn: fn, fi: fi, regs: make([]Value, fi.n), block: fn.Blocks[0], dst: dst, isDefer: isDefer}
	for i, p := range fn.Params {
		f.regs[fi.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.regs[fi.idx[p]] = free[i]
	}
	g := st.G()
	if len(g.frames) > 400 {
		ex.limit("recursion-depth")
	}
	g.frames = append(g.frames, f)
}

// call performs a call of a function value; the caller's pc must not have been
// advanced.  It returns (result, act).
func (ex *Exec) call(st *State, cl *Closure, args []Value, dst int32, pos token.Pos, isDefer bool) (Value, act) {
	if cl == nil {
		return nil, ex.goPanicRT(st, "invalid memory address or nil pointer dereference", pos)
	}
	if cl.bltn != nil {
		return ex.builtin(st, cl.bltn, nil, args, pos)
	}
	d := ex.desc(cl.fn)
	if d.intr != nil {
		c := &callCtx{fn: cl.fn, args: args, dst: dst, pos: pos, isDefer: isDefer, typ: cl.fn.Signature}
		return d.intr(ex, st, c)
	}
	ex.pushFrame(st, d.fn, cl.free, args, dst, isDefer)
	return nil, actPushed
}

func (ex *Exec) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := ex.meths[k]; ok {
		return f
	}
	f := ex.P.lookupMethod(t, m)
	ex.meths[k] = f
	return f
}

func (ex *Exec) callee(st *State, f *Frame, c *ssa.CallCommon) (*Closure, []Value, bool) {
	var args []Value
	if c.IsInvoke() {
		iv, ok := ex.val(f, c.Value).(Iface)
		if !ok {
			panic(unsupported("invoke on non-iface"))
		}
		if iv.typ == nil {
			return nil, nil, false
		}
		fn := ex.lookupMethod(iv.typ, c.Method)
		if fn == nil {
			panic(unsupported("no method " + c.Method.Name() + " on " + iv.typ.String()))
		}
		args = append(args, copyVal(iv.v))
		for _, a := range c.Args {
			args = append(args, copyVal(ex.val(f, a)))
		}
		return &Closure{fn: fn}, args, true
	}
	for _, a := range c.Args {
		args = append(args, copyVal(ex.val(f, a)))
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		return &Closure{fn: v}, args, true
	case *ssa.Builtin:
		return &Closure{bltn: v}, args, true
	}
	cl, ok := ex.val(f, c.Value).(*Closure)
	if !ok {
		panic(unsupported("call of non-closure"))
	}
	if cl == nil {
		return nil, nil, false
	}
	return cl, args, true
}

// ---- panics ----

func (ex *Exec) goPanicRT(st *State, msg string, pos token.Pos) act {
	var v Value
	if ex.P.rtErr != nil {
		v = Iface{typ: ex.P.rtErr, v: Str{s: msg}}
	} else {
		v = Iface{typ: types.Typ[types.String], v: Str{s: "runtime error: " + msg}}
	}
	return ex.startPanic(st, v, "runtime error: "+msg, pos)
}

func (ex *Exec) startPanic(st *State, v Value, msg string, pos token.Pos) act {
	g := st.G()
	g.pan = &Panic{val: v, msg: msg, pos: pos, stack: ex.stack(st)}
	ex.unwind(st)
	return actPanic
}

func (ex *Exec) describePanic(st *State, v Value) string {
	if i, ok := v.(Iface); ok {
		if i.typ == nil {
			return "nil"
		}
		if s, ok := i.v.(Str); ok && s.t == nil {
			return typeStr(i.typ) + ":" + s.s
		}
		if p, ok := i.v.(Ptr); ok && p.obj != 0 {
			if a, ok := navigate(st.getObj(ex, p.obj).v, p.path).(*Agg); ok && len(a.e) > 0 {
				if s, ok := a.e[0].(Str); ok && s.t == nil {
					return typeStr(i.typ) + ":" + s.s
				}
			}
		}
		return typeStr(i.typ)
	}
	return ex.show(v)
}

func (ex *Exec) unwind(st *State) {
	g := st.G()
	for {
		if len(g.frames) == 0 {
			// uncaught
			msg := g.pan.msg
			pan := g.pan
			if st.cur != 0 {
				msg = fmt.Sprintf("%s (in goroutine %s)", msg, g.name)
			}
			if st.expect == "" {
				ex.violation(st, "panic", msg, pan.pos, nil)
				if len(ex.viol) > 0 && ex.viol[len(ex.viol)-1].Stack == "" {
					ex.viol[len(ex.viol)-1].Stack = pan.stack
				}
			}
			panic(killPath{"panic"})
		}
		f := st.wframe(g, len(g.frames)-1)
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.unwinding = true
			f.running = false
			_, a := ex.runDeferred(st, f, d)
			switch a {
			case actPushed:
				return
			case actPanic:
				return // nested unwinding already proceeded
			}
			continue
		}
		isD := f.isDefer
		g.frames = g.frames[:len(g.frames)-1]
		if isD && len(g.frames) > 0 {
			b := st.wframe(g, len(g.frames)-1)
			b.unwinding = true
			b.running = false
			b.recov = false
		}
	}
}

func (ex *Exec) runDeferred(st *State, f *Frame, d *deferred) (Value, act) {
	pop := func() { f.defers = f.defers[:len(f.defers)-1] }
	pos := d.instr.Pos()
	if d.bltn != nil {
		ex.inDefer = true
		v, a := ex.builtin(st, d.bltn, d.call, d.args, pos)
		ex.inDefer = false
		if a == actRet {
			pop()
		} else if a == actPushed {
			pop()
		}
		return v, a
	}
	cl := d.fn.(*Closure)
	if cl == nil {
		pop()
		return nil, ex.goPanicRT(st, "invalid memory address or nil pointer dereference", pos)
	}
	if cl.bltn == nil {
		if ds := ex.desc(cl.fn); ds.intr == nil {
			pop()
			ex.pushFrame(st, ds.fn, cl.free, d.args, -1, true)
			return nil, actPushed
		}
	}
	n := len(f.defers)
	v, a := ex.call(st, cl, d.args, -1, pos, true)
	if a != actPanic {
		f.defers = f.defers[:n-1]
	}
	return v, a
}

// contDefers continues running f's deferred calls in normal mode.
func (ex *Exec) contDefers(st *State, g *G) {
	f := st.wframe(g, len(g.frames)-1)
	for len(f.defers) > 0 {
		f.running = true
		d := f.defers[len(f.defers)-1]
		if d.bltn == nil {
			if cl := d.fn.(*Closure); cl != nil && cl.bltn == nil {
				if ds := ex.desc(cl.fn); ds.intr == nil {
					f.defers = f.defers[:len(f.defers)-1]
					ex.pushFrame(st, ds.fn, cl.free, d.args, -1, true)
					return
				}
			}
		}
		_, a := ex.runDeferred(st, f, d)
		if a != actRet {
			return
		}
	}
	f.running = false
	if f.recov {
		f.recov = false
		if f.fn.Recover != nil {
			ex.jump(st, f, f.fn.Recover)
			return
		}
		ex.ret(st, ex.zeroResults(f.fn))
		return
	}
	f.pc++
}

func (ex *Exec) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return ex.zero(r.At(0).Type())
	}
	return ex.zero(r)
}

// ret pops the top frame and delivers res to the caller.
func (ex *Exec) ret(st *State, res Value) {
	g := st.G()
	f := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	if f.onRet != nil {
		f.onRet(ex, st, res)
		return
	}
	if len(g.frames) == 0 {
		return
	}
	b := st.wframe(g, len(g.frames)-1)
	if f.isDefer {
		ex.afterDefer(st, g, b)
		return
	}
	if b.vop != nil {
		return
	}
	ex.setReg(b, f.dst, res)
}

func (ex *Exec) afterDefer(st *State, g *G, b *Frame) {
	if b.unwinding {
		if g.pan != nil && !g.pan.recovered {
			ex.unwind(st)
			return
		}
		g.pan = nil
		b.unwinding = false
		b.recov = true
		ex.contDefers(st, g)
		return
	}
	ex.contDefers(st, g)
}

func (ex *Exec) jump(st *State, f *Frame, b *ssa.BasicBlock) {
	from := f.block
	f.prev = from
	f.block = b
	f.pc = 0
	if f.fi.loopHead[b] && b.Dominates(from) {
		if f.unw == nil {
			f.unw = make([]int32, len(f.fn.Blocks))
		}
		f.unw[b.Index]++
		if int(f.unw[b.Index]) > ex.cfg.Unwind {
			ex.hang(st, f)
			ex.limit("unwind:" + posOf(ex.P.prog, firstPos(b)))
		}
	} else if f.fi.loopHead[b] && f.unw != nil {
		f.unw[b.Index] = 0
	}
	// resolve phis
	n := 0
	var tmp [8]Value
	vals := tmp[:0]
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for k, p := range b.Preds {
			if p == from {
				vals = append(vals, copyVal(ex.val(f, ph.Edges[k])))
				break
			}
		}
		n++
	}
	for i := 0; i < n; i++ {
		f.regs[f.fi.idx[b.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
	f.pc = n
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, p := range b.Preds {
		for _, in := range p.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

// ---- running ----

type runRes int

const (
	rEnd runRes = iota
	rStop
	rParked
	rGDone
)

type stopPt struct {
	g, depth int
	block    *ssa.BasicBlock
	up       *stopPt
}

func (s *stopPt) hit(st *State) bool {
	g := st.gs[s.g]
	if len(g.frames) < s.depth {
		return true
	}
	if s.block != nil && len(g.frames) == s.depth {
		f := g.frames[s.depth-1]
		return f.block == s.block && f.pc == phiCount(s.block) && !f.running && !f.unwinding
	}
	return false
}

func phiCount(b *ssa.BasicBlock) int {
	n := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

func (ex *Exec) absorb(st *State, r interface{}) {
	switch k := r.(type) {
	case killPath:
		ex.st.Killed++
		if k.reason == "deadline" {
			ex.st.Incomplete = true
		}
		if ex.cfg.Trace {
			fmt.Fprintln(os.Stderr, "killed:", k.reason)
		}
	case unsupportedErr:
		ex.st.Killed++
		ex.st.Unsup[string(k)]++
		ex.st.Incomplete = true
		if ex.cfg.Trace {
			fmt.Fprintln(os.Stderr, "unsupported:", string(k), ex.stack(st))
		}
	default:
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "INTERNAL", r, ex.stack(st))
			panic(r)
		}
		ex.st.Killed++
		ex.st.Unsup["internal: "+fmt.Sprint(r)]++
		ex.st.Incomplete = true
	}
}

// runLocal runs the current goroutine until it ends, parks or hits stop.
func (ex *Exec) runLocal(st *State, stop *stopPt) (res runRes) {
	defer func() {
		if r := recover(); r != nil {
			ex.absorb(st, r)
			res = rEnd
		}
	}()
	first := true
	for {
		g := st.gs[st.cur]
		if len(g.frames) == 0 {
			st.G().done = true
			return rGDone
		}
		if stop != nil && !first && stop.hit(st) {
			return rStop
		}
		first = false
		f := g.frames[len(g.frames)-1]
		if f.vop != nil {
			if st.multi {
				return rParked
			}
			if !ex.execSingle(st) {
				continue
			}
			continue
		}
		st.steps++
		ex.st.Steps++
		if profSteps != nil && ex.st.Steps&15 == 0 {
			profSteps[f.fn.String()]++
			if ex.st.Steps&(1<<22-1) == 0 {
				dumpProf()
			}
		}
		if ex.st.Steps&1023 == 0 {
			if !ex.cfg.Deadline.IsZero() && time.Now().After(ex.cfg.Deadline) {
				panic(killPath{"deadline"})
			}
		}
		if st.steps > ex.cfg.MaxSteps {
			ex.hang(st, f)
			ex.limit("steps")
		}
		if f.unwinding && g.pan != nil && !g.pan.recovered {
			ex.unwind(st)
			continue
		}
		ex.step(st)
	}
}

func (ex *Exec) step(st *State) {
	f := st.top()
	if f.pc >= len(f.block.Instrs) {
		panic(unsupported("fell off block"))
	}
	in := f.block.Instrs[f.pc]
	if gl := f.fi.globs[in]; gl != nil {
		for _, g := range gl {
			if ex.needInit(st, f, g) {
				return
			}
		}
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Jump:
		ex.jump(st, f, f.block.Succs[0])
	case *ssa.If:
		c := ex.term(f, x.Cond)
		if c.op != OConst && ex.cfg.Merge && !st.multi && ex.mergeBranch(st, f, x, c) {
			return
		}
		if ex.decide(st, c) {
			ex.jump(st, f, f.block.Succs[0])
		} else {
			ex.jump(st, f, f.block.Succs[1])
		}
	case *ssa.Return:
		var res Value
		switch len(x.Results) {
		case 0:
		case 1:
			res = copyVal(ex.val(f, x.Results[0]))
		default:
			t := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				t[i] = copyVal(ex.val(f, r))
			}
			res = t
		}
		ex.ret(st, res)
	case *ssa.RunDefers:
		ex.contDefers(st, st.G())
	case *ssa.Panic:
		v := ex.val(f, x.X)
		if i, ok := v.(Iface); ok && i.typ == nil {
			ex.goPanicRT(st, "panic called with nil argument (use GODEBUG=panicnil=1 to disable)", x.Pos())
			return
		}
		ex.startPanic(st, v, ex.describePanic(st, v), x.Pos())
	case *ssa.Call:
		cl, args, ok := ex.callee(st, f, &x.Call)
		if !ok {
			ex.goPanicRT(st, "invalid memory address or nil pointer dereference", x.Pos())
			return
		}
		dst := f.fi.idx[x]
		depth := len(st.G().frames)
		var v Value
		var a act
		if cl.bltn != nil {
			v, a = ex.builtin(st, cl.bltn, &x.Call, args, x.Pos())
		} else {
			v, a = ex.call(st, cl, args, dst, x.Pos(), false)
		}
		switch a {
		case actRet:
			f.pc++
			f.regs[dst] = v
		case actPushed:
			// f may have been re-owned; advance the caller frame
			g := st.G()
			cf := st.wframe(g, depth-1)
			cf.pc++
		}
	case *ssa.Defer:
		d := &deferred{instr: x, call: &x.Call}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && !x.Call.IsInvoke() {
			d.bltn = b
			for _, a := range x.Call.Args {
				d.args = append(d.args, copyVal(ex.val(f, a)))
			}
		} else {
			cl, args, ok := ex.callee(st, f, &x.Call)
			if !ok {
				if x.Call.IsInvoke() {
					ex.goPanicRT(st, "invalid memory address or nil pointer dereference", x.Pos())
					return
				}
				cl = nil
			}
			d.fn = cl
			d.args = args
		}
		if x.DeferStack != nil {
			panic(unsupported("defer stack"))
		}
		f.defers = append(f.defers, d)
		f.pc++
	case *ssa.Go:
		cl, args, ok := ex.callee(st, f, &x.Call)
		if !ok {
			panic(unsupported("go nil func"))
		}
		f.pc++
		ex.spawn(st, cl, args, x.Pos())
	case *ssa.Store:
		p := ex.val(f, x.Addr).(Ptr)
		if p.isNil() {
			ex.goPanicRT(st, "invalid memory address or nil pointer dereference", x.Pos())
			return
		}
		ex.store(st, p, ex.val(f, x.Val), x.Pos())
		f.pc++
	case *ssa.MapUpdate:
		ex.mapUpdate(st, f, x)
	case *ssa.Send:
		ex.chanSend(st, f, x)
	case *ssa.Phi:
		f.pc++
	case ssa.Value:
		v, a := ex.evalInstr(st, f, x)
		if a == actRet {
			f.regs[f.fi.idx[x]] = v
			f.pc++
		}
	default:
		panic(unsupported(fmt.Sprintf("instr %T", in)))
	}
}

func (ex *Exec) needInit(st *State, f *Frame, g *ssa.Global) bool {
	if a := ex.P.galias[g]; a != nil {
		g = a
	}
	pkg := g.Pkg
	if f.fn.Pkg == pkg && f.fn.Name() == "init" && f.fn.Synthetic != "" {
		return false
	}
	if !ex.P.initAllowed(pkg) {
		return false
	}
	gi := ex.P.guard[pkg]
	if gi == 0 {
		return false
	}
	o := st.getObj(ex, gi)
	if o.v.(*Term).isTrue() {
		return false
	}
	// already running? guard is set first thing by init
	init := pkg.Func("init")
	ex.pushFrame(st, init, nil, nil, -1, false)
	// in reality this ran before main: not an access by this goroutine
	me := st.G()
	me.quiet++
	me.frames[len(me.frames)-1].onRet = func(ex *Exec, st *State, res Value) { st.G().quiet-- }
	return true
}

func (ex *Exec) evalInstr(st *State, f *Frame, in ssa.Value) (Value, act) {
	switch x := in.(type) {
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		id := st.alloc(ex.zero(et), et)
		return Ptr{obj: id}, actRet
	case *ssa.BinOp:
		return ex.binop(st, f, x)
	case *ssa.UnOp:
		return ex.unop(st, f, x)
	case *ssa.ChangeInterface:
		return ex.val(f, x.X), actRet
	case *ssa.ChangeType:
		return ex.val(f, x.X), actRet
	case *ssa.Convert:
		return ex.convert(st, f, x.X, x.X.Type(), x.Type()), actRet
	case *ssa.MultiConvert:
		return ex.convert(st, f, x.X, x.X.Type(), x.Type()), actRet
	case *ssa.Extract:
		t, ok := ex.val(f, x.Tuple).(Tuple)
		if !ok {
			panic(unsupported("extract of " + ex.show(ex.val(f, x.Tuple))))
		}
		return t[x.Index], actRet
	case *ssa.Field:
		return copyVal(ex.val(f, x.X).(*Agg).e[x.Field]), actRet
	case *ssa.FieldAddr:
		p := ex.val(f, x.X).(Ptr)
		if p.isNil() {
			return nil, ex.goPanicRT(st, "invalid memory address or nil pointer dereference", x.Pos())
		}
		return Ptr{obj: p.obj, path: extPath(p.path, x.Field)}, actRet
	case *ssa.IndexAddr:
		return ex.indexAddr(st, f, x)
	case *ssa.Index:
		return ex.index(st, f, x)
	case *ssa.Lookup:
		return ex.lookup(st, f, x)
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.free = append(c.free, ex.val(f, b))
		}
		return c, actRet
	case *ssa.MakeInterface:
		return Iface{typ: ex.P.canon(x.X.Type()), v: copyVal(ex.val(f, x.X))}, actRet
	case *ssa.MakeMap:
		id := st.alloc(&MapObj{conc: map[string]int{}}, nil)
		return MapRef{id}, actRet
	case *ssa.MakeChan:
		n := int(ex.concInt(st, ex.term(f, x.Size)))
		if n < 0 {
			return nil, ex.goPanicRT(st, "makechan: size out of range", x.Pos())
		}
		id := st.alloc(&ChanObj{cap: n}, nil)
		return ChanRef{id}, actRet
	case *ssa.MakeSlice:
		return ex.makeSlice(st, f, x)
	case *ssa.Slice:
		return ex.slice(st, f, x)
	case *ssa.SliceToArrayPointer:
		s := ex.val(f, x.X).(Slice)
		n := int(under(x.Type()).(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.n < n {
			return nil, ex.goPanicRT(st, "cannot convert slice to array pointer: length", x.Pos())
		}
		if s.arr == 0 {
			return Ptr{}, actRet
		}
		a := ex.sliceArr(st, s)
		if s.off != 0 || len(a.e) != n {
			panic(unsupported("slice to array pointer with offset"))
		}
		return Ptr{obj: s.arr, path: s.path}, actRet
	case *ssa.TypeAssert:
		return ex.typeAssert(st, f, x)
	case *ssa.Range:
		switch v := ex.val(f, x.X).(type) {
		case Str:
			return &Iter{str: &v}, actRet
		case MapRef:
			if st.multi && v.obj != 0 {
				ex.raceAccess(st, Ptr{obj: v.obj}, false, x.Pos())
			}
			return &Iter{mp: v.obj}, actRet
		}
		panic(unsupported("range"))
	case *ssa.Next:
		return ex.next(st, f, x)
	case *ssa.Select:
		return ex.selectInstr(st, f, x)
	}
	panic(unsupported(fmt.Sprintf("value instr %T", in)))
}

func (ex *Exec) makeSlice(st *State, f *Frame, x *ssa.MakeSlice) (Value, act) {
	lt, ct := ex.term(f, x.Len), ex.term(f, x.Cap)
	lim := ex.tc.Const(1<<20, int(lt.w))
	if !ex.decide(st, ex.tc.Sle(ex.tc.Const(0, int(lt.w)), lt)) || (lt.op == OConst && sx(lt.val, lt.w) > 1<<40) {
		return nil, ex.goPanicRT(st, "makeslice: len out of range", x.Pos())
	}
	if lt.op != OConst && !ex.decide(st, ex.tc.Ult(lt, lim)) {
		ex.limit("makeslice-size")
	}
	n := int(ex.concInt(st, lt))
	c := n
	if x.Cap != x.Len {
		c = int(ex.concInt(st, ct))
	}
	if c < n {
		return nil, ex.goPanicRT(st, "makeslice: cap out of range", x.Pos())
	}
	if n > 1<<20 || c > 1<<20 {
		ex.limit("makeslice-size")
	}
	et := under(x.Type()).(*types.Slice).Elem()
	return ex.newSlice(st, et, n, c), actRet
}

func (ex *Exec) newSlice(st *State, et types.Type, n, c int) Slice {
	a := &Agg{e: make([]Value, c)}
	if c > 0 {
		z := ex.zero(et)
		for i := range a.e {
			a.e[i] = copyVal(z)
		}
	}
	id := st.alloc(a, nil)
	return Slice{arr: id, n: n, cap: c}
}

func (ex *Exec) idx64(t *Term, typ types.Type) *Term {
	if int(t.w) < 64 {
		if isUnsigned(typ) {
			return ex.tc.Zext(t, 64)
		}
		return ex.tc.Sext(t, 64)
	}
	return t
}

func (ex *Exec) indexAddr(st *State, f *Frame, x *ssa.IndexAddr) (Value, act) {
	idx := ex.idx64(ex.term(f, x.Index), x.Index.Type())
	var obj, off, n int
	var path []int32
	var et types.Type
	switch b := ex.val(f, x.X).(type) {
	case Slice:
		obj, path, off, n = b.arr, b.path, b.off, b.n
		et = under(x.X.Type()).(*types.Slice).Elem()
	case Ptr:
		if b.isNil() {
			return nil, ex.goPanicRT(st, "invalid memory address or nil pointer dereference", x.Pos())
		}
		at := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		obj, path, off, n = b.obj, b.path, 0, int(at.Len())
		et = at.Elem()
	default:
		panic(unsupported("indexaddr"))
	}
	if !ex.decide(st, ex.tc.Ult(idx, ex.tc.Const(uint64(n), 64))) {
		return nil, ex.goPanicRT(st, "index out of range", x.Pos())
	}
	if sl, ok := ex.val(f, x.X).(Slice); ok {
		if sc := ex.viewScale(st, sl, et); sc > 0 {
			return Ptr{obj: obj, path: extPath(path, off+int(ex.concInt(st, idx))*sc)}, actRet
		}
	}
	if idx.op == OConst {
		return Ptr{obj: obj, path: extPath(path, off+int(idx.val))}, actRet
	}
	if isScalar(et) && n <= 512 && (!st.multi || ex.symRead(st, obj, x)) {
		p := make([]int32, len(path)+2)
		copy(p, path)
		p[len(path)] = int32(off)
		p[len(path)+1] = int32(n)
		return Ptr{obj: obj, path: p, sym: idx}, actRet
	}
	k := int(ex.concInt(st, idx))
	return Ptr{obj: obj, path: extPath(path, off+k)}, actRet
}

// viewScale is the number of byte cells one element of type et covers when a
// byte array is accessed through an unsafe cast, else 0.
func (ex *Exec) viewScale(st *State, s Slice, et types.Type) int {
	w := widthOf(et)
	if s.n == 0 || w <= 8 || isFloat(et) {
		return 0
	}
	a := ex.sliceArr(st, s)
	if s.off >= len(a.e) {
		return 0
	}
	if t, ok := a.e[s.off].(*Term); ok && t.w == 8 {
		return w / 8
	}
	return 0
}

func (ex *Exec) index(st *State, f *Frame, x *ssa.Index) (Value, act) {
	idx := ex.idx64(ex.term(f, x.Index), x.Index.Type())
	var e []Value
	switch b := ex.val(f, x.X).(type) {
	case *Agg:
		e = b.e
	case Str:
		return ex.strIndex(st, b, idx, x.Pos())
	default:
		panic(unsupported("index"))
	}
	if !ex.decide(st, ex.tc.Ult(idx, ex.tc.Const(uint64(len(e)), 64))) {
		return nil, ex.goPanicRT(st, "index out of range", x.Pos())
	}
	if idx.op == OConst {
		return copyVal(e[idx.val]), actRet
	}
	if _, ok := e[0].(*Term); ok {
		return ex.symSelect(e, idx), actRet
	}
	return copyVal(e[ex.concInt(st, idx)]), actRet
}

func (ex *Exec) strIndex(st *State, s Str, idx *Term, pos token.Pos) (Value, act) {
	if !ex.decide(st, ex.tc.Ult(idx, ex.tc.Const(uint64(s.Len()), 64))) {
		return nil, ex.goPanicRT(st, "index out of range", pos)
	}
	if idx.op == OConst {
		if s.t != nil {
			return s.t[idx.val], actRet
		}
		return ex.tc.Const(uint64(s.s[idx.val]), 8), actRet
	}
	bs := ex.strBytes(s)
	e := make([]Value, len(bs))
	for i, b := range bs {
		e[i] = b
	}
	return ex.symSelect(e, idx), actRet
}

func (ex *Exec) lookup(st *State, f *Frame, x *ssa.Lookup) (Value, act) {
	switch b := ex.val(f, x.X).(type) {
	case Str:
		return ex.strIndex(st, b, ex.idx64(ex.term(f, x.Index), x.Index.Type()), x.Pos())
	case MapRef:
		mt := under(x.X.Type()).(*types.Map)
		var v Value
		found := false
		if b.obj != 0 {
			if st.multi {
				ex.raceAccess(st, Ptr{obj: b.obj}, false, x.Pos())
			}
			k := ex.val(f, x.Index)
			if msg := ex.unhashable(k); msg != "" {
				return nil, ex.goPanicRT(st, msg, x.Pos())
			}
			i := ex.mapFind(st, b.obj, k, mt.Key())
			if i >= 0 {
				found = true
				v = copyVal(st.getObj(ex, b.obj).v.(*MapObj).ents[i].v)
			}
		}
		if !found {
			v = ex.zero(mt.Elem())
		}
		if x.CommaOk {
			return Tuple{v, ex.tc.Bool(found)}, actRet
		}
		return v, actRet
	}
	panic(unsupported("lookup"))
}

func (ex *Exec) unhashable(k Value) string {
	if i, ok := k.(Iface); ok && i.typ != nil && !types.Comparable(i.typ) {
		return "hash of unhashable type " + typeStr(i.typ)
	}
	return ""
}

// encodeKey gives an injective string for fully concrete keys.
func (ex *Exec) encodeKey(v Value, t types.Type) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.op != OConst {
			return "", false
		}
		val := x.val
		if isFloat(t) {
			fl := fbits(val, x.w)
			if math.IsNaN(fl) {
				return "", false
			}
			if fl == 0 {
				val = 0
			}
		}
		return fmt.Sprintf("%d", val), true
	case Str:
		if x.t != nil {
			return "", false
		}
		return fmt.Sprintf("%d:%s", len(x.s), x.s), true
	case Ptr:
		if x.sym != nil {
			return "", false
		}
		return fmt.Sprintf("p%d%v", x.obj, x.path), true
	case ChanRef:
		return fmt.Sprintf("c%d", x.obj), true
	case Iface:
		if x.typ == nil {
			return "nil", true
		}
		s, ok := ex.encodeKey(x.v, x.typ)
		return "i(" + typeStr(x.typ) + ")" + s, ok
	case *Agg:
		var sb strings.Builder
		for i, e := range x.e {
			var et types.Type
			switch u := under(t).(type) {
			case *types.Struct:
				et = u.Field(i).Type()
			case *types.Array:
				et = u.Elem()
			}
			s, ok := ex.encodeKey(e, et)
			if !ok {
				return "", false
			}
			sb.WriteString(s + ",")
		}
		return sb.String(), true
	}
	return "", false
}

func (ex *Exec) mapFind(st *State, obj int, k Value, kt types.Type) int {
	m := st.getObj(ex, obj).v.(*MapObj)
	ks, conc := ex.encodeKey(k, kt)
	if conc {
		if i, ok := m.conc[ks]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.ents {
		eq := ex.valEq(st, m.ents[i].k, k, kt)
		if eq.isFalse() {
			continue
		}
		if ex.decide(st, eq) {
			return i
		}
	}
	return -1
}

func (ex *Exec) mapSet(st *State, obj int, k, v Value, kt types.Type) {
	i := ex.mapFind(st, obj, k, kt)
	m := st.getWObj(ex, obj).v.(*MapObj)
	if i >= 0 {
		m.ents[i].v = copyVal(v)
		return
	}
	ks, conc := ex.encodeKey(k, kt)
	m.ents = append(m.ents, MapEnt{seq: m.next, k: copyVal(k), v: copyVal(v)})
	m.next++
	if conc {
		m.conc[ks] = len(m.ents) - 1
	} else {
		m.nsym++
	}
}

func (ex *Exec) mapDelete(st *State, obj int, k Value, kt types.Type) {
	i := ex.mapFind(st, obj, k, kt)
	if i < 0 {
		return
	}
	m := st.getWObj(ex, obj).v.(*MapObj)
	m.ents = append(append([]MapEnt(nil), m.ents[:i]...), m.ents[i+1:]...)
	ex.mapReindex(m, kt)
}

func (ex *Exec) mapReindex(m *MapObj, kt types.Type) {
	m.conc = map[string]int{}
	m.nsym = 0
	for i := range m.ents {
		if ks, ok := ex.encodeKey(m.ents[i].k, kt); ok {
			m.conc[ks] = i
		} else {
			m.nsym++
		}
	}
}

func (ex *Exec) mapUpdate(st *State, f *Frame, x *ssa.MapUpdate) {
	m := ex.val(f, x.Map).(MapRef)
	if m.obj == 0 {
		ex.goPanicRT(st, "assignment to entry in nil map", x.Pos())
		return
	}
	k := ex.val(f, x.Key)
	if msg := ex.unhashable(k); msg != "" {
		ex.goPanicRT(st, msg, x.Pos())
		return
	}
	if st.multi {
		ex.raceAccess(st, Ptr{obj: m.obj}, true, x.Pos())
	}
	ex.mapSet(st, m.obj, k, ex.val(f, x.Value), under(x.Map.Type()).(*types.Map).Key())
	f.pc++
}

func (ex *Exec) next(st *State, f *Frame, x *ssa.Next) (Value, act) {
	it := ex.val(f, x.Iter).(*Iter)
	r := f.fi.idx[x.Iter]
	if x.IsString {
		if it.pos >= it.str.Len() {
			return Tuple{ex.tc.fls, ex.tc.Const(0, 64), ex.tc.Const(0, 32)}, actRet
		}
		rn, sz := ex.decodeRune(st, ex.strBytes(*it.str)[it.pos:])
		f.regs[r] = &Iter{str: it.str, pos: it.pos + sz}
		return Tuple{ex.tc.tru, ex.tc.Const(uint64(it.pos), 64), rn}, actRet
	}
	tt := x.Type().(*types.Tuple)
	fin := func() (Value, act) {
		var k, v Value
		if b, ok := under(tt.At(1).Type()).(*types.Basic); !ok || b.Kind() != types.Invalid {
			k = ex.zero(tt.At(1).Type())
		}
		if b, ok := under(tt.At(2).Type()).(*types.Basic); !ok || b.Kind() != types.Invalid {
			v = ex.zero(tt.At(2).Type())
		}
		return Tuple{ex.tc.fls, k, v}, actRet
	}
	if it.mp == 0 {
		return fin()
	}
	if st.multi {
		ex.raceAccess(st, Ptr{obj: it.mp}, false, x.Pos())
	}
	m := st.getObj(ex, it.mp).v.(*MapObj)
	seen := map[int]bool{}
	for _, s := range it.keys {
		seen[s] = true
	}
	var cand []int
	for i := range m.ents {
		if !seen[m.ents[i].seq] {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return fin()
	}
	c := 0
	if ex.cfg.MapOrder {
		c = ex.choose(st, len(cand))
	}
	e := m.ents[cand[c]]
	nk := append(append([]int(nil), it.keys...), e.seq)
	f.regs[r] = &Iter{mp: it.mp, keys: nk}
	return Tuple{ex.tc.tru, copyVal(e.k), copyVal(e.v)}, actRet
}

// decodeRune mirrors utf8.DecodeRune over symbolic bytes.
func (ex *Exec) decodeRune(st *State, b []*Term) (*Term, int) {
	tc := ex.tc
	c8 := func(v uint64) *Term { return tc.Const(v, 8) }
	r32 := func(t *Term) *Term { return tc.Zext(t, 32) }
	bad := tc.Const(0xFFFD, 32)
	b0 := b[0]
	if ex.decide(st, tc.Ult(b0, c8(0x80))) {
		return r32(b0), 1
	}
	if !ex.decide(st, tc.Ule(c8(0xC2), b0)) || !ex.decide(st, tc.Ule(b0, c8(0xF4))) {
		return bad, 1
	}
	if len(b) < 2 {
		return bad, 1
	}
	in := func(t *Term, lo, hi uint64) *Term { return tc.And(tc.Ule(c8(lo), t), tc.Ule(t, c8(hi))) }
	lo6 := func(t *Term) *Term { return r32(tc.Bin(OBAnd, t, c8(0x3f))) }
	sh := func(t *Term, k uint64) *Term { return tc.Bin(OShl, t, tc.Const(k, 32)) }
	or := func(a, b *Term) *Term { return tc.Bin(OBOr, a, b) }
	b1 := b[1]
	if ex.decide(st, tc.Ult(b0, c8(0xE0))) {
		if !ex.decide(st, in(b1, 0x80, 0xBF)) {
			return bad, 1
		}
		return or(sh(r32(tc.Bin(OBAnd, b0, c8(0x1f))), 6), lo6(b1)), 2
	}
	if ex.decide(st, tc.Ult(b0, c8(0xF0))) {
		ok1 := tc.Ite(tc.Eq(b0, c8(0xE0)), in(b1, 0xA0, 0xBF), tc.Ite(tc.Eq(b0, c8(0xED)), in(b1, 0x80, 0x9F), in(b1, 0x80, 0xBF)))
		if len(b) < 3 {
			return bad, 1
		}
		if !ex.decide(st, ok1) || !ex.decide(st, in(b[2], 0x80, 0xBF)) {
			return bad, 1
		}
		return or(or(sh(r32(tc.Bin(OBAnd, b0, c8(0x0f))), 12), sh(lo6(b1), 6)), lo6(b[2])), 3
	}
	ok1 := tc.Ite(tc.Eq(b0, c8(0xF0)), in(b1, 0x90, 0xBF), tc.Ite(tc.Eq(b0, c8(0xF4)), in(b1, 0x80, 0x8F), in(b1, 0x80, 0xBF)))
	if len(b) < 4 {
		return bad, 1
	}
	if !ex.decide(st, ok1) || !ex.decide(st, in(b[2], 0x80, 0xBF)) || !ex.decide(st, in(b[3], 0x80, 0xBF)) {
		return bad, 1
	}
	return or(or(or(sh(r32(tc.Bin(OBAnd, b0, c8(0x07))), 18), sh(lo6(b1), 12)), sh(lo6(b[2]), 6)), lo6(b[3])), 4
}

// encodeRune mirrors utf8.AppendRune.
func (ex *Exec) encodeRune(st *State, r *Term) []*Term {
	tc := ex.tc
	c := func(v uint64) *Term { return tc.Const(v, 32) }
	b8 := func(t *Term, hi uint64) *Term { return tc.Bin(OBOr, tc.Extract(t, 7, 0), tc.Const(hi, 8)) }
	sr := func(k uint64) *Term { return tc.Bin(OLshr, r, c(k)) }
	l6 := func(t *Term) *Term { return b8(tc.Bin(OBAnd, t, c(0x3f)), 0x80) }
	if ex.decide(st, tc.Ult(r, c(0x80))) {
		return []*Term{tc.Extract(r, 7, 0)}
	}
	if ex.decide(st, tc.Ult(r, c(0x800))) {
		return []*Term{b8(sr(6), 0xC0), l6(r)}
	}
	if !ex.decide(st, tc.Ule(r, c(0x10FFFF))) || ex.decide(st, tc.And(tc.Ule(c(0xD800), r), tc.Ule(r, c(0xDFFF)))) {
		return []*Term{tc.Const(0xEF, 8), tc.Const(0xBF, 8), tc.Const(0xBD, 8)}
	}
	if ex.decide(st, tc.Ult(r, c(0x10000))) {
		return []*Term{b8(sr(12), 0xE0), l6(sr(6)), l6(r)}
	}
	return []*Term{b8(sr(18), 0xF0), l6(sr(12)), l6(sr(6)), l6(r)}
}

func (ex *Exec) slice(st *State, f *Frame, x *ssa.Slice) (Value, act) {
	get := func(v ssa.Value, def int) *Term {
		if v == nil {
			return ex.tc.Const(uint64(def), 64)
		}
		return ex.idx64(ex.term(f, v), v.Type())
	}
	oob := func() (Value, act) { return nil, ex.goPanicRT(st, "slice bounds out of range", x.Pos()) }
	switch b := ex.val(f, x.X).(type) {
	case Str:
		lo, hi := get(x.Low, 0), get(x.High, b.Len())
		if !ex.decide(st, ex.tc.And(ex.tc.Ule(hi, ex.tc.Const(uint64(b.Len()), 64)), ex.tc.Ule(lo, hi))) {
			return oob()
		}
		l, h := ex.concInt(st, lo), ex.concInt(st, hi)
		if b.t == nil {
			return Str{s: b.s[l:h]}, actRet
		}
		return ex.mkStr(b.t[l:h]), actRet
	case Slice, Ptr:
		var s Slice
		if p, ok := b.(Ptr); ok {
			if p.isNil() {
				return nil, ex.goPanicRT(st, "invalid memory address or nil pointer dereference", x.Pos())
			}
			n := int(under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
			s = Slice{arr: p.obj, path: p.path, n: n, cap: n}
		} else {
			s = b.(Slice)
		}
		lo, hi, mx := get(x.Low, 0), get(x.High, s.n), get(x.Max, s.cap)
		if !ex.decide(st, ex.tc.And(ex.tc.Ule(mx, ex.tc.Const(uint64(s.cap), 64)), ex.tc.And(ex.tc.Ule(hi, mx), ex.tc.Ule(lo, hi)))) {
			return oob()
		}
		l, h, m := int(ex.concInt(st, lo)), int(ex.concInt(st, hi)), int(ex.concInt(st, mx))
		if s.arr == 0 {
			return Slice{}, actRet
		}
		return Slice{arr: s.arr, path: s.path, off: s.off + l, n: h - l, cap: m - l}, actRet
	}
	panic(unsupported("slice op"))
}

func (ex *Exec) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) (Value, act) {
	iv := ex.val(f, x.X).(Iface)
	ok := false
	var v Value
	if iv.typ != nil {
		if types.IsInterface(x.AssertedType) {
			if ex.P.implements(iv.typ, under(x.AssertedType).(*types.Interface)) {
				ok = true
				v = iv
			}
		} else if types.Identical(iv.typ, x.AssertedType) {
			ok = true
			v = copyVal(iv.v)
		}
	}
	if x.CommaOk {
		if !ok {
			v = ex.zero(x.AssertedType)
		}
		return Tuple{v, ex.tc.Bool(ok)}, actRet
	}
	if !ok {
		n := "nil"
		if iv.typ != nil {
			n = typeStr(iv.typ)
		}
		return nil, ex.goPanicRT(st, "interface conversion: interface is "+n+", not "+typeStr(x.AssertedType), x.Pos())
	}
	return v, actRet
}

// profSteps counts executed instructions per function (debugging, one worker).
var profSteps map[string]int

func init() {
	if os.Getenv("GOSYM_PROF") != "" {
		profSteps = map[string]int{}
	}
}

func dumpProf() {
	var k []string
	for f := range profSteps {
		k = append(k, f)
	}
	sort.Slice(k, func(i, j int) bool { return profSteps[k[i]] > profSteps[k[j]] })
	for i := 0; i < 25 && i < len(k); i++ {
		fmt.Fprintln(os.Stderr, profSteps[k[i]]*16, k[i])
	}
	fmt.Fprintln(os.Stderr)
}
