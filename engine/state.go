package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type PC struct {
	cond    *Term
	implied bool
	up      *PC
	n       int
}

type Draw struct {
	name string // base name
	idx  int    // occurrence
	kind string // "int","bytes"
	t    []*Term
	wide bool
	up   *Draw
}

type Obs struct {
	label string
	v     Value
	up    *Obs
	n     int
}

type deferred struct {
	call  *ssa.CallCommon
	fn    Value // *Closure or nil for builtin
	bltn  *ssa.Builtin
	args  []Value
	instr ssa.Instruction
}

type Panic struct {
	val       Value
	recovered bool
	msg       string
	pos       token.Pos
	stack     string
}

type Frame struct {
	own       *owner
	fn        *ssa.Function
	fi        *FuncInfo
	regs      []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        int
	defers    []*deferred
	dst       int32 // register in the caller's frame, -1 none
	isDefer   bool  // invoked as a deferred call of the frame below
	unwinding bool
	running   bool // RunDefers in progress
	recov     bool // panic recovered; finish defers then return
	unw       []int32
	pos       token.Pos
	vop       *VOp                                 // pseudo frame: pending visible operation
	onRet     func(ex *Exec, st *State, res Value) // engine continuation (pure)
}

type G struct {
	own    *owner
	id     int
	frames []*Frame
	pan    *Panic
	done   bool
	vc     VC
	name   string
	parent int
	quiet  int // inside an environment model
	inst   int // number in native replay, -1 when started by code not rewritten
}

type State struct {
	own    *owner
	heap   Heap
	gs     []*G
	cur    int
	pc     *PC
	model  *Model
	draws  *Draw
	aes    *aesEnt
	names  map[string]int
	obs    *Obs
	nch    int
	sched  []SchedStep
	steps  int
	nconc  int
	multi  bool // more than one goroutine was ever started
	depth  int
	weight int // number of paths merged into this state
	delays int // 0: every schedule; k+1: k more deviations from the fixed one
	order  int // the fixed schedule: 0 first started, 1 last started, 2 taking turns
	lastG  int
	ninst  int
	tags   map[string]bool
	clock  *Term
	parked bool
	leakOK bool
	expect string
	nfork  int
}

func (st *State) fork() *State {
	n := *st
	oldOwn := st.own
	n.own = &owner{}
	st.own = &owner{}
	n.heap.chunks = append([]*chunk(nil), st.heap.chunks...)
	n.gs = append([]*G(nil), st.gs...)
	n.names = make(map[string]int, len(st.names))
	for k, v := range st.names {
		n.names[k] = v
	}
	if st.tags != nil {
		n.tags = make(map[string]bool, len(st.tags))
		for k, v := range st.tags {
			n.tags[k] = v
		}
	}
	n.sched = st.sched[:len(st.sched):len(st.sched)]
	st.nfork++
	// the running frame is copied eagerly, so that a frame pointer held by the
	// instruction being executed stays valid (and private) on this side
	if st.cur < len(st.gs) {
		if g := st.gs[st.cur]; len(g.frames) > 0 {
			ng := n.g(n.cur)
			n.wframe(ng, len(ng.frames)-1)
			if g.own == oldOwn {
				f := g.frames[len(g.frames)-1]
				g.own = st.own
				if f.own == oldOwn {
					f.own = st.own
				}
			}
		}
	}
	return &n
}

// g returns goroutine i writable.
func (st *State) g(i int) *G {
	g := st.gs[i]
	if g.own != st.own {
		n := *g
		n.own = st.own
		n.frames = append([]*Frame(nil), g.frames...)
		n.vc = append(VC(nil), g.vc...)
		if g.pan != nil {
			p := *g.pan
			n.pan = &p
		}
		st.gs[i] = &n
		return &n
	}
	return g
}

func (st *State) G() *G { return st.g(st.cur) }

func (st *State) wframe(g *G, i int) *Frame {
	f := g.frames[i]
	if f.own != st.own {
		n := *f
		n.own = st.own
		n.regs = append([]Value(nil), f.regs...)
		n.defers = append([]*deferred(nil), f.defers...)
		n.unw = append([]int32(nil), f.unw...)
		if f.vop != nil {
			v := *f.vop
			n.vop = &v
		}
		g.frames[i] = &n
		return &n
	}
	return f
}

func (st *State) top() *Frame {
	g := st.G()
	if len(g.frames) == 0 {
		return nil
	}
	return st.wframe(g, len(g.frames)-1)
}

func (st *State) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == OAnd {
		st.addPC(t.a)
		st.addPC(t.b)
		return
	}
	n := 0
	if st.pc != nil {
		n = st.pc.n
	}
	st.pc = &PC{cond: t, up: st.pc, n: n + 1}
}

func (st *State) addFact(t *Term) {
	n := 0
	if st.pc != nil {
		n = st.pc.n
	}
	st.pc = &PC{cond: t, implied: true, up: st.pc, n: n + 1}
}

// known: 1 true, -1 false, 0 unknown
func (st *State) known(tc *TermCtx, c *Term) int {
	nc := tc.Not(c)
	for p := st.pc; p != nil; p = p.up {
		if p.cond == c {
			return 1
		}
		if p.cond == nc {
			return -1
		}
	}
	return 0
}

// ---- function info ----

type FuncInfo struct {
	fn       *ssa.Function
	idx      map[ssa.Value]int32
	n        int
	globs    map[ssa.Instruction][]*ssa.Global
	live     []map[int32]bool // live-in per block index
	ipdom    []int            // immediate post-dominator block index, -1 = exit, -2 = none
	loopHead map[*ssa.BasicBlock]bool
}

func buildFuncInfo(fn *ssa.Function) *FuncInfo {
	fi := &FuncInfo{fn: fn, idx: map[ssa.Value]int32{}, globs: map[ssa.Instruction][]*ssa.Global{}, loopHead: map[*ssa.BasicBlock]bool{}}
	add := func(v ssa.Value) {
		if _, ok := fi.idx[v]; !ok {
			fi.idx[v] = int32(fi.n)
			fi.n++
		}
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	var ops []*ssa.Value
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				fi.loopHead[s] = true
			}
		}
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			ops = in.Operands(ops[:0])
			for _, o := range ops {
				if *o == nil {
					continue
				}
				if g, ok := (*o).(*ssa.Global); ok {
					fi.globs[in] = append(fi.globs[in], g)
				}
			}
		}
	}
	return fi
}

// liveness of registers at block entry (after phis are resolved: phi results
// of the block itself count as live when used).
func (fi *FuncInfo) liveIn(b int) map[int32]bool {
	if fi.live == nil {
		fi.computeLive()
	}
	return fi.live[b]
}

func (fi *FuncInfo) computeLive() {
	n := len(fi.fn.Blocks)
	in := make([]map[int32]bool, n)
	for i := range in {
		in[i] = map[int32]bool{}
	}
	var ops []*ssa.Value
	changed := true
	for changed {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fi.fn.Blocks[bi]
			live := map[int32]bool{}
			succs := b.Succs
			for _, s := range succs {
				for r := range in[s.Index] {
					live[r] = true
				}
				// remove phi defs of s, add phi uses from b
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, fi.idx[ph])
				}
			}
			for _, s := range succs {
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b {
							if r, ok := fi.idx[ph.Edges[k]]; ok {
								live[r] = true
							}
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if _, ok := ins.(*ssa.Phi); ok {
					continue // phi results stay live-in of this block (resolved at entry)
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(live, fi.idx[v])
				}
				ops = ins.Operands(ops[:0])
				for _, o := range ops {
					if *o == nil {
						continue
					}
					if r, ok := fi.idx[*o]; ok {
						live[r] = true
					}
				}
			}
			if len(live) != len(in[bi]) {
				in[bi] = live
				changed = true
			}
		}
	}
	// recover block reads everything it needs via memory (named results are allocs)
	if fi.fn.Recover != nil {
		extra := in[fi.fn.Recover.Index]
		for i := range in {
			for r := range extra {
				in[i][r] = true
			}
		}
	}
	fi.live = in
}

// postDom computes the immediate post-dominator, ignoring panicking blocks.
func (fi *FuncInfo) postDom(b *ssa.BasicBlock) int {
	if fi.ipdom == nil {
		fi.computePdom()
	}
	return fi.ipdom[b.Index]
}

func (fi *FuncInfo) computePdom() {
	n := len(fi.fn.Blocks)
	exit := n
	// sets as bitsets
	words := (n + 1 + 63) / 64
	full := make([]uint64, words)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << (uint(i) % 64)
	}
	pd := make([][]uint64, n+1)
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[exit] = make([]uint64, words)
	pd[exit][exit/64] |= 1 << (uint(exit) % 64)
	succ := func(i int) []int {
		b := fi.fn.Blocks[i]
		if len(b.Succs) == 0 {
			if len(b.Instrs) > 0 {
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
					return nil
				}
			}
			return []int{exit}
		}
		var r []int
		for _, s := range b.Succs {
			r = append(r, s.Index)
		}
		return r
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			nw := append([]uint64(nil), full...)
			for _, s := range succ(i) {
				for w := range nw {
					nw[w] &= pd[s][w]
				}
			}
			nw[i/64] |= 1 << (uint(i) % 64)
			for w := range nw {
				if nw[w] != pd[i][w] {
					ch = true
				}
			}
			pd[i] = nw
		}
	}
	fi.ipdom = make([]int, n)
	for i := 0; i < n; i++ {
		fi.ipdom[i] = -2
		if len(succ(i)) == 0 {
			continue
		}
		// ipdom = strict post-dominator j whose pdom set contains all other strict pdoms
		cnt := func(s []uint64) int {
			c := 0
			for k := 0; k <= n; k++ {
				if s[k/64]>>(uint(k)%64)&1 == 1 {
					c++
				}
			}
			return c
		}
		mine := cnt(pd[i])
		for j := 0; j <= n; j++ {
			if j != i && pd[i][j/64]>>(uint(j)%64)&1 == 1 && cnt(pd[j]) == mine-1 {
				if j == exit {
					fi.ipdom[i] = -1
				} else {
					fi.ipdom[i] = j
				}
			}
		}
	}
}

// ---- types ----

func under(t types.Type) types.Type { return t.Underlying() }

func widthOf(t types.Type) int {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return -1
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64
	}
	return -1
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isScalar(t types.Type) bool { return widthOf(t) >= 0 }

func (ex *Exec) zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if u.Info()&types.IsString != 0 {
			return Str{}
		}
		if u.Kind() == types.UntypedNil {
			return Ptr{}
		}
		w := widthOf(t)
		if w < 0 {
			if u.Info()&types.IsComplex != 0 {
				return &Agg{e: []Value{ex.tc.Const(0, 64), ex.tc.Const(0, 64)}}
			}
			panic(unsupported("zero of " + t.String()))
		}
		return ex.tc.Const(0, w)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapRef{}
	case *types.Chan:
		return ChanRef{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		a := &Agg{e: make([]Value, u.NumFields())}
		for i := range a.e {
			a.e[i] = ex.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(u.Len())
		if n > 1<<20 {
			panic(unsupported("huge array"))
		}
		a := &Agg{e: make([]Value, n)}
		if n > 0 {
			z := ex.zero(u.Elem())
			for i := range a.e {
				a.e[i] = copyVal(z)
			}
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = ex.zero(u.At(i).Type())
		}
		return tp
	}
	panic(unsupported("zero of " + t.String()))
}

type unsupportedErr string

func unsupported(s string) unsupportedErr { return unsupportedErr(s) }

func posOf(prog *ssa.Program, p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := prog.Fset.Position(p)
	f := ps.Filename
	f = strings.TrimPrefix(f, "/repo/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}
