package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver drives one persistent z3-new process (push/pop), with a one-shot
// portfolio (cvc5, z3, z3-new) for queries it does not finish.
type Solver struct {
	c        *TermCtx
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	inPipe   io.WriteCloser
	defs     int
	emitted  map[int32]bool
	timeout  int // ms, for the incremental process
	fallback int // ms
	queries  int
	nSat     int
	nUnsat   int
	nUnknown int
	nFall    int
	wall     time.Duration
	maxQ     time.Duration
	errors   int
	lastErr  string
	crossN   int // diff every n-th query against another solver (0 = never)
	crossed  int
	crossBad int
	curTO    int
	dead     time.Time
}

func NewSolver(c *TermCtx) *Solver {
	return &Solver{c: c, timeout: 5000, fallback: 60000}
}

func (s *Solver) start() error {
	s.Close()
	s.emitted = map[int32]bool{}
	s.defs = 0
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeout)
	s.curTO = s.timeout
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func bvc(v uint64, w uint16) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func tname(t *Term) string {
	if t.op == OConst {
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return bvc(t.val, t.w)
	}
	return "t" + strconv.Itoa(int(t.id))
}

var opn = map[Op]string{OAnd: "and", OOr: "or", ONot: "not", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat",
	OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq"}

func fpSort(w uint16) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}
func toFP(t *Term) string { return fmt.Sprintf("((_ to_fp %s) %s)", fpSort(t.w), tname(t)) }

func sortOf(t *Term) string {
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func (s *Solver) body(t *Term) string {
	a, b, c := t.a, t.b, t.c
	switch t.op {
	case ONot, OBNot, ONeg:
		return "(" + opn[t.op] + " " + tname(a) + ")"
	case OIte:
		return "(ite " + tname(a) + " " + tname(b) + " " + tname(c) + ")"
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+int(t.w)-1, t.val, tname(a))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-a.w, tname(a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-a.w, tname(a))
	case OMulHi:
		return fmt.Sprintf("((_ extract 127 64) (bvmul ((_ zero_extend 64) %s) ((_ zero_extend 64) %s)))", tname(a), tname(b))
	case OFAdd, OFSub, OFMul, OFDiv:
		return fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", opn[t.op], toFP(a), toFP(b))
	case OFLt, OFLe, OFEq:
		return fmt.Sprintf("(%s %s %s)", opn[t.op], toFP(a), toFP(b))
	case OFFromS:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), tname(a))
	case OFFromU:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpSort(t.w), tname(a))
	case OFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, toFP(a))
	case OFToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, toFP(a))
	case OFToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), toFP(a))
	}
	return "(" + opn[t.op] + " " + tname(a) + " " + tname(b) + ")"
}

func (s *Solver) emit(w *bufio.Writer, done map[int32]bool, t *Term) {
	if t == nil || t.op == OConst || done[t.id] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i == 0 && done[f.t.id] {
			st = st[:len(st)-1]
			continue
		}
		var ch *Term
		for f.i < 3 {
			switch f.i {
			case 0:
				ch = f.t.a
			case 1:
				ch = f.t.b
			case 2:
				ch = f.t.c
			}
			f.i++
			if ch != nil && ch.op != OConst && !done[ch.id] {
				break
			}
			ch = nil
		}
		if ch != nil {
			st = append(st, fr{ch, 0})
			continue
		}
		if f.i == 3 && !done[f.t.id] {
			done[f.t.id] = true
			if f.t.op == OVar {
				fmt.Fprintf(w, "(declare-const %s %s)\n", tname(f.t), sortOf(f.t))
			} else {
				fmt.Fprintf(w, "(define-fun %s () %s %s)\n", tname(f.t), sortOf(f.t), s.body(f.t))
			}
		}
		st = st[:len(st)-1]
	}
}

func parseVal(v string) uint64 {
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		x, _ := strconv.ParseUint(v[2:], 16, 64)
		return x
	case strings.HasPrefix(v, "#b"):
		x, _ := strconv.ParseUint(v[2:], 2, 64)
		return x
	}
	return 0
}

func parseModel(txt string, byName map[string]*Term, m *Model) {
	// ((t1 #x00) (t2 true) ...)
	txt = strings.NewReplacer("(", " ", ")", " ").Replace(txt)
	f := strings.Fields(txt)
	for i := 0; i+1 < len(f); i += 2 {
		if t, ok := byName[f[i]]; ok {
			m.vals[t.id] = parseVal(f[i+1])
		} else {
			i--
		}
	}
}

// Check decides the conjunction of conds. base (may be nil) supplies values
// for variables not occurring in conds.
func (s *Solver) Check(conds []*Term, wantModel bool, base *Model) (Res, *Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.wall += d
		if d > s.maxQ {
			s.maxQ = d
		}
	}()
	s.queries++
	if s.cmd == nil || s.defs > 300000 {
		if err := s.start(); err != nil {
			s.errors++
			s.lastErr = err.Error()
			return Unknown, nil
		}
	}
	n0 := len(s.emitted)
	for _, t := range conds {
		s.emit(s.in, s.emitted, t)
	}
	s.defs += len(s.emitted) - n0
	s.in.WriteString("(push 1)\n")
	for _, t := range conds {
		s.in.WriteString("(assert " + tname(t) + ")\n")
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	r, line := s.readRes()
	var m *Model
	switch r {
	case Sat:
		s.nSat++
		if wantModel {
			m = s.getModel(conds, base)
			if m == nil {
				r = Unknown
			}
		}
	case Unsat:
		s.nUnsat++
	}
	if r != Unknown || s.cmd != nil {
		s.in.WriteString("(pop 1)\n")
	}
	if r == Unknown {
		_ = line
		r, m = s.oneShot(conds, wantModel, base)
		s.nFall++
		switch r {
		case Sat:
			s.nSat++
		case Unsat:
			s.nUnsat++
		default:
			s.nUnknown++
		}
	} else if s.crossN > 0 && s.queries%s.crossN == 0 {
		r2 := s.cross(conds)
		if r2 != Unknown {
			s.crossed++
			if r2 != r {
				s.crossBad++
				fmt.Fprintf(os.Stderr, "SOLVER DISAGREEMENT z3-new=%v other=%v\n", r, r2)
			}
		}
	}
	return r, m
}

func (s *Solver) readRes() (Res, string) {
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.Close()
			s.errors++
			s.lastErr = "solver died"
			return Unknown, ""
		}
		line = strings.TrimSpace(line)
		switch line {
		case "sat":
			return Sat, line
		case "unsat":
			return Unsat, line
		case "unknown", "timeout":
			return Unknown, line
		case "":
			continue
		}
		if strings.HasPrefix(line, "(error") {
			s.errors++
			s.lastErr = line
			s.Close()
			return Unknown, line
		}
	}
}

func (s *Solver) condVars(conds []*Term) []*Term {
	var vs []uint64
	for _, t := range conds {
		vs = orVars(vs, t.vars)
	}
	var out []*Term
	for i, wd := range vs {
		for b := 0; b < 64; b++ {
			if wd>>uint(b)&1 == 1 {
				out = append(out, s.c.vars[i*64+b])
			}
		}
	}
	return out
}

func mergeBase(base *Model) *Model {
	m := NewModel()
	if base != nil {
		for k, v := range base.vals {
			m.vals[k] = v
		}
	}
	return m
}

func (s *Solver) getModel(conds []*Term, base *Model) *Model {
	vars := s.condVars(conds)
	m := mergeBase(base)
	if len(vars) == 0 {
		return m
	}
	by := map[string]*Term{}
	s.in.WriteString("(get-value (")
	for _, v := range vars {
		s.in.WriteString(tname(v) + " ")
		by[tname(v)] = v
	}
	s.in.WriteString("))\n")
	s.in.Flush()
	var buf bytes.Buffer
	depth := 0
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.Close()
			s.errors++
			return nil
		}
		if strings.HasPrefix(line, "(error") {
			s.errors++
			s.lastErr = line
			s.Close()
			return nil
		}
		buf.WriteString(line)
		depth += strings.Count(line, "(") - strings.Count(line, ")")
		if depth <= 0 && strings.TrimSpace(line) != "" {
			break
		}
	}
	parseModel(buf.String(), by, m)
	return m
}

func (s *Solver) script(conds []*Term, logic string, vars []*Term) []byte {
	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	fmt.Fprintf(w, "(set-option :produce-models true)\n")
	if logic != "" {
		fmt.Fprintf(w, "(set-logic %s)\n", logic)
	}
	done := map[int32]bool{}
	for _, t := range conds {
		s.emit(w, done, t)
	}
	for _, t := range conds {
		fmt.Fprintf(w, "(assert %s)\n", tname(t))
	}
	fmt.Fprintf(w, "(check-sat)\n")
	if len(vars) > 0 {
		fmt.Fprintf(w, "(get-value (")
		for _, v := range vars {
			fmt.Fprintf(w, "%s ", tname(v))
		}
		fmt.Fprintf(w, "))\n")
	}
	w.Flush()
	return buf.Bytes()
}

func hasFP(conds []*Term) bool {
	seen := map[int32]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.op >= OFAdd {
			return true
		}
		return rec(t.a) || rec(t.b) || rec(t.c)
	}
	for _, t := range conds {
		if rec(t) {
			return true
		}
	}
	return false
}

func (s *Solver) oneShot(conds []*Term, wantModel bool, base *Model) (Res, *Model) {
	fb := s.fallback
	if !s.dead.IsZero() {
		left := int(time.Until(s.dead) / time.Millisecond)
		if left < fb {
			fb = left
		}
		if fb < 500 {
			return Unknown, nil
		}
	}
	vars := s.condVars(conds)
	type ans struct {
		r   Res
		out string
	}
	sc := s.script(conds, "", vars)
	scLogic := s.script(conds, "QF_BV", vars)
	var cmds [][]string
	cmds = append(cmds, []string{"z3-new", "-in", "-smt2"})
	fp := hasFP(conds)
	if !fp {
		cmds = append(cmds, []string{"cvc5", "--lang", "smt2", "--produce-models", "--bitblast=eager", "-"},
			[]string{"cvc5", "--lang", "smt2", "--produce-models", "--solve-bv-as-int=sum", "-"})
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(fb)*time.Millisecond)
	defer cancel()
	ch := make(chan ans, len(cmds))
	for _, c := range cmds {
		go func(c []string) {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			if c[0] == "cvc5" {
				cmd.Stdin = bytes.NewReader(scLogic)
			} else {
				cmd.Stdin = bytes.NewReader(sc)
			}
			out, _ := cmd.Output()
			t := strings.TrimSpace(string(out))
			switch {
			case strings.HasPrefix(t, "unsat"):
				ch <- ans{Unsat, ""}
			case strings.HasPrefix(t, "sat"):
				ch <- ans{Sat, t[3:]}
			default:
				ch <- ans{Unknown, t}
			}
		}(c)
	}
	for range cmds {
		a := <-ch
		if a.r == Unsat {
			return Unsat, nil
		}
		if a.r == Sat {
			if !wantModel {
				return Sat, nil
			}
			m := mergeBase(base)
			by := map[string]*Term{}
			for _, v := range vars {
				by[tname(v)] = v
			}
			parseModel(a.out, by, m)
			ok := true
			for _, t := range conds {
				if m.Eval(t) != 1 {
					ok = false
				}
			}
			if ok {
				return Sat, m
			}
		}
	}
	return Unknown, nil
}

func (s *Solver) cross(conds []*Term) Res {
	var cmd *exec.Cmd
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	if hasFP(conds) {
		cmd = exec.CommandContext(ctx, "z3", "-in", "-smt2")
		cmd.Stdin = bytes.NewReader(s.script(conds, "", nil))
	} else {
		cmd = exec.CommandContext(ctx, "cvc5", "--lang", "smt2", "-")
		cmd.Stdin = bytes.NewReader(s.script(conds, "QF_BV", nil))
	}
	out, _ := cmd.Output()
	t := strings.TrimSpace(string(out))
	switch {
	case strings.HasPrefix(t, "unsat"):
		return Unsat
	case strings.HasPrefix(t, "sat"):
		return Sat
	}
	return Unknown
}
