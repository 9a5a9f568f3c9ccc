package main

import (
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|replay ...")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	os.Exit(3)
}

// discover lists harness packages with functions for property id.
func discover(verif, id string) ([]string, map[string][]string, error) {
	ents, err := os.ReadDir(filepath.Join(verif, "harness"))
	if err != nil {
		return nil, nil, err
	}
	re := regexp.MustCompile(`(?m)^func (H_` + id + `_\w+)\(\)`)
	var pkgs []string
	fns := map[string][]string{}
	for _, e := range ents {
		if !e.IsDir() {
			continue
		}
		gs, _ := filepath.Glob(filepath.Join(verif, "harness", e.Name(), "*.go"))
		for _, g := range gs {
			b, err := os.ReadFile(g)
			if err != nil {
				return nil, nil, err
			}
			for _, m := range re.FindAllStringSubmatch(string(b), -1) {
				fns[e.Name()] = append(fns[e.Name()], m[1])
			}
		}
		if len(fns[e.Name()]) > 0 {
			sort.Strings(fns[e.Name()])
			pkgs = append(pkgs, e.Name())
		}
	}
	return pkgs, fns, nil
}

type task struct {
	harness string
	fn      *ssa.Function
	c       int
}

type result struct {
	task
	ex   *Exec
	wall time.Duration
}

func (ex *Exec) endPath(st *State) {
	ex.st.Paths += maxi(1, st.weight)
	n := 0
	if st.pc != nil {
		n = st.pc.n
	}
	if n > ex.st.MaxPC {
		ex.st.MaxPC = n
	}
	ex.ended++
	if len(ex.samples) < ex.cfg.Samples || ex.ended&(ex.ended-1) == 0 && len(ex.samples) < ex.cfg.Samples+6 {
		m := st.model
		if m == nil {
			r, mm := ex.fullModel(st, ex.tc.tru, nil)
			if r != Sat {
				return
			}
			m = mm
		}
		s := &Sample{Vector: ex.vector(st, m), Sched: append([]SchedStep(nil), st.sched...), Multi: st.multi}
		var os []*Obs
		for o := st.obs; o != nil; o = o.up {
			os = append(os, o)
		}
		for i := len(os) - 1; i >= 0; i-- {
			s.Obs = append(s.Obs, os[i].label+"="+ex.evalObs(m, os[i].v))
		}
		ex.samples = append(ex.samples, s)
	}
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (ex *Exec) evalObs(m *Model, v Value) string {
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return fmt.Sprint(m.Eval(x) == 1)
		}
		return fmt.Sprint(sx(m.Eval(x), x.w))
	case Str:
		b := make([]byte, 0, x.Len())
		for _, t := range ex.strBytes(x) {
			b = append(b, byte(m.Eval(t)))
		}
		return fmt.Sprintf("%x", b)
	}
	return "?"
}

// explore runs the harness function over all paths.
func (ex *Exec) explore(fn *ssa.Function) {
	ex.entry = fn
	st := &State{own: &owner{}, names: map[string]int{}, weight: 1}
	st.heap.next = ex.P.nGlob + 1
	g := &G{own: st.own, name: "main", parent: -1}
	st.gs = []*G{g}
	st.model = NewModel()
	if !ex.runInits(st) {
		return
	}
	ex.pushFrame(st, fn, nil, nil, -1, false)
	st.steps = 0
	ex.work = []*State{st}
	for len(ex.work) > 0 {
		s := ex.work[len(ex.work)-1]
		ex.work = ex.work[:len(ex.work)-1]
		if !ex.cfg.Deadline.IsZero() && time.Now().After(ex.cfg.Deadline) {
			ex.st.Limits["deadline"]++
			ex.st.Incomplete = true
			ex.st.Killed += len(ex.work) + 1
			ex.work = nil
			return
		}
		if s.multi {
			ex.concurrent(s)
			continue
		}
		switch ex.runLocal(s, nil) {
		case rGDone:
			if s.multi {
				ex.concurrent(s)
			} else {
				ex.endPath(s)
			}
		case rParked:
			ex.concurrent(s)
		}
	}
}

// runInits executes the initialisers of the harness's repository packages.
func (ex *Exec) runInits(st *State) bool {
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		if strings.HasPrefix(p.Path(), modPath) || eagerInit[p.Path()] {
			if sp := ex.P.prog.Package(p); sp != nil {
				order = append(order, sp)
			}
		}
	}
	visit(ex.entry.Pkg.Pkg)
	mg := ex.cfg.Merge
	ex.cfg.Merge = false
	defer func() { ex.cfg.Merge = mg }()
	for _, p := range order {
		init := p.Func("init")
		if init == nil || init.Blocks == nil {
			continue
		}
		if gi := ex.P.guard[p]; gi != 0 && st.getObj(ex, gi).v.(*Term).isTrue() {
			continue
		}
		ok := ex.guard(st, func() { ex.pushFrame(st, init, nil, nil, -1, false) })
		if !ok {
			return false
		}
		st.G().done = false
		if ex.runLocal(st, nil) != rGDone {
			ex.st.Unsup["initialiser of "+p.Pkg.Path()]++
			ex.st.Incomplete = true
			return false
		}
		st.G().done = false
		st.steps = 0
	}
	return true
}

var eagerInit = map[string]bool{"unicode": true, "strconv": true, "errors": true, "io": true, "bytes": true, "strings": true, "encoding/hex": true, "encoding/base64": true}

type knownEntry struct{ prop, harness, msg, text string }

func loadKnown(verif string) []knownEntry {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownEntry
	re := regexp.MustCompile(`^known: property=(\S+) harness=(\S+) msg="([^"]*)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, knownEntry{m[1], m[2], m[3], m[4]})
		}
	}
	return out
}

type violRec struct {
	Property string    `json:"property"`
	Kind     string    `json:"kind"`
	Msg      string    `json:"msg"`
	Pos      string    `json:"pos"`
	Stack    string    `json:"stack"`
	Job      Job       `json:"job"`
	Pkgs     []string  `json:"pkgs"`
	Native   []Outcome `json:"native"`
	Repro    string    `json:"reproduced"`
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("id", "", "property")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	only := fs.String("only", "", "run only harnesses matching")
	oneCase := fs.Int("case", -1, "")
	tier := fs.String("tier", "", "")
	verbose := fs.Bool("v", false, "")
	trace := fs.Bool("trace", false, "")
	noNative := fs.Bool("no-native", false, "")
	budget := fs.Int("budget", 0, "seconds")
	workers := fs.Int("j", 0, "")
	nodpor := fs.Bool("nodpor", false, "")
	nomerge := fs.Bool("nomerge", false, "")
	fs.Parse(args)
	t0 := time.Now()
	debug.SetGCPercent(200)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	thorough := *tier == "thorough"
	bud := *budget
	if bud == 0 {
		bud = 240
		if thorough {
			bud = 800
		}
	}
	pkgs, fns, err := discover(*verif, *id)
	if err != nil || len(pkgs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *id, err)
		return 3
	}
	var notes []string
	P, err := loadProgram(*repo, *verif, pkgs)
	if err != nil && strings.Contains(err.Error(), "load:") {
		// optional in-package helpers may not fit a refactored tree: retry without
		P2, err2 := loadProgramX(*repo, *verif, pkgs, true)
		if err2 == nil {
			notes = append(notes, "in-package helper left out: "+trunc(err.Error(), 300))
			P, err = P2, nil
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	tLoad := time.Since(t0)
	deadline := t0.Add(time.Duration(bud) * time.Second)
	cfg := Config{MaxSteps: 4000000, Unwind: 300, MaxConc: 4000, Deadline: deadline, Merge: !*nomerge, Thorough: thorough, Race: true, MaxViol: 12, Samples: 2, Trace: *trace, NoDPOR: *nodpor}
	nw := *workers
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var queue []task
	active := 0
	for _, p := range pkgs {
		sp := P.byPath[modPath+"/verifh/"+p]
		for _, f := range fns[p] {
			if *only != "" && !strings.Contains(f, *only) {
				continue
			}
			fn := sp.Func(f)
			if fn == nil {
				notes = append(notes, "harness function missing: "+f)
				continue
			}
			c := 0
			if *oneCase >= 0 {
				c = *oneCase
			}
			queue = append(queue, task{p + "." + f, fn, c})
		}
	}
	var results []*result
	expanded := map[string]bool{}
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				for len(queue) == 0 && active > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				t := queue[0]
				queue = queue[1:]
				active++
				mu.Unlock()
				c := cfg
				c.Case = t.c
				ex := NewExec(P, c)
				ex.onCases = func(n int) {
					if t.c != 0 || *oneCase >= 0 {
						return
					}
					mu.Lock()
					if !expanded[t.harness] {
						expanded[t.harness] = true
						for k := 1; k < n; k++ {
							queue = append(queue, task{t.harness, t.fn, k})
						}
						cond.Broadcast()
					}
					mu.Unlock()
				}
				s := time.Now()
				ex.entry = t.fn
				ex.explore(t.fn)
				ex.sol.Close()
				ex.cleanup()
				mu.Lock()
				results = append(results, &result{t, ex, time.Since(s)})
				active--
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	sort.Slice(results, func(i, j int) bool {
		if results[i].harness != results[j].harness {
			return results[i].harness < results[j].harness
		}
		return results[i].c < results[j].c
	})
	// native side
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)
	nat := &Native{dir: tmp, repo: *repo, verif: *verif, pkgs: pkgs, funcs: fns, ov: P.overlay}
	rep := report{id: *id, verif: *verif, tier: *tier, seed: seed, nat: nat, pkgs: pkgs, thorough: thorough, noNative: *noNative, verbose: *verbose, t0: t0, tLoad: tLoad, notes: notes, P: P}
	return rep.finish(results)
}
