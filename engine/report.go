package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type report struct {
	id, verif, tier string
	seed            int
	nat             *Native
	pkgs            []string
	thorough        bool
	noNative        bool
	verbose         bool
	t0              time.Time
	tLoad           time.Duration
	notes           []string
	P               *Program
}

type harnessInfo struct {
	Harness string         `json:"harness"`
	Cases   int            `json:"cases"`
	Paths   int            `json:"paths"`
	Asserts int            `json:"assertions_decided"`
	Reach   map[string]int `json:"reached,omitempty"`
	WallS   float64        `json:"wall_s"`
}

func addCounts(dst, src map[string]int) {
	for k, v := range src {
		dst[k] += v
	}
}

// clearly a Go-level crash rather than a failed assertion
func crashed(s string) bool {
	return s == "panic" || s == "deadlock" || s == "timeout" || s == "crash" || s == "race"
}

// confirm replays a violation natively until the real code shows it.
func (r *report) confirm(v *Violation, harness string, c int) (bool, []Outcome, Job) {
	job := Job{Harness: harness, Case: c, Thorough: r.thorough, Vector: v.Vector, Sched: v.Sched, Seed: r.seed}
	var outs []Outcome
	want := func(o Outcome) bool {
		switch v.Kind {
		case "assert":
			return o.Status == "assert"
		case "panic":
			return o.Status == "panic" || o.Status == "crash"
		case "deadlock":
			return o.Status == "deadlock" || o.Status == "timeout"
		case "race":
			return o.Status == "race" || o.Status == "assert"
		case "hang":
			return o.Status == "timeout" || o.Status == "deadlock" || crashed(o.Status)
		}
		return o.Status == "assert" || crashed(o.Status)
	}
	concurrent := len(v.Sched) > 0
	try := func(j []Job, mode buildMode, to time.Duration) bool {
		os, err := r.nat.run(j, mode, to)
		if err != nil {
			outs = append(outs, Outcome{Status: "build-error", Msg: trunc(err.Error(), 1500)})
			return false
		}
		for _, o := range os {
			if len(outs) < 4 {
				outs = append(outs, o)
			} else {
				outs[3] = o
			}
			if want(o) {
				outs[len(outs)-1] = o
				return true
			}
		}
		return false
	}
	if concurrent {
		m := modeSched
		if v.Kind == "race" {
			m = modeRace
		}
		for k := 0; k < 3; k++ {
			if try([]Job{job}, m, 20*time.Second) {
				return true, outs, job
			}
		}
		// perturbed schedules around the recorded one
		for k := 0; k < 6; k++ {
			j := job
			j.Seed = k + 1
			var js []Job
			for n := 0; n < 30; n++ {
				j.Seed = k*1000 + n + 1
				js = append(js, j)
			}
			if try(js, m, 30*time.Second) {
				return true, outs, job
			}
		}
		return false, outs, job
	}
	if v.Kind == "hang" {
		return try([]Job{job}, modePlain, 12*time.Second), outs, job
	}
	if try([]Job{job}, modePlain, 20*time.Second) {
		return true, outs, job
	}
	if len(outs) > 0 && outs[len(outs)-1].Status == "build-error" {
		return false, outs, job
	}
	// native nondeterminism (map order): many repetitions
	var js []Job
	for i := 0; i < 400; i++ {
		js = append(js, job)
	}
	if try(js, modePlain, 30*time.Second) {
		return true, outs, job
	}
	return false, outs, job
}

func (r *report) finish(results []*result) int {
	var tot Stats
	tot.Unsup, tot.Limits, tot.Reach = map[string]int{}, map[string]int{}, map[string]int{}
	funcs := map[string]bool{}
	hs := map[string]*harnessInfo{}
	var order []string
	q, sat, unsat, unk, fall, errs, crossed, crossBad := 0, 0, 0, 0, 0, 0, 0, 0
	var solver, maxq time.Duration
	lastErr := ""
	for _, x := range results {
		s := &x.ex.st
		tot.Paths += s.Paths
		tot.Killed += s.Killed
		tot.Forks += s.Forks
		tot.Steps += s.Steps
		tot.Merges += s.Merges
		tot.MergeFail += s.MergeFail
		tot.Asserts += s.Asserts
		tot.AssertsConst += s.AssertsConst
		tot.AssertsSolver += s.AssertsSolver
		tot.Inconclusive += s.Inconclusive
		tot.SchedPoints += s.SchedPoints
		tot.Transitions += s.Transitions
		tot.SleepCut += s.SleepCut
		tot.Incomplete = tot.Incomplete || s.Incomplete
		if s.MaxPC > tot.MaxPC {
			tot.MaxPC = s.MaxPC
		}
		addCounts(tot.Unsup, s.Unsup)
		addCounts(tot.Limits, s.Limits)
		addCounts(tot.Reach, s.Reach)
		for f := range s.Funcs {
			funcs[f] = true
		}
		sl := x.ex.sol
		q += sl.queries
		sat += sl.nSat
		unsat += sl.nUnsat
		unk += sl.nUnknown
		fall += sl.nFall
		errs += sl.errors
		crossed += sl.crossed
		crossBad += sl.crossBad
		solver += sl.wall
		if sl.maxQ > maxq {
			maxq = sl.maxQ
		}
		if sl.lastErr != "" {
			lastErr = sl.lastErr
		}
		h := hs[x.harness]
		if h == nil {
			h = &harnessInfo{Harness: x.harness, Reach: map[string]int{}}
			hs[x.harness] = h
			order = append(order, x.harness)
		}
		h.Cases++
		h.Paths += s.Paths
		h.Asserts += s.Asserts
		h.WallS += x.wall.Seconds()
		addCounts(h.Reach, s.Reach)
	}
	known := loadKnown(r.verif)
	exit := 0
	nviol := 0
	unconfirmed := []map[string]interface{}{}
	replDir := filepath.Join(r.verif, "evidence", "replays")
	os.MkdirAll(replDir, 0755)
	old, _ := filepath.Glob(filepath.Join(replDir, r.id+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	knownSeen := map[int]bool{}
	nrep := 0
	needs := map[string]map[string]bool{}
	seen := map[string]int{}
	var tConfirm time.Duration
	report1 := func(rec *violRec) {
		nviol++
		nrep++
		fn := filepath.Join(replDir, fmt.Sprintf("%s-%d.json", r.id, nrep))
		b, _ := json.MarshalIndent(rec, "", " ")
		os.WriteFile(fn, b, 0644)
		fmt.Printf("%s: %s: %s at %s [%s case %d]\n", r.id, rec.Kind, rec.Msg, rec.Pos, rec.Job.Harness, rec.Job.Case)
		fmt.Printf("  vector: %s\n", trunc(vecStr(rec.Job.Vector), 600))
		for _, o := range rec.Native {
			fmt.Printf("  replay on the real code: %s %s\n", o.Status, trunc(strings.ReplaceAll(o.Msg, "\n", " | "), 300))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, fn)
		exit = 1
	}
	isKnown := func(h, msg string) int {
		for i, k := range known {
			if k.prop == r.id && strings.HasSuffix(h, k.harness) && k.msg == msg {
				return i
			}
		}
		return -1
	}
	for _, x := range results {
		for _, v := range x.ex.viol {
			if i := isKnown(x.harness, v.Msg); i >= 0 {
				if !knownSeen[i] {
					knownSeen[i] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, known[i].text)
				}
				continue
			}
			key := x.harness + "|" + v.Kind + "|" + v.Msg
			if seen[key] >= 100 {
				continue // already confirmed once
			}
			if nviol >= 6 {
				continue
			}
			// a few attempts whatever they cost, more of them while they are cheap
			if seen[key] >= 4 && (seen[key] >= 40 || tConfirm > 60*time.Second) {
				continue
			}
			seen[key]++
			t0 := time.Now()
			ok := r.noNative
			var outs []Outcome
			job := Job{Harness: x.harness, Case: x.c, Thorough: r.thorough, Vector: v.Vector, Sched: v.Sched}
			if !r.noNative {
				ok, outs, job = r.confirm(v, x.harness, x.c)
			}
			tConfirm += time.Since(t0)
			rec := &violRec{Property: r.id, Kind: v.Kind, Msg: v.Msg, Pos: v.Pos, Stack: v.Stack, Job: job, Pkgs: r.pkgs, Native: outs}
			if ok {
				seen[key] = 100
				rec.Repro = "yes"
				report1(rec)
			} else {
				st := "none"
				if len(outs) > 0 {
					st = outs[len(outs)-1].Status + " " + trunc(outs[len(outs)-1].Msg, 300)
				}
				unconfirmed = append(unconfirmed, map[string]interface{}{"harness": x.harness, "case": x.c, "kind": v.Kind, "msg": v.Msg, "pos": v.Pos, "stack": v.Stack, "vector": v.Vector, "native": st})
			}
		}
	}
	// points the property requires to be reachable
	for _, x := range results {
		for t := range x.ex.st.Need {
			if needs[x.harness] == nil {
				needs[x.harness] = map[string]bool{}
			}
			needs[x.harness][t] = true
		}
	}
	cut := tot.Incomplete || len(tot.Unsup) > 0 || tot.Inconclusive > 0 || unk > 0 || len(tot.Limits) > 0
	for _, hn := range order {
		var miss []string
		for t := range needs[hn] {
			if hs[hn].Reach[t] == 0 {
				miss = append(miss, t)
			}
		}
		sort.Strings(miss)
		if len(miss) == 0 || cut || nviol > 0 {
			continue
		}
		msg := "never reached by any input: " + strings.Join(miss, ", ")
		if i := isKnown(hn, msg); i >= 0 {
			knownSeen[i] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, known[i].text)
			continue
		}
		// the real code, on random draws, must not reach it either
		var js []Job
		for c := 0; c < hs[hn].Cases; c++ {
			for k := 1; k <= 400; k++ {
				js = append(js, Job{Harness: hn, Case: c, Thorough: r.thorough, Seed: k})
			}
		}
		rec := &violRec{Property: r.id, Kind: "unreachable", Msg: msg, Pos: hn, Job: Job{Harness: hn, Seed: 1, Thorough: r.thorough}, Pkgs: r.pkgs, Repro: "yes"}
		if !r.noNative {
			outs, err := r.nat.run(js, modePlain, 60*time.Second)
			if err != nil {
				continue
			}
			hit := false
			for _, o := range outs {
				for _, t := range o.Reached {
					for _, m := range miss {
						hit = hit || t == m
					}
				}
			}
			if hit {
				r.notes = append(r.notes, "engine calls "+msg+" but the real code reaches it")
				continue
			}
			rec.Native = []Outcome{{Status: "absent", Msg: fmt.Sprintf("%d native runs on random draws did not reach it", len(outs))}}
		}
		report1(rec)
	}
	// samples: the engine's own paths, replayed against the real build
	validated, mism, tried := 0, 0, 0
	var samples []interface{}
	mismatches := []interface{}{}
	if !r.noNative {
		var jobs, cjobs []Job
		var exp, cexp []*Sample
		for _, x := range results {
			lim := 4
			if len(results) > 60 {
				lim = 2
			}
			for i, s := range x.ex.samples {
				if i >= lim {
					break
				}
				j := Job{Harness: x.harness, Case: x.c, Thorough: r.thorough, Vector: s.Vector, Sched: s.Sched}
				if s.Multi {
					cjobs = append(cjobs, j)
					cexp = append(cexp, s)
				} else {
					jobs = append(jobs, j)
					exp = append(exp, s)
				}
			}
		}
		if len(cjobs) > 40 {
			cjobs, cexp = cjobs[:40], cexp[:40]
		}
		do := func(jobs []Job, exp []*Sample, mode buildMode) {
			if len(jobs) == 0 {
				return
			}
			outs, err := r.nat.run(jobs, mode, 60*time.Second)
			if err != nil {
				r.notes = append(r.notes, "native build failed: "+trunc(err.Error(), 800))
				return
			}
			if len(outs) != len(jobs) {
				// a job brought the process down: one process each
				outs = outs[:0]
				for _, j := range jobs {
					o, _ := r.nat.run([]Job{j}, mode, 20*time.Second)
					outs = append(outs, o[0])
				}
			}
			for i, o := range outs {
				tried++
				good := o.Status == "ok" && strings.Join(o.Obs, ";") == strings.Join(exp[i].Obs, ";")
				if good {
					validated++
					if len(samples) < 4 {
						samples = append(samples, map[string]interface{}{"harness": jobs[i].Harness, "case": jobs[i].Case, "vector": truncVec(jobs[i].Vector), "observed": exp[i].Obs, "schedule_steps": len(exp[i].Sched), "native": "ok, same observations"})
					}
					continue
				}
				mism++
				if len(mismatches) < 8 {
					mismatches = append(mismatches, map[string]interface{}{"harness": jobs[i].Harness, "case": jobs[i].Case, "vector": truncVec(jobs[i].Vector), "native": o.Status + " " + trunc(o.Msg, 400), "native_obs": o.Obs, "engine_obs": exp[i].Obs})
				}
				if i := isKnown(jobs[i].Harness, o.Msg); i >= 0 {
					continue
				}
				if mode == modePlain && (o.Status == "assert" || o.Status == "panic") {
					// the solver's own input makes the real code fail
					key := jobs[i].Harness + "|native|" + o.Msg
					if seen[key] == 0 && nviol < 6 {
						seen[key] = 100
						report1(&violRec{Property: r.id, Kind: o.Status, Msg: o.Msg, Pos: "native replay", Job: jobs[i], Pkgs: r.pkgs, Native: []Outcome{o}, Repro: "yes"})
					}
				}
			}
		}
		do(jobs, exp, modePlain)
		do(cjobs, cexp, modeSched)
	}
	for i, k := range known {
		if k.prop == r.id && !knownSeen[i] {
			r.notes = append(r.notes, "listed finding not met in this run: "+k.text)
		}
	}
	if len(tot.Unsup) > 0 || tot.Inconclusive > 0 || unk > 0 || len(tot.Limits) > 0 {
		tot.Incomplete = true
	}
	var fl []string
	nstd := 0
	for f := range funcs {
		name := f // without the type arguments, which may be the harness's types
		if i := strings.IndexByte(f, '['); i >= 0 {
			name = f[:i]
		}
		if strings.Contains(name, modPath) && !strings.Contains(name, "/verifh/") {
			fl = append(fl, strings.ReplaceAll(f, modPath+"/", ""))
		} else if !strings.Contains(name, "/verifh/") {
			nstd++
		}
	}
	sort.Strings(fl)
	fl = dedupFuncs(fl)
	var hl []*harnessInfo
	for _, o := range order {
		h := hs[o]
		h.WallS = float64(int(h.WallS*100)) / 100
		hl = append(hl, h)
	}
	if len(samples) == 0 {
		samples = append(samples, "no path completed")
	}
	wall := time.Since(r.t0).Seconds()
	cov := map[string]interface{}{
		"states":                        tot.Paths + tot.Forks + tot.SchedPoints,
		"transitions":                   tot.Steps + tot.Transitions,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"replayed_samples":              tried,
		"replay_mismatches":             mismatches,
		"paths":                         tot.Paths,
		"forks":                         tot.Forks,
		"merged_branches":               tot.Merges,
		"ssa_instructions_executed":     tot.Steps,
		"schedule_points":               tot.SchedPoints,
		"schedule_transitions":          tot.Transitions,
		"assertions":                    map[string]int{"evaluated": tot.Asserts, "trivially_true_term": tot.AssertsConst, "decided_by_solver": tot.AssertsSolver, "inconclusive": tot.Inconclusive},
		"queries":                       map[string]interface{}{"total": q, "sat": sat, "unsat": unsat, "unknown": unk, "one_shot_fallbacks": fall, "errors": errs, "cross_checked_with_cvc5": crossed, "cross_check_disagreements": crossBad},
		"solver_time_s":                 solver.Seconds(),
		"longest_query_s":               maxq.Seconds(),
		"functions_encoded":             fl,
		"std_functions_encoded":         nstd,
		"harnesses":                     hl,
		"paths_cut":                     tot.Killed,
		"limits_hit":                    tot.Limits,
		"unsupported":                   tot.Unsup,
		"complete_within_bounds":        !tot.Incomplete,
		"unconfirmed_counterexamples":   unconfirmed,
		"notes":                         r.notes,
		"encoding_wall_s":               r.tLoad.Seconds(),
		"path_condition_max":            tot.MaxPC,
	}
	if lastErr != "" {
		cov["last_solver_error"] = lastErr
	}
	ev := map[string]interface{}{
		"property": r.id, "tier": r.tier, "seed": r.seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"bounds are those of the harness functions listed (sizes, operation counts, goroutines); outside them nothing is claimed",
			"go/ssa (x/tools) lowering and the engine's SSA semantics, checked by replaying sampled paths on the compiled code",
			"the solver (z3) is trusted for unsat",
			"sequentially consistent memory; data races are reported separately where goroutines are involved",
		},
		"wall_s": wall, "violations": nviol,
	}
	os.MkdirAll(filepath.Join(r.verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(r.verif, "evidence", r.id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("%s %s: paths=%d forks=%d steps=%d asserts=%d (solver %d) queries=%d solver=%.1fs cut=%d validated=%d/%d unconfirmed=%d complete=%v wall=%.1fs load=%.1fs\n",
		r.id, r.tier, tot.Paths, tot.Forks, tot.Steps, tot.Asserts, tot.AssertsSolver, q, solver.Seconds(), tot.Killed, validated, tried, len(unconfirmed), !tot.Incomplete, wall, r.tLoad.Seconds())
	if r.verbose || tot.Incomplete {
		if len(tot.Unsup) > 0 {
			fmt.Println("  unsupported:", mapStr(tot.Unsup))
		}
		if len(tot.Limits) > 0 {
			fmt.Println("  limits:", mapStr(tot.Limits))
		}
	}
	if r.verbose {
		for _, h := range hl {
			fmt.Printf("  %-40s cases=%d paths=%d asserts=%d %.1fs %v\n", h.Harness, h.Cases, h.Paths, h.Asserts, h.WallS, h.Reach)
		}
		fmt.Printf("  funcs: %s\n", strings.Join(fl, " "))
		fmt.Printf("  sched points %d transitions %d sleepcut %d merges %d/%d unknown %d inconcl %d longest %.1fs\n", tot.SchedPoints, tot.Transitions, tot.SleepCut, tot.Merges, tot.MergeFail, unk, tot.Inconclusive, maxq.Seconds())
	}
	for _, u := range unconfirmed {
		b, _ := json.Marshal(u)
		fmt.Println("  unconfirmed:", trunc(string(b), 1500))
	}
	for _, u := range mismatches {
		b, _ := json.Marshal(u)
		fmt.Println("  mismatch:", trunc(string(b), 1500))
	}
	for _, n := range r.notes {
		fmt.Println("  note:", n)
	}
	return exit
}

func dedupFuncs(fl []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, f := range fl {
		if i := strings.IndexByte(f, '['); i > 0 {
			tail := "" // the method or closure name after the type arguments
			if j := strings.LastIndexByte(f, ']'); j > i {
				tail = f[j+1:]
			}
			f = f[:i] + tail
		}
		if !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	return out
}

func mapStr(m map[string]int) string {
	var s []string
	for _, k := range sortedKeys(m) {
		s = append(s, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return strings.Join(s, "; ")
}

func vecStr(v map[string][]string) string {
	var ks []string
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var s []string
	for _, k := range ks {
		s = append(s, k+"="+strings.Join(v[k], ","))
	}
	return strings.Join(s, " ")
}

func truncVec(v map[string][]string) string { return trunc(vecStr(v), 300) }

// cmdReplay runs a recorded counterexample against the current tree.
func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rec violRec
	if err := json.Unmarshal(b, &rec); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	pkgs, fns, err := discover(*verif, rec.Property)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	ov, err := buildOverlay(*repo, *verif, pkgs, false)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)
	nat := &Native{dir: tmp, repo: *repo, verif: *verif, pkgs: pkgs, funcs: fns, ov: ov}
	r := &report{nat: nat, id: rec.Property, thorough: rec.Job.Thorough}
	v := &Violation{Kind: rec.Kind, Msg: rec.Msg, Vector: rec.Job.Vector, Sched: rec.Job.Sched}
	ok, outs, _ := r.confirm(v, rec.Job.Harness, rec.Job.Case)
	for _, o := range outs {
		fmt.Println(o.Status, o.Msg)
	}
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rec.Property, fs.Arg(0))
		return 1
	}
	return 0
}
