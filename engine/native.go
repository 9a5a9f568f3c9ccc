package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type Job struct {
	Harness  string              `json:"harness"`
	Case     int                 `json:"case"`
	Thorough bool                `json:"thorough"`
	Vector   map[string][]string `json:"vector"`
	Sched    []SchedStep         `json:"sched,omitempty"`
	Seed     int                 `json:"seed,omitempty"`
}

type Outcome struct {
	Status  string   `json:"status"` // ok assume assert panic timeout deadlock crash race
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
	Missing int      `json:"missing"`
	Reached []string `json:"reached,omitempty"`
}

type buildMode int

const (
	modePlain buildMode = iota
	modeSched
	modeRace
)

type Native struct {
	dir   string
	bin   map[buildMode]string
	built map[buildMode]error
	repo  string
	verif string
	pkgs  []string
	funcs map[string][]string
	ov    map[string]string
}

const nativeMain = `package main

import (
	"encoding/json"
	"fmt"
	"os"

	"` + modPath + `/verifh/vsym"
%s
)

type job struct {
	Harness  string              ` + "`json:\"harness\"`" + `
	Case     int                 ` + "`json:\"case\"`" + `
	Thorough bool                ` + "`json:\"thorough\"`" + `
	Vector   map[string][]string ` + "`json:\"vector\"`" + `
	Sched    json.RawMessage     ` + "`json:\"sched\"`" + `
	Seed     int                 ` + "`json:\"seed\"`" + `
}
type outcome struct {
	Status  string   ` + "`json:\"status\"`" + `
	Msg     string   ` + "`json:\"msg\"`" + `
	Obs     []string ` + "`json:\"obs\"`" + `
	Missing int      ` + "`json:\"missing\"`" + `
	Reached []string ` + "`json:\"reached,omitempty\"`" + `
}

var table = map[string]func(){
%s}

func run(j job) (o outcome) {
	vsym.Start(j.Vector, j.Case, j.Thorough)
	vsym.Random(j.Seed, j.Vector == nil)
%s
	done := false
	defer func() {
		o.Obs = vsym.Obs
		o.Missing = vsym.Missing
		o.Reached = vsym.Reached
		if !done {
			r := recover()
			switch x := r.(type) {
			case vsym.AssumeFailed:
				o.Status = "assume"
			case vsym.AssertFailed:
				o.Status, o.Msg = "assert", x.Msg
			default:
				o.Status, o.Msg = "panic", fmt.Sprint(r)
			}
			return
		}
		if len(vsym.Failures) > 0 {
			o.Status, o.Msg = "assert", vsym.Failures[0]
			return
		}
		o.Status = "ok"
	}()
	f := table[j.Harness]
	if f == nil {
		panic("no harness " + j.Harness)
	}
	f()
	done = true
	return
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var js []job
	if err := json.Unmarshal(b, &js); err != nil {
		panic(err)
	}
	out := []outcome{}
	for _, j := range js {
		out = append(out, run(j))
	}
	r, _ := json.Marshal(out)
	os.Stdout.Write(append([]byte("\nVSYM-RESULT "), append(r, '\n')...))
}
`

// build compiles the harnesses natively against the repository.
func (n *Native) build(mode buildMode) (string, error) {
	if n.built == nil {
		n.built = map[buildMode]error{}
		n.bin = map[buildMode]string{}
	}
	if e, ok := n.built[mode]; ok {
		return n.bin[mode], e
	}
	bin, err := n.doBuild(mode)
	n.built[mode] = err
	n.bin[mode] = bin
	return bin, err
}

func (n *Native) doBuild(mode buildMode) (string, error) {
	tag := fmt.Sprintf("b%d", mode)
	sched := mode != modePlain
	dir := filepath.Join(n.dir, tag)
	if err := os.MkdirAll(dir, 0755); err != nil {
		return "", err
	}
	ov := map[string]string{}
	for v, f := range n.ov {
		ov[v] = f
	}
	sub, err := substituted(n.repo, sched)
	if err != nil {
		return "", err
	}
	k := 0
	for p, b := range sub {
		fn := filepath.Join(dir, fmt.Sprintf("f%d.go", k))
		k++
		if err := os.WriteFile(fn, b, 0644); err != nil {
			return "", err
		}
		ov[p] = fn
	}
	if sched {
		for v, f := range n.ov {
			if !strings.Contains(v, "/verifh/") || strings.Contains(v, "/verifh/vsym/") || strings.Contains(v, "/verifh/vsched/") || strings.Contains(v, "/verifh/vmodels/") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return "", err
			}
			nb, err := rewriteFile(v, b, true)
			if err != nil {
				return "", err
			}
			if nb != nil {
				fn := filepath.Join(dir, fmt.Sprintf("f%d.go", k))
				k++
				if err := os.WriteFile(fn, nb, 0644); err != nil {
					return "", err
				}
				ov[v] = fn
			}
		}
	}
	var imps, tab strings.Builder
	for i, p := range n.pkgs {
		if len(n.funcs[p]) == 0 {
			continue
		}
		fmt.Fprintf(&imps, "\th%d \"%s/verifh/%s\"\n", i, modPath, p)
		for _, f := range n.funcs[p] {
			fmt.Fprintf(&tab, "\t\"%s.%s\": h%d.%s,\n", p, f, i, f)
		}
	}
	hook := ""
	if sched {
		imps.WriteString("\t\"" + modPath + "/verifh/vsched\"\n")
		hook = "\tvsched.Start(j.Sched, j.Seed)\n\tdefer vsched.Stop()\n"
	}
	mf := filepath.Join(dir, "main.go")
	if err := os.WriteFile(mf, []byte(fmt.Sprintf(nativeMain, imps.String(), tab.String(), hook)), 0644); err != nil {
		return "", err
	}
	ov[filepath.Join(n.repo, "verifh/zmain/main.go")] = mf
	js, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(of, js, 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "replay")
	args := []string{"build", "-overlay", of, "-o", bin}
	if mode == modeRace {
		args = append(args, "-race")
	}
	args = append(args, "./verifh/zmain")
	cmd := exec.Command("go", args...)
	cmd.Dir = n.repo
	cmd.Env = append(goEnv(), "GOFLAGS=-mod=mod -buildvcs=false")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v: %s", err, trunc(string(out), 2000))
	}
	return bin, nil
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (n *Native) run(jobs []Job, mode buildMode, timeout time.Duration) ([]Outcome, error) {
	bin, err := n.build(mode)
	if err != nil {
		return nil, err
	}
	jf, err := os.CreateTemp(n.dir, "job*.json")
	if err != nil {
		return nil, err
	}
	defer os.Remove(jf.Name())
	b, _ := json.Marshal(jobs)
	jf.Write(b)
	jf.Close()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", `ulimit -v 6000000; exec "$0" "$1"`, bin, jf.Name())
	if mode == modeRace {
		cmd = exec.CommandContext(ctx, bin, jf.Name())
	}
	cmd.Dir = n.dir
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err = cmd.Run()
	txt := out.String()
	if os.Getenv("VSCHED_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, trunc(txt, 3000))
	}
	if mode == modeRace && strings.Contains(txt, "WARNING: DATA RACE") {
		i := strings.Index(txt, "WARNING: DATA RACE")
		return []Outcome{{Status: "race", Msg: trunc(txt[i:], 1500)}}, nil
	}
	if i := strings.LastIndex(txt, "VSYM-RESULT "); i >= 0 {
		var os []Outcome
		line := txt[i+len("VSYM-RESULT "):]
		if k := strings.IndexByte(line, '\n'); k >= 0 {
			line = line[:k]
		}
		if e := json.Unmarshal([]byte(line), &os); e == nil {
			return os, nil
		}
	}
	o := Outcome{Status: "crash", Msg: trunc(txt, 1500)}
	switch {
	case ctx.Err() != nil:
		o.Status = "timeout"
	case strings.Contains(txt, "all goroutines are asleep"):
		o.Status = "deadlock"
	case strings.Contains(txt, "VSYM-SCHED-DEADLOCK"):
		o.Status = "deadlock"
	case strings.Contains(txt, "panic: ") || strings.Contains(txt, "fatal error: "):
		o.Status = "panic"
		if i := strings.Index(txt, "panic: "); i >= 0 {
			o.Msg = trunc(txt[i:], 600)
		}
	}
	_ = err
	return []Outcome{o}, nil
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
