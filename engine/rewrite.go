package main

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// envSubst: environment functions and types of the code under test that are
// replaced, by name, with stand-ins from vmodels, both in the encoding and in
// the native replay.
var envSubst = map[string]string{
	"time.Now":              "Now",
	"time.Since":            "Since",
	"time.Until":            "Until",
	"os.ReadFile":           "ReadFile",
	"os.WriteFile":          "WriteFile",
	"os.Remove":             "Remove",
	"os.RemoveAll":          "RemoveAll",
	"os.Stat":               "Stat",
	"os.Lstat":              "Stat",
	"os.MkdirAll":           "MkdirAll",
	"os.Mkdir":              "Mkdir",
	"os.Rename":             "Rename",
	"os.OpenFile":           "OpenFile",
	"os.Open":               "Open",
	"os.Create":             "Create",
	"os.CreateTemp":         "CreateTemp",
	"os.File":               "File",
	"path/filepath.WalkDir": "WalkDir",
	"crypto/aes.NewCipher":  "NewCipher",
	"crypto/rand.Reader":    "RandReader",
	"crypto/rand.Read":      "RandRead",
	"sync.Pool":             "Pool",
}

// schedSubst is applied in addition for schedule-controlled native replay.
var schedSubst = map[string]string{
	"sync.Mutex":     "Mutex",
	"sync.RWMutex":   "RWMutex",
	"sync.WaitGroup": "WaitGroup",
	"sync.Once":      "Once",
	"sync.Locker":    "Locker",
}

type edit struct {
	pos, end int
	text     string
}

// rewriteFile returns the substituted source, or nil when nothing applies.
func rewriteFile(name string, src []byte, sched bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	imps := map[string]string{}
	specs := map[string]*ast.ImportSpec{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := p[strings.LastIndexByte(p, '/')+1:]
		if im.Name != nil {
			n = im.Name.Name
		}
		imps[n] = p
		specs[n] = im
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var eds []edit
	total := map[string]int{}
	repl := map[string]int{}
	usedM, usedS := false, false
	local := map[*ast.Ident]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok || local[id] || id.Obj != nil {
			return true
		}
		p, ok := imps[id.Name]
		if !ok {
			return true
		}
		total[id.Name]++
		key := p + "." + se.Sel.Name
		if t, ok := envSubst[key]; ok {
			eds = append(eds, edit{off(se.Pos()), off(se.End()), "vmodels__." + t})
			repl[id.Name]++
			usedM = true
		} else if sched {
			if t, ok := schedSubst[key]; ok {
				eds = append(eds, edit{off(se.Pos()), off(se.End()), "vsched__." + t})
				repl[id.Name]++
				usedS = true
			} else if p == "sync/atomic" {
				eds = append(eds, edit{off(se.Pos()), off(se.End()), "vsched__." + "A" + se.Sel.Name})
				repl[id.Name]++
				usedS = true
			}
		}
		return true
	})
	if sched {
		e2, used := rewriteConc(fset, f, src)
		eds = append(eds, e2...)
		usedS = usedS || used
	}
	if len(eds) == 0 {
		return nil, nil
	}
	for n, sp := range specs {
		if total[n] > 0 && total[n] == repl[n] {
			if sp.Name != nil {
				eds = append(eds, edit{off(sp.Name.Pos()), off(sp.Name.End()), "_"})
			} else {
				eds = append(eds, edit{off(sp.Path.Pos()), off(sp.Path.Pos()), "_ "})
			}
		}
	}
	imp := ""
	if usedM {
		imp += "; import vmodels__ \"" + modPath + "/verifh/vmodels\""
	}
	if usedS {
		imp += "; import vsched__ \"" + modPath + "/verifh/vsched\""
	}
	eds = append(eds, edit{off(f.Name.End()), off(f.Name.End()), imp})
	return applyEdits(src, eds), nil
}

// applyEdits applies edits; an edit nested in another is applied inside it
// only when the outer edit's text refers to it through a "\x00<pos>:<end>\x00" hole.
func applyEdits(src []byte, eds []edit) []byte {
	sort.SliceStable(eds, func(i, j int) bool {
		if eds[i].pos != eds[j].pos {
			return eds[i].pos < eds[j].pos
		}
		return eds[i].end > eds[j].end
	})
	var rend func(lo, hi int, es []edit) []byte
	rend = func(lo, hi int, es []edit) []byte {
		var b bytes.Buffer
		at := lo
		for i := 0; i < len(es); {
			e := es[i]
			j := i + 1
			for j < len(es) && es[j].pos >= e.pos && es[j].end <= e.end && (es[j].pos < e.end) {
				j++
			}
			inner := es[i+1 : j]
			b.Write(src[at:e.pos])
			parts := strings.Split(e.text, "\x00")
			for k, p := range parts {
				if k%2 == 0 {
					b.WriteString(p)
					continue
				}
				q := strings.SplitN(p, ":", 2)
				l, _ := strconv.Atoi(q[0])
				h, _ := strconv.Atoi(q[1])
				var sub []edit
				for _, x := range inner {
					if x.pos >= l && x.end <= h {
						sub = append(sub, x)
					}
				}
				b.Write(rend(l, h, sub))
			}
			at = e.end
			i = j
		}
		b.Write(src[at:hi])
		return b.Bytes()
	}
	return rend(0, len(src), eds)
}

// repoGoFiles lists the non-test Go files of the repository.
func repoGoFiles(repo string) []string {
	var out []string
	filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() && (d.Name() == ".git" || d.Name() == "verifh" || d.Name() == "testdata") {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			out = append(out, p)
		}
		return nil
	})
	return out
}

// substituted returns rewritten contents for the repo files that need it.
func substituted(repo string, sched bool) (map[string][]byte, error) {
	out := map[string][]byte{}
	for _, p := range repoGoFiles(repo) {
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		n, err := rewriteFile(p, b, sched)
		if err != nil {
			return nil, err
		}
		if n != nil {
			out[p] = n
		}
	}
	return out, nil
}
