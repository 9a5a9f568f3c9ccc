package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const modPath = "github.com/miniLCT/gosb"

type Program struct {
	repo    string
	prog    *ssa.Program
	pkgs    []*packages.Package
	globID  map[*ssa.Global]int
	globs   []*ssa.Global
	galias  map[*ssa.Global]*ssa.Global
	nGlob   int
	guard   map[*ssa.Package]int
	rtErr   types.Type
	sizes   types.Sizes
	mu      sync.Mutex
	canonM  typeutil.Map
	fis     map[*ssa.Function]*FuncInfo
	implM   map[string]bool
	redir   map[string]*ssa.Function
	overlay map[string]string // path -> file with content
	byPath  map[string]*ssa.Package
	intr    map[string]intrinsic
}

// buildOverlay maps virtual /repo files to files under /verif.
func buildOverlay(repo, verif string, pkgs []string, noIn bool) (map[string]string, error) {
	ov := map[string]string{}
	add := func(dir, virt string) error {
		ents, err := os.ReadDir(dir)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				ov[filepath.Join(repo, virt, e.Name())] = filepath.Join(dir, e.Name())
			}
		}
		return nil
	}
	if err := add(filepath.Join(verif, "vsym"), "verifh/vsym"); err != nil {
		return nil, err
	}
	if err := add(filepath.Join(verif, "vmodels"), "verifh/vmodels"); err != nil {
		return nil, err
	}
	if err := add(filepath.Join(verif, "vsched"), "verifh/vsched"); err != nil {
		return nil, err
	}
	if err := add(filepath.Join(verif, "vapart"), "verifh/vapart"); err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		if err := add(filepath.Join(verif, "harness", p), "verifh/"+p); err != nil {
			return nil, err
		}
		// in-package helper files: harness/<p>/in/<path with __>/file.go;
		// without them, harness/<p>/noin/file.go stands in
		if noIn {
			if err := add(filepath.Join(verif, "harness", p, "noin"), "verifh/"+p); err != nil && !os.IsNotExist(err) {
				return nil, err
			}
			continue
		}
		ins, _ := filepath.Glob(filepath.Join(verif, "harness", p, "in", "*", "*.go"))
		for _, f := range ins {
			d := strings.ReplaceAll(filepath.Base(filepath.Dir(f)), "__", "/")
			ov[filepath.Join(repo, d, filepath.Base(f))] = f
		}
	}
	return ov, nil
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOWORK", "GOTOOLCHAIN", "GO111MODULE", "GOOS", "GOARCH", "CGO_ENABLED":
			continue
		}
		env = append(env, e)
	}
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
}

func loadProgram(repo, verif string, hpkgs []string) (*Program, error) {
	return loadProgramX(repo, verif, hpkgs, false)
}

func loadProgramX(repo, verif string, hpkgs []string, noIn bool) (*Program, error) {
	ov, err := buildOverlay(repo, verif, hpkgs, noIn)
	if err != nil {
		return nil, err
	}
	cont := map[string][]byte{}
	for v, f := range ov {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		cont[v] = b
	}
	sub, err := substituted(repo, false)
	if err != nil {
		return nil, err
	}
	for v, b := range sub {
		if _, ok := cont[v]; !ok {
			cont[v] = b
		}
	}
	cfg := &packages.Config{Dir: repo, Mode: packages.LoadAllSyntax, Env: goEnv(), Overlay: cont}
	pats := []string{modPath + "/verifh/vsym", modPath + "/verifh/vmodels"}
	for _, p := range hpkgs {
		pats = append(pats, modPath+"/verifh/"+p)
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: ps, globID: map[*ssa.Global]int{}, guard: map[*ssa.Package]int{}, fis: map[*ssa.Function]*FuncInfo{}, implM: map[string]bool{},
		redir: map[string]*ssa.Function{}, overlay: ov, byPath: map[string]*ssa.Package{}}
	P.sizes = types.SizesFor("gc", "amd64")
	P.repo = repo
	P.collectConc()
	P.globs = append(P.globs, nil)
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, p := range all {
		P.byPath[p.Pkg.Path()] = p
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				P.globID[g] = len(P.globs)
				P.globs = append(P.globs, g)
				if n == "init$guard" {
					P.guard[p] = P.globID[g]
				}
			}
		}
	}
	P.nGlob = len(P.globs) - 1
	P.galias = map[*ssa.Global]*ssa.Global{}
	if o, f := P.byPath["os"], P.byPath["io/fs"]; o != nil && f != nil {
		for _, n := range []string{"ErrNotExist", "ErrExist", "ErrPermission", "ErrInvalid", "ErrClosed"} {
			if a, b := o.Var(n), f.Var(n); a != nil && b != nil {
				P.galias[a] = b
				P.globID[a] = P.globID[b]
			}
		}
	}
	if rp := P.byPath["runtime"]; rp != nil {
		if t := rp.Type("errorString"); t != nil {
			P.rtErr = P.canon(t.Type())
		}
	}
	P.intr = intrinsics()
	if vm := P.byPath[modPath+"/verifh/vmodels"]; vm != nil {
		for name, target := range redirects {
			if strings.HasPrefix(target, "=") {
				i := strings.LastIndexByte(target, '.')
				if p := P.byPath[target[1:i]]; p != nil {
					if f := p.Func(target[i+1:]); f != nil {
						P.redir[name] = f
					}
				}
				continue
			}
			if f := vm.Func(target); f != nil {
				P.redir[name] = f
			} else {
				return nil, fmt.Errorf("model %s missing", target)
			}
		}
	}
	return P, nil
}

func (P *Program) canon(t types.Type) types.Type {
	P.mu.Lock()
	defer P.mu.Unlock()
	if c := P.canonM.At(t); c != nil {
		return c.(types.Type)
	}
	P.canonM.Set(t, t)
	return t
}

func (P *Program) funcInfo(fn *ssa.Function) *FuncInfo {
	P.mu.Lock()
	defer P.mu.Unlock()
	if f, ok := P.fis[fn]; ok {
		return f
	}
	f := buildFuncInfo(fn)
	if len(fn.Blocks) > 0 {
		f.computePdom()
		f.computeLive()
	}
	P.fis[fn] = f
	return f
}

func (P *Program) implements(t types.Type, i *types.Interface) bool {
	P.mu.Lock()
	defer P.mu.Unlock()
	return types.Implements(t, i)
}

func (P *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	P.mu.Lock()
	defer P.mu.Unlock()
	sel := P.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return P.prog.MethodValue(sel)
}

var initAllow = []string{"regexp", "regexp/syntax", "io/fs", "internal/oserror", "path", "path/filepath", "crypto/md5", "crypto/sha1", "crypto/sha256", "crypto/sha512", "crypto/internal/fips140/sha256", "crypto/internal/fips140/sha512"}

var initDeny = []string{"runtime", "internal/", "os", "syscall", "reflect", "time", "net", "crypto", "vendor/", "fmt", "testing", "sync", "log", "encoding/json", "regexp", "iter", "unique", "weak", "hash/maphash", "encoding/gob", "go/", "embed", "flag"}

func (P *Program) initAllowed(p *ssa.Package) bool {
	path := p.Pkg.Path()
	if strings.HasPrefix(path, modPath) {
		return true
	}
	for _, a := range initAllow {
		if path == a {
			return true
		}
	}
	for _, d := range initDeny {
		if path == strings.TrimSuffix(d, "/") || strings.HasPrefix(path, strings.TrimSuffix(d, "/")+"/") {
			return false
		}
	}
	return true
}

func (P *Program) redirect(name string) *ssa.Function { return P.redir[name] }

func (P *Program) findIntrinsic(fn *ssa.Function, name string) intrinsic {
	if in, ok := P.intr[name]; ok {
		return in
	}
	// package initialisers of imports are run lazily
	if fn.Name() == "init" && fn.Synthetic == "package initializer" {
		return func(ex *Exec, st *State, c *callCtx) (Value, act) { return nil, actRet }
	}
	return nil
}

// srcPkgs: the loaded packages of the repository and the harnesses.
func (P *Program) srcPkgs() map[string]*packages.Package {
	out := map[string]*packages.Package{}
	packages.Visit(P.pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			out[p.PkgPath] = p
		}
	})
	return out
}

// instrumented reports whether the function's source is rewritten for
// schedule-controlled native replay.
func (P *Program) instrumented(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	f := P.prog.Fset.Position(fn.Pos()).Filename
	if strings.HasSuffix(f, "/src/sync/once.go") {
		return true
	}
	if !strings.HasPrefix(f, P.repo+"/") {
		return false
	}
	for _, d := range []string{"vsym", "vmodels", "vsched"} {
		if strings.HasPrefix(f, P.repo+"/verifh/"+d+"/") {
			return false
		}
	}
	return true
}

func (P *Program) inAtomic(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return strings.Contains(P.prog.Fset.Position(fn.Pos()).Filename, "/src/sync/atomic/")
}
