package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// concInfo is what rewriteConc needs from the type checker, by file and line.
type concInfo struct {
	rangeChan map[string]bool // "file:line" of range statements over channels
	goConst   map[string]bool // "file:line:arg" of constant arguments of go calls
}

var conc = concInfo{map[string]bool{}, map[string]bool{}}

func (P *Program) collectConc() {
	fs := P.prog.Fset
	for _, pk := range P.srcPkgs() {
		for _, f := range pk.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.RangeStmt:
					t := pk.TypesInfo.TypeOf(x.X)
					if t == nil {
						return true
					}
					if tp, ok := t.(*types.TypeParam); ok {
						t = tp.Underlying()
					}
					if _, ok := t.Underlying().(*types.Chan); ok {
						q := fs.Position(x.For)
						conc.rangeChan[fmt.Sprintf("%s:%d", q.Filename, q.Line)] = true
					}
				case *ast.GoStmt:
					q := fs.Position(x.Go)
					for i, a := range x.Call.Args {
						if tv, ok := pk.TypesInfo.Types[a]; ok && (tv.Value != nil || tv.IsNil()) {
							conc.goConst[fmt.Sprintf("%s:%d:%d", q.Filename, q.Line, i)] = true
						}
					}
				}
				return true
			})
		}
	}
}

// rewriteConc rewrites channel operations and go statements for
// schedule-controlled replay (see vsched).
func rewriteConc(fset *token.FileSet, f *ast.File, src []byte) ([]edit, bool) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	hole := func(n ast.Node) string { return fmt.Sprintf("\x00%d:%d\x00", off(n.Pos()), off(n.End())) }
	line := func(p token.Pos) string {
		q := fset.Position(p)
		return fmt.Sprintf("%s:%d", q.Filename, q.Line)
	}
	var eds []edit
	put := func(a, b token.Pos, s string) { eds = append(eds, edit{off(a), off(b), s}) }
	unparen := func(e ast.Expr) ast.Expr {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				return e
			}
			e = p.X
		}
	}
	recv := func(e ast.Expr) *ast.UnaryExpr {
		u, ok := unparen(e).(*ast.UnaryExpr)
		if ok && u.Op == token.ARROW {
			return u
		}
		return nil
	}
	imps := map[string]bool{}
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, "\"`")
		n := p[strings.LastIndexByte(p, '/')+1:]
		if im.Name != nil {
			n = im.Name.Name
		}
		imps[n] = true
	}
	two := map[*ast.UnaryExpr]bool{}
	skip := map[ast.Node]bool{}
	label := map[*ast.SelectStmt]token.Pos{}
	goN := 0
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.LabeledStmt:
			if s, ok := x.Stmt.(*ast.SelectStmt); ok {
				label[s] = x.Pos()
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u := recv(x.Rhs[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u := recv(x.Values[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.SelectStmt:
			at := x.Pos()
			if l, ok := label[x]; ok {
				at = l
			}
			def := false
			var sole *ast.CommClause
			i := 0
			for _, c := range x.Body.List {
				cc := c.(*ast.CommClause)
				if cc.Comm == nil {
					def = true
				} else {
					sole = cc
					var u *ast.UnaryExpr
					switch y := cc.Comm.(type) {
					case *ast.SendStmt:
						skip[y] = true
						put(y.Chan.Pos(), y.Chan.End(), fmt.Sprintf("vsched__.CS(%d, %s)", i, hole(y.Chan)))
					case *ast.ExprStmt:
						u = recv(y.X)
					case *ast.AssignStmt:
						u = recv(y.Rhs[0])
					}
					if u != nil {
						skip[u] = true
						put(u.X.Pos(), u.X.End(), fmt.Sprintf("vsched__.C(%d, %s)", i, hole(u.X)))
					}
					i++
				}
				put(cc.Colon+1, cc.Colon+1, " vsched__.Post();")
			}
			if i == 1 && !def {
				k := "recv"
				if _, ok := sole.Comm.(*ast.SendStmt); ok {
					k = "send"
				}
				put(at, at, "vsched__.Point(\""+k+"\"); ")
			} else {
				put(at, at, "vsched__.Sel(); ")
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !skip[x] {
				fn := "Recv"
				if two[x] {
					fn = "Recv2"
				}
				put(x.Pos(), x.End(), "vsched__."+fn+"("+hole(x.X)+")")
			}
		case *ast.SendStmt:
			if !skip[x] {
				put(x.Pos(), x.End(), "vsched__.SendTo("+hole(x.Chan)+")("+hole(x.Value)+")")
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && id.Obj == nil && len(x.Args) == 1 {
				put(id.Pos(), id.End(), "vsched__.Close")
			}
		case *ast.RangeStmt:
			if !conc.rangeChan[line(x.For)] {
				break
			}
			k := "_"
			if x.Key != nil {
				k = string(src[off(x.Key.Pos()):off(x.Key.End())])
			}
			asg := k + ", ok__ := "
			if x.Key != nil && x.Tok == token.ASSIGN {
				asg = "var ok__ bool; " + k + ", ok__ = "
			}
			put(x.For, x.Body.Lbrace+1, "for ch__ := "+hole(x.X)+"; ; { "+asg+"vsched__.Recv2(ch__); if !ok__ { break }; ")
		case *ast.GoStmt:
			c := x.Call
			pre := "{ h__ := vsched__.NewG(); "
			call := hole(c.Fun)
			if _, ok := c.Fun.(*ast.FuncLit); ok {
				call = "(" + call + ")"
			}
			if se, ok := unparen(c.Fun).(*ast.SelectorExpr); ok {
				id, isId := se.X.(*ast.Ident)
				if !(isId && id.Obj == nil && imps[id.Name]) {
					pre += "f__ := " + hole(c.Fun) + "; "
					call = "f__"
				}
			}
			var args []string
			for i, a := range c.Args {
				inline := conc.goConst[fmt.Sprintf("%s:%d", line(x.Go), i)]
				switch a.(type) {
				case *ast.BasicLit, *ast.FuncLit:
					inline = true
				}
				s := hole(a)
				if !inline {
					nm := fmt.Sprintf("a%d_%d__", goN, i)
					pre += nm + " := " + s + "; "
					s = nm
				}
				if c.Ellipsis.IsValid() && i == len(c.Args)-1 {
					s += "..."
				}
				args = append(args, s)
			}
			goN++
			put(x.Pos(), x.End(), pre+"go func() { defer vsched__.Exit(h__); vsched__.Enter(h__); "+call+"("+strings.Join(args, ", ")+") }() }")
		}
		return true
	})
	return eds, len(eds) > 0
}
