// mut lists small changes of a Go source file, one JSON object per line:
// {"off","len","new","desc"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	Desc string `json:"desc"`
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	fn := ""
	put := func(p, e token.Pos, s string) {
		a, b := fs.Position(p).Offset, fs.Position(e).Offset
		enc.Encode(edit{a, b - a, s, fmt.Sprintf("%s:%d %s: %q -> %q", os.Args[1], fs.Position(p).Line, fn, cut(string(src[a:b])), cut(s))})
	}
	text := func(n ast.Node) string {
		return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
	}
	swap := map[token.Token][]string{
		token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
		token.AND_NOT: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn = fd.Name.Name
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				for _, s := range swap[x.Op] {
					put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
				}
			case *ast.IfStmt:
				put(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
				put(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
				put(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")")
				if x.Else != nil {
					if b, ok := x.Else.(*ast.BlockStmt); ok {
						put(b.Pos(), b.End(), "{}")
					}
				}
			case *ast.IncDecStmt:
				if x.Tok == token.INC {
					put(x.TokPos, x.TokPos+2, "--")
				} else {
					put(x.TokPos, x.TokPos+2, "++")
				}
				put(x.Pos(), x.End(), "")
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, e := strconv.ParseInt(x.Value, 0, 64); e == nil {
						put(x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							put(x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				}
				if x.Kind == token.CHAR || x.Kind == token.STRING && len(x.Value) > 2 {
					put(x.Pos(), x.End(), string(x.Value[0])+"z"+string(x.Value[0]))
				}
			case *ast.ExprStmt:
				put(x.Pos(), x.End(), "")
			case *ast.DeferStmt:
				put(x.Pos(), x.End(), "")
			case *ast.GoStmt:
				put(x.Pos(), x.Pos()+2, "")
			case *ast.SendStmt:
				put(x.Pos(), x.End(), "")
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN {
					put(x.Pos(), x.End(), "")
				}
				if x.Tok == token.ADD_ASSIGN {
					put(x.TokPos, x.TokPos+2, "-=")
				}
				if x.Tok == token.SUB_ASSIGN {
					put(x.TokPos, x.TokPos+2, "+=")
				}
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE && x.Label == nil {
					put(x.Pos(), x.End(), "break")
				}
				if x.Tok == token.BREAK && x.Label == nil {
					put(x.Pos(), x.End(), "")
					put(x.Pos(), x.End(), "continue")
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok {
						switch id.Name {
						case "true":
							put(id.Pos(), id.End(), "false")
						case "false":
							put(id.Pos(), id.End(), "true")
						case "err":
							put(id.Pos(), id.End(), "nil")
						}
					}
				}
			case *ast.CallExpr:
				if len(x.Args) >= 2 {
					a, b := x.Args[0], x.Args[1]
					put(a.Pos(), b.End(), text(b)+", "+text(a))
				}
			}
			return true
		})
	}
}

func cut(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}
