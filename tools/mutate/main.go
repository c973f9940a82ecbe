// mutate enumerates small syntactic changes of Go source files.
// usage: mutate FILE...        lists them as JSON lines {file, line, off, end, new, what}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	What string `json:"what"`
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b int, nw, what string) {
			enc.Encode(mut{fn, fs.Position(f.FileStart + token.Pos(a)).Line, a, b, nw, what})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		stmt := func(s ast.Stmt) {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
				emit(off(s.Pos()), off(s.End()), "", "delete "+text(s))
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					blank := ""
					for i := range x.Rhs {
						if i > 0 {
							blank += "; "
						}
						blank += "_ = " + text(x.Rhs[i])
					}
					if len(x.Lhs) == len(x.Rhs) && x.Tok == token.ASSIGN {
						emit(off(s.Pos()), off(s.End()), blank, "drop "+text(s))
					} else {
						emit(off(s.Pos()), off(s.End()), "", "delete "+text(s))
					}
				}
			case *ast.IfStmt:
				if x.Init == nil && x.Else == nil {
					emit(off(s.Pos()), off(s.End()), "_ = "+text(x.Cond), "drop if "+text(x.Cond))
				}
			case *ast.BranchStmt, *ast.ReturnStmt:
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					stmt(s)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					stmt(s)
				}
				if len(x.List) > 0 && len(x.Body) > 0 {
					emit(off(x.Body[0].Pos()), off(x.Body[len(x.Body)-1].End()), "", "empty case "+text(x.List[0]))
				}
			case *ast.BinaryExpr:
				for _, o := range swaps[x.Op] {
					p := off(x.OpPos)
					emit(p, p+len(x.Op.String()), o, text(x)+" with "+o)
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					p := off(x.OpPos)
					emit(p, p+1, "", "un-not "+text(x))
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				if _, ok := x.Cond.(*ast.BinaryExpr); !ok {
					emit(off(x.Cond.Pos()), off(x.Cond.End()), "!("+c+")", "negate "+c)
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						emit(off(x.Pos()), off(x.End()), fmt.Sprint(v+1), x.Value+" -> +1")
						if v > 0 {
							emit(off(x.Pos()), off(x.End()), fmt.Sprint(v-1), x.Value+" -> -1")
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(off(x.Pos()), off(x.End()), "false", "true -> false")
				} else if x.Name == "false" {
					emit(off(x.Pos()), off(x.End()), "true", "false -> true")
				}
			case *ast.CallExpr:
				if len(x.Args) == 2 {
					a, b := text(x.Args[0]), text(x.Args[1])
					emit(off(x.Args[0].Pos()), off(x.Args[1].End()), b+", "+a, "swap args of "+text(x.Fun))
				}
			}
			return true
		})
	}
}
