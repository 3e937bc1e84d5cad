// Command gen lists mutations of Go files as JSON lines:
// {"file","line","func","kind","from","to","text"} with byte offsets.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Kind string `json:"kind"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Text string `json:"text"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := ioutil.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range file.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil {
				continue
			}
			emit := func(kind string, a, b token.Pos, text string) {
				enc.Encode(mut{f, fs.Position(a).Line, fn.Name.Name, kind, off(a), off(b), text})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			var list func(l []ast.Stmt)
			list = func(l []ast.Stmt) {
				for i, s := range l {
					switch x := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt:
						emit("delete", s.Pos(), s.End(), "")
					case *ast.GoStmt:
						emit("ungo", x.Pos(), x.Call.Pos(), "")
					case *ast.AssignStmt:
						if x.Tok != token.DEFINE {
							emit("delete", s.Pos(), s.End(), "")
						}
					case *ast.BranchStmt:
						if x.Tok != token.FALLTHROUGH {
							emit("delete", s.Pos(), s.End(), "")
						}
					}
					if i+1 < len(l) {
						_, a := s.(*ast.ExprStmt)
						_, b := l[i+1].(*ast.ExprStmt)
						_, c := l[i+1].(*ast.AssignStmt)
						_, e := s.(*ast.AssignStmt)
						if (a || e) && (b || c) && (a || b) {
							emit("swap", s.Pos(), l[i+1].End(), text(l[i+1])+"\n"+text(s))
						}
					}
				}
			}
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					list(x.List)
				case *ast.CaseClause:
					list(x.Body)
				case *ast.CommClause:
					list(x.Body)
				case *ast.IfStmt:
					emit("negate", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
					emit("false", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{
						token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
					}
					for _, t := range alt[x.Op] {
						emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.Atoi(x.Value); err == nil {
							emit("const", x.Pos(), x.End(), fmt.Sprint(v+1))
						}
					}
				case *ast.ReturnStmt:
					if len(x.Results) > 0 {
						last := x.Results[len(x.Results)-1]
						t := text(last)
						if t == "true" {
							emit("return", last.Pos(), last.End(), "false")
						} else if t == "false" {
							emit("return", last.Pos(), last.End(), "true")
						} else if t == "err" {
							emit("return", last.Pos(), last.End(), "nil")
						}
					}
				}
				return true
			})
		}
	}
}
