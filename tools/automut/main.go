// automut lists small mutations of the Go files given as arguments, as JSON
// lines {file, op, line, off, end, new}. Used only to look for blind spots of
// the checks; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Op   string `json:"op"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(op string, a, b token.Pos, s string) {
			enc.Encode(mut{f, op, fs.Position(a).Line, off(a), off(b), s})
		}
		logging := func(s string) bool {
			return strings.Contains(s, "doevery.") || strings.Contains(s, "otel.Handle") || strings.Contains(s, "log.") || strings.Contains(s, "Logger")
		}
		var stmts func(l []ast.Stmt)
		stmts = func(l []ast.Stmt) {
			for _, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.GoStmt, *ast.SendStmt, *ast.DeferStmt:
					emit("del", s.Pos(), s.End(), "")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						var b []string
						for _, r := range x.Rhs {
							b = append(b, "_ = "+text(r))
						}
						emit("del", s.Pos(), s.End(), strings.Join(b, "; "))
					}
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE {
						emit("brk", s.Pos(), s.End(), "break")
					}
					if x.Tok == token.BREAK {
						emit("cont", s.Pos(), s.End(), "continue")
					}
				case *ast.RangeStmt:
					emit("once", x.Body.Rbrace, x.Body.Rbrace, "; break ")
				}
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				return x.Tok == token.VAR || x.Tok == token.CONST
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
				if len(x.Body) > 0 && len(x.List) > 0 {
					emit("nocase", x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "")
				}
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.IfStmt:
				c := text(x.Cond)
				emit("iffalse", x.Cond.Pos(), x.Cond.End(), "false && ("+c+")")
				emit("iftrue", x.Cond.Pos(), x.Cond.End(), "true || ("+c+")")
				_ = logging
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{
					token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
					token.MUL: {"/"}, token.QUO: {"*"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
				}
				for _, a := range alt[x.Op] {
					emit("op"+a, x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit("left", x.Pos(), x.End(), text(x.X))
					emit("right", x.Pos(), x.End(), text(x.Y))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					emit("int+1", x.Pos(), x.End(), "("+x.Value+"+1)")
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if text(r) == "err" {
						emit("noerr", r.Pos(), r.End(), "nil")
					}
					if text(r) == "true" {
						emit("ret", r.Pos(), r.End(), "false")
					}
					if text(r) == "false" {
						emit("ret", r.Pos(), r.End(), "true")
					}
				}
			case *ast.KeyValueExpr:
				// A field left at its zero value.
				if id, ok := x.Key.(*ast.Ident); ok && id.IsExported() {
					emit("nofield", x.Pos(), x.End(), fmt.Sprintf("/* %s */", id.Name))
				}
			case *ast.CallExpr:
				if len(x.Args) >= 2 {
					a, b := x.Args[0], x.Args[1]
					emit("swap", a.Pos(), b.End(), text(b)+", "+text(a))
				}
			}
			return true
		})
	}
}
