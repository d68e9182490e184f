// instr rewrites the non-test Go files of some packages of the repository so
// that their synchronisation, goroutines, channels and clock go through the
// shim packages, and writes a -overlay file.  It decides nothing about what
// the code looks like: any file of the given directories is handled.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/lightstep/otel-launcher-go/verifshim/"

var swap = map[string]struct{ path, name string }{
	"sync":        {mod + "vsync", "sync"},
	"sync/atomic": {mod + "vatomic", "atomic"},
	"time":        {mod + "vtime", "time"},
	"runtime":     {mod + "vruntime", "runtime"},
	"context":     {mod + "vcontext", "context"},
	"syscall":     {mod + "vsyscall", "syscall"},

	"runtime/metrics": {mod + "vmetrics", "metrics"},
}

type edit struct {
	from, to int
	text     string
	seq      int
}

type rewriter struct {
	fset  *token.FileSet
	src   []byte
	edits []edit
	used  bool
	n     int
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }
func (r *rewriter) put(from, to token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(from), r.off(to), s, len(r.edits)})
}
func (r *rewriter) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

func (r *rewriter) goStmt(g *ast.GoStmt) {
	r.used = true
	call := g.Call
	if _, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		r.put(g.Go, call.Fun.Pos(), "vsched__.Go(")
		r.put(call.Fun.End(), call.End(), ")")
		return
	}
	id := r.n
	r.n++
	r.put(g.Go, call.Fun.Pos(), fmt.Sprintf("{ vf%d__ := ", id))
	prev := call.Fun.End()
	var args []string
	for i, a := range call.Args {
		if _, lit := a.(*ast.BasicLit); lit || r.text(a) == "nil" || r.text(a) == "true" || r.text(a) == "false" {
			r.put(prev, a.End(), "")
			args = append(args, r.text(a))
		} else {
			r.put(prev, a.Pos(), fmt.Sprintf("; va%d_%d__ := ", id, i))
			args = append(args, fmt.Sprintf("va%d_%d__", id, i))
		}
		prev = a.End()
	}
	dots := ""
	if call.Ellipsis.IsValid() {
		dots = "..."
	}
	r.put(prev, call.End(), fmt.Sprintf("; vsched__.Go(func() { vf%d__(%s%s) }) }", id, strings.Join(args, ", "), dots))
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label *ast.LabeledStmt) {
	if len(s.Body.List) == 0 {
		return
	}
	r.used = true
	id := r.n
	r.n++
	def := false
	var decl, names []string
	idx := 0
	type cl struct {
		c    *ast.CommClause
		head string
	}
	var cls []cl
	for _, st := range s.Body.List {
		c := st.(*ast.CommClause)
		if c.Comm == nil {
			def = true
			cls = append(cls, cl{c, ""})
			continue
		}
		nm := fmt.Sprintf("vc%d_%d__", id, idx)
		names = append(names, nm)
		bind := ""
		switch x := c.Comm.(type) {
		case *ast.SendStmt:
			decl = append(decl, fmt.Sprintf("%s := vsched__.NewSend(%s, %s)", nm, r.text(x.Chan), r.text(x.Value)))
		case *ast.ExprStmt:
			decl = append(decl, fmt.Sprintf("%s := vsched__.NewRecv(%s)", nm, r.text(unparen(x.X).(*ast.UnaryExpr).X)))
		case *ast.AssignStmt:
			decl = append(decl, fmt.Sprintf("%s := vsched__.NewRecv(%s)", nm, r.text(unparen(x.Rhs[0]).(*ast.UnaryExpr).X)))
			if len(x.Lhs) == 1 {
				bind = fmt.Sprintf(" %s %s %s.V;", r.text(x.Lhs[0]), x.Tok, nm)
			} else {
				bind = fmt.Sprintf(" %s, %s %s %s.V, %s.OK;", r.text(x.Lhs[0]), r.text(x.Lhs[1]), x.Tok, nm, nm)
			}
		}
		cls = append(cls, cl{c, fmt.Sprintf("case %d:%s", idx, bind)})
		idx++
	}
	lab := ""
	start := s.Pos()
	if label != nil {
		lab = label.Label.Name + ": "
		start = label.Pos()
	}
	r.put(start, s.Body.Lbrace+1, fmt.Sprintf("{ %s; %sswitch vsched__.Select(%v, %s) {", strings.Join(decl, "; "), lab, def, strings.Join(names, ", ")))
	for i, c := range cls {
		h := c.head
		if h == "" {
			h = "default:"
		} else if !def && i == len(cls)-1 {
			h = "default:" + h[strings.Index(h, ":")+1:]
		}
		r.put(c.c.Pos(), c.c.Colon+1, h)
		for _, b := range c.c.Body {
			r.walk(b)
		}
	}
	r.put(s.Body.Rbrace, s.Body.Rbrace+1, "}}")
}

// isChan recognises, without types, expressions that are channels: timer and
// ticker fields C, context Done calls, and variables declared as channels.
func isChan(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.SelectorExpr:
		return x.Sel.Name == "C"
	case *ast.CallExpr:
		switch f := x.Fun.(type) {
		case *ast.SelectorExpr:
			return f.Sel.Name == "Done" || f.Sel.Name == "After" || f.Sel.Name == "Tick"
		}
	case *ast.Ident:
		if x.Obj == nil {
			return false
		}
		switch d := x.Obj.Decl.(type) {
		case *ast.Field:
			_, ok := d.Type.(*ast.ChanType)
			return ok
		case *ast.ValueSpec:
			if _, ok := d.Type.(*ast.ChanType); ok {
				return true
			}
			return len(d.Values) == 1 && isMakeChan(d.Values[0])
		case *ast.AssignStmt:
			for i, l := range d.Lhs {
				if id, ok := l.(*ast.Ident); ok && id.Name == x.Name && len(d.Rhs) == len(d.Lhs) {
					return isMakeChan(d.Rhs[i]) || isChan(d.Rhs[i])
				}
			}
		}
	}
	return false
}

func isMakeChan(e ast.Expr) bool {
	c, ok := unparen(e).(*ast.CallExpr)
	if !ok || len(c.Args) == 0 {
		return false
	}
	f, ok := c.Fun.(*ast.Ident)
	if !ok || f.Name != "make" {
		return false
	}
	_, ok = c.Args[0].(*ast.ChanType)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) recv(u *ast.UnaryExpr, fn string) {
	r.used = true
	r.put(u.OpPos, u.X.Pos(), "vsched__."+fn+"(")
	r.walk(u.X)
	r.put(u.X.End(), u.X.End(), ")")
}

func (r *rewriter) walk(root ast.Node) {
	ast.Inspect(root, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.LabeledStmt:
			if s, ok := x.Stmt.(*ast.SelectStmt); ok {
				r.selectStmt(s, x)
				return false
			}
		case *ast.SelectStmt:
			r.selectStmt(x, nil)
			return false
		case *ast.RangeStmt:
			if x.Value == nil && isChan(x.X) {
				r.used = true
				v := "_"
				tok := ":="
				if x.Key != nil {
					v = r.text(x.Key)
					tok = x.Tok.String()
				}
				ok := fmt.Sprintf("vok%d__", r.n)
				r.n++
				if tok == "=" {
					r.put(x.For, x.Body.Lbrace+1, fmt.Sprintf("for { var %s bool; %s, %s = vsched__.Recv2(%s); if !%s { break };", ok, v, ok, r.text(x.X), ok))
				} else {
					r.put(x.For, x.Body.Lbrace+1, fmt.Sprintf("for { %s, %s := vsched__.Recv2(%s); if !%s { break };", v, ok, r.text(x.X), ok))
				}
				for _, b := range x.Body.List {
					r.walk(b)
				}
				return false
			}
		case *ast.GoStmt:
			r.goStmt(x)
			r.walk(x.Call.Fun)
			for _, a := range x.Call.Args {
				if _, lit := a.(*ast.BasicLit); !lit {
					r.walk(a)
				}
			}
			return false
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					for _, l := range x.Lhs {
						r.walk(l)
					}
					r.recv(u, "Recv2")
					return false
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				r.recv(x, "Recv")
				return false
			}
		case *ast.SendStmt:
			r.used = true
			r.put(x.Pos(), x.Pos(), "vsched__.Send(")
			r.walk(x.Chan)
			r.put(x.Arrow, x.Arrow+2, ",")
			r.walk(x.Value)
			r.put(x.End(), x.End(), ")")
			return false
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && id.Obj == nil && len(x.Args) == 1 {
				r.used = true
				r.put(id.Pos(), id.End(), "vsched__.Close")
			}
		}
		return true
	})
}

func rewrite(path string) ([]byte, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	r := &rewriter{fset: fset, src: src}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		sw, ok := swap[p]
		if !ok || (im.Name != nil && (im.Name.Name == "_" || im.Name.Name == ".")) {
			continue
		}
		t := strconv.Quote(sw.path)
		if im.Name == nil {
			t = sw.name + " " + t
		}
		r.put(im.Path.Pos(), im.Path.End(), t)
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		r.walk(d)
	}
	if r.used {
		r.put(f.Name.End(), f.Name.End(), "; import vsched__ "+strconv.Quote(mod+"vsched"))
	}
	if len(r.edits) == 0 {
		return nil, nil
	}
	sort.SliceStable(r.edits, func(i, j int) bool {
		if r.edits[i].from != r.edits[j].from {
			return r.edits[i].from < r.edits[j].from
		}
		return r.edits[i].seq < r.edits[j].seq
	})
	var out strings.Builder
	pos := 0
	for _, e := range r.edits {
		if e.from < pos {
			return nil, fmt.Errorf("%s: overlapping rewrites at offset %d", path, e.from)
		}
		out.Write(src[pos:e.from])
		out.WriteString(e.text)
		pos = e.to
	}
	out.Write(src[pos:])
	return []byte(out.String()), nil
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	roots := flag.String("roots", "", "comma separated directories to rewrite, relative to the repository")
	excl := flag.String("exclude", "", "comma separated directories to leave alone")
	var adds multi
	flag.Var(&adds, "add", "virtual=real directory to lay into the repository")
	flag.Parse()

	rep := map[string]string{}
	ex := map[string]bool{}
	for _, e := range strings.Split(*excl, ",") {
		ex[e] = true
	}
	count := 0
	for _, root := range strings.Split(*roots, ",") {
		if root == "" {
			continue
		}
		err := filepath.Walk(filepath.Join(*repo, root), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(*repo, p)
			if fi.IsDir() {
				if ex[rel] || fi.Name() == "testdata" {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			b, err := rewrite(p)
			if err != nil || b == nil {
				return err
			}
			dst := filepath.Join(*out, "src", strings.ReplaceAll(rel, "/", "__"))
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				return err
			}
			count++
			rep[p] = dst
			return os.WriteFile(dst, b, 0o644)
		})
		if err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(3)
		}
	}
	for _, a := range adds {
		v, real, _ := strings.Cut(a, "=")
		err := filepath.Walk(real, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() || !strings.HasSuffix(p, ".go") {
				return nil
			}
			rel, _ := filepath.Rel(real, p)
			rep[filepath.Join(*repo, v, rel)] = p
			return nil
		})
		if err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(3)
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": rep}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
	fmt.Printf("%d files rewritten\n", count)
}

type multi []string

func (m *multi) String() string     { return strings.Join(*m, ",") }
func (m *multi) Set(s string) error { *m = append(*m, s); return nil }
