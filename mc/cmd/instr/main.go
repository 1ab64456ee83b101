// Command instr writes an overlay of the packages of a Go module in which
// every walk over a map goes through vsched and, with -yield, every statement
// is preceded by a scheduling point. The sources themselves are not touched.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	Module                  *struct{ Path string }
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

func main() {
	dir := flag.String("dir", "/repo", "module to instrument")
	module := flag.String("module", "github.com/arr-ai/wbnf", "its path")
	out := flag.String("out", "", "directory for the overlay")
	yield := flag.Bool("yield", false, "insert scheduling points")
	maps := flag.Bool("maps", false, "take over map walks")
	globals := flag.Bool("globals", false, "give access to package variables")
	flag.Parse()

	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Module", "./...")
	cmd.Dir = *dir
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	must(err)
	exports := map[string]string{}
	var mine []pkg
	for d := json.NewDecoder(bytes.NewReader(b)); ; {
		var p pkg
		if err := d.Decode(&p); err == io.EOF {
			break
		} else {
			must(err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == *module && !strings.Contains(p.ImportPath, "/examples") {
			mine = append(mine, p)
		}
	}
	replace := map[string]string{}
	points := 0
	for pi, p := range mine {
		fset := token.NewFileSet()
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			must(err)
			files = append(files, af)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			return os.Open(exports[path])
		})}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		must(err)
		for i, af := range files {
			r := &rewriter{info: info, yield: *yield, maps: *maps, point: &points}
			for _, d := range af.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					r.block(&fd.Body.List)
				}
				if gd, ok := d.(*ast.GenDecl); ok {
					r.exprs(gd)
				}
			}
			if r.used {
				ast.Inspect(af, func(n ast.Node) bool { return true })
				af.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{
					&ast.ImportSpec{Name: ast.NewIdent("vsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/mc/vsched"`}}}}}, af.Decls...)
			}
			af.Comments = nil
			var buf bytes.Buffer
			must(format.Node(&buf, fset, af))
			dst := filepath.Join(*out, fmt.Sprintf("%d_%d.go", pi, i))
			must(os.WriteFile(dst, buf.Bytes(), 0o644))
			replace[filepath.Join(p.Dir, p.GoFiles[i])] = dst
		}
		if *globals {
			var sb strings.Builder
			fmt.Fprintf(&sb, "package %s\n\n// VerifGlobals gives access to the package's variables.\nfunc VerifGlobals() map[string]any {\n\treturn map[string]any{\n", tp.Name())
			for _, name := range tp.Scope().Names() {
				if _, ok := tp.Scope().Lookup(name).(*types.Var); ok && name != "_" {
					fmt.Fprintf(&sb, "\t\t%s: &%s,\n", strconv.Quote(name), name)
				}
			}
			sb.WriteString("\t}\n}\n")
			dst := filepath.Join(*out, fmt.Sprintf("%d_globals.go", pi))
			must(os.WriteFile(dst, []byte(sb.String()), 0o644))
			replace[filepath.Join(p.Dir, "verif_globals.go")] = dst
		}
	}
	b, err = json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
}

type rewriter struct {
	info        *types.Info
	yield, maps bool
	used        bool
	n           int
	point       *int
}

func sel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) block(list *[]ast.Stmt) {
	var out []ast.Stmt
	for _, s := range *list {
		if r.yield {
			switch s.(type) {
			case *ast.EmptyStmt:
			default:
				r.used = true
				*r.point++
				out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("P"), Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(*r.point)}}}})
			}
		}
		out = append(out, r.stmt(s))
	}
	*list = out
}

// exprs looks for function literals.
func (r *rewriter) exprs(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(n ast.Node) bool {
		if f, ok := n.(*ast.FuncLit); ok {
			r.block(&f.Body.List)
			return false
		}
		return true
	})
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		r.block(&s.List)
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
	case *ast.IfStmt:
		if s.Init != nil {
			r.exprs(s.Init)
		}
		r.exprs(s.Cond)
		r.block(&s.Body.List)
		if s.Else != nil {
			s.Else = r.stmt(s.Else)
		}
	case *ast.ForStmt:
		if s.Init != nil {
			r.exprs(s.Init)
		}
		if s.Cond != nil {
			r.exprs(s.Cond)
		}
		if s.Post != nil {
			r.exprs(s.Post)
		}
		r.block(&s.Body.List)
	case *ast.RangeStmt:
		r.exprs(s.X)
		_, isMap := r.info.Types[s.X].Type.Underlying().(*types.Map)
		r.block(&s.Body.List)
		if r.maps && isMap {
			return r.walk(s)
		}
	case *ast.SwitchStmt:
		if s.Init != nil {
			r.exprs(s.Init)
		}
		if s.Tag != nil {
			r.exprs(s.Tag)
		}
		r.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			r.exprs(s.Init)
		}
		r.exprs(s.Assign)
		r.clauses(s.Body)
	case *ast.SelectStmt:
		r.clauses(s.Body)
	default:
		r.exprs(s)
	}
	return s
}

func (r *rewriter) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		switch c := c.(type) {
		case *ast.CaseClause:
			for _, e := range c.List {
				r.exprs(e)
			}
			r.block(&c.Body)
		case *ast.CommClause:
			r.block(&c.Body)
		}
	}
}

func blank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || ok && id.Name == "_"
}

// walk rewrites "for k, v := range m" to
// "for it, k, v := vsched.Start(m); it.Next(&k, &v);".
func (r *rewriter) walk(s *ast.RangeStmt) ast.Stmt {
	r.used = true
	r.n++
	it := ast.NewIdent(fmt.Sprintf("vschedIt%d", r.n))
	lhs := []ast.Expr{it}
	start := "StartIt"
	if s.Tok == token.DEFINE {
		switch {
		case !blank(s.Key) && !blank(s.Value):
			start = "Start"
			lhs = append(lhs, s.Key, s.Value)
		case !blank(s.Key):
			start = "StartK"
			lhs = append(lhs, s.Key)
		case !blank(s.Value):
			start = "StartV"
			lhs = append(lhs, s.Value)
		}
	}
	arg := func(e ast.Expr) ast.Expr {
		if blank(e) {
			return ast.NewIdent("nil")
		}
		return &ast.UnaryExpr{Op: token.AND, X: e}
	}
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: sel(start), Args: []ast.Expr{s.X}}}},
		Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, Args: []ast.Expr{arg(s.Key), arg(s.Value)}},
		Body: s.Body,
	}
}
