package main

import (
	"bytes"
	"fmt"
	goast "go/ast"
	"go/constant"
	"go/importer"
	goparser "go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"

	"github.com/arr-ai/wbnf/cmd"
	"github.com/arr-ai/wbnf/parser"
	"github.com/sirupsen/logrus"
)

type cliExit int

// cli runs the command in this process. It must not be used where the command
// is expected to fail.
func cli(args ...string) (out string, code int, pv any) {
	oldArgs, oldOut := os.Args, os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	logger := logrus.StandardLogger()
	oldExit, oldLog := logger.ExitFunc, logger.Out
	var log bytes.Buffer
	logger.ExitFunc, logger.Out = func(c int) { panic(cliExit(c)) }, &log
	os.Args, os.Stdout = append([]string{"wbnf"}, args...), w
	done := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		done <- string(b)
	}()
	func() {
		defer func() {
			switch e := recover().(type) {
			case nil:
			case cliExit:
				code = int(e)
			default:
				pv = e
				code = 2
			}
		}()
		cmd.Main(cmd.VersionTags{})
	}()
	os.Args, os.Stdout = oldArgs, oldOut
	logger.ExitFunc, logger.Out = oldExit, oldLog
	w.Close()
	out = <-done
	r.Close()
	if code != 0 {
		out += log.String()
	}
	return out, code, pv
}

// genFile runs wbnf gen on a grammar text.
func genFile(dir, text, start string) (src string, err error) {
	if err := os.WriteFile(filepath.Join(dir, "g.wbnf"), []byte(text), 0o644); err != nil {
		return "", err
	}
	return genFileIn(dir, start)
}

// genFileIn runs wbnf gen on the file g.wbnf of a directory.
func genFileIn(dir, start string) (src string, err error) {
	in, out := filepath.Join(dir, "g.wbnf"), filepath.Join(dir, "g.go")
	os.Remove(out)
	msg, code, pv := cli("gen", "--grammar", in, "--pkg", "p", "--start", start, "--output", out)
	if pv != nil {
		return "", fmt.Errorf("gen panics: %v", pv)
	}
	if code != 0 {
		return "", fmt.Errorf("gen fails: %s", strings.TrimSpace(msg))
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return "", fmt.Errorf("gen exits 0 without output: %v", err)
	}
	return string(b), nil
}

var (
	exportsOnce sync.Once
	goExports   map[string]string
	goFset      *token.FileSet
	goImporter  types.Importer
)

// loadExports finds the compiled packages that generated code imports.
func loadExports() {
	goExports = map[string]string{}
	c := exec.Command("go", "list", "-export", "-f", "{{.ImportPath}} {{.Export}}", "-deps", "github.com/arr-ai/wbnf/wbnf")
	c.Dir = filepath.Join(os.Getenv("VERIF_ROOT"), "mc")
	c.Stderr = os.Stderr
	out, err := c.Output()
	if err != nil {
		panic(fmt.Errorf("go list: %w", err))
	}
	for _, l := range strings.Split(string(out), "\n") {
		if f := strings.Fields(l); len(f) == 2 {
			goExports[f[0]] = f[1]
		}
	}
	goFset = token.NewFileSet()
	goImporter = importer.ForCompiler(goFset, "gc", func(p string) (io.ReadCloser, error) {
		if goExports[p] == "" {
			return nil, fmt.Errorf("no package %s", p)
		}
		return os.Open(goExports[p])
	})
}

type checked struct {
	file *goast.File
	pkg  *types.Package
	info *types.Info
}

// typecheck compiles a generated file as far as types go.
func typecheck(src string) (*checked, error) {
	exportsOnce.Do(loadExports)
	fset := goFset
	f, err := goparser.ParseFile(fset, "g.go", src, goparser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	var errs []string
	conf := types.Config{Importer: goImporter, Error: func(e error) {
		if len(errs) < 4 {
			errs = append(errs, e.Error())
		}
	}}
	info := &types.Info{Types: map[goast.Expr]types.TypeAndValue{}, Uses: map[*goast.Ident]types.Object{}, Defs: map[*goast.Ident]types.Object{}}
	pkg, _ := conf.Check("p", fset, []*goast.File{f}, info)
	if errs != nil {
		return nil, fmt.Errorf("%s", strings.Join(errs, "; "))
	}
	return &checked{f, pkg, info}, nil
}

// evaluator computes the value of expressions in generated code.
type evaluator struct{ *checked }

type unsupported string

func (e unsupported) Error() string { return "cannot evaluate " + string(e) }

// grammarOf calls the generated function that makes the parsers.
func grammarOf(ck *checked) (p parser.Parsers, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = u
				return
			}
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	v := evaluator{ck}.callFunc("Grammar")
	p, ok := v.Interface().(parser.Parsers)
	if !ok {
		return p, unsupported("Grammar() of type " + v.Type().String())
	}
	return p, nil
}

func (e evaluator) callFunc(name string) reflect.Value {
	for _, d := range e.file.Decls {
		fd, ok := d.(*goast.FuncDecl)
		if !ok || fd.Recv != nil || fd.Name.Name != name {
			continue
		}
		if fd.Type.Params.NumFields() != 0 {
			panic(unsupported(name))
		}
		vars := map[types.Object]reflect.Value{}
		for _, s := range fd.Body.List {
			switch s := s.(type) {
			case *goast.AssignStmt:
				for i, l := range s.Lhs {
					id, ok := l.(*goast.Ident)
					if !ok || len(s.Lhs) != len(s.Rhs) || s.Tok != token.DEFINE {
						panic(unsupported("assignment"))
					}
					vars[e.info.Defs[id]] = e.eval(s.Rhs[i], vars)
				}
			case *goast.ReturnStmt:
				if len(s.Results) != 1 {
					panic(unsupported("return"))
				}
				return e.eval(s.Results[0], vars)
			default:
				panic(unsupported(fmt.Sprintf("%T", s)))
			}
		}
	}
	panic(unsupported("function " + name))
}

var parserTypes = map[string]reflect.Type{}
var parserFuncs = map[string]reflect.Value{
	"Any": reflect.ValueOf(parser.Any), "Some": reflect.ValueOf(parser.Some), "Opt": reflect.ValueOf(parser.Opt),
	"Eq": reflect.ValueOf(parser.Eq), "At": reflect.ValueOf(parser.At), "NonAssociative": reflect.ValueOf(parser.NonAssociative),
	"LeftToRight": reflect.ValueOf(parser.LeftToRight), "RightToLeft": reflect.ValueOf(parser.RightToLeft),
}

func init() {
	for _, v := range []any{
		parser.Seq{}, parser.Oneof{}, parser.Stack{}, parser.S(""), parser.RE(""), parser.Rule(""), parser.Delim{}, parser.Quant{}, parser.Named{},
		parser.ScopedGrammar{}, parser.Grammar{}, parser.REF{}, parser.CutPoint{}, parser.ExtRef(""), parser.LookAhead{}, parser.NonAssociative,
	} {
		t := reflect.TypeOf(v)
		parserTypes[t.Name()] = t
	}
	parserTypes["Term"] = reflect.TypeOf((*parser.Term)(nil)).Elem()
}

func (e evaluator) typ(t types.Type) reflect.Type {
	switch t := t.(type) {
	case *types.Alias:
		return e.typ(types.Unalias(t))
	case *types.Named:
		if p := t.Obj().Pkg(); p != nil && strings.HasSuffix(p.Path(), "/parser") {
			if r := parserTypes[t.Obj().Name()]; r != nil {
				return r
			}
		}
	case *types.Slice:
		return reflect.SliceOf(e.typ(t.Elem()))
	case *types.Basic:
		switch t.Kind() {
		case types.Int, types.UntypedInt:
			return reflect.TypeOf(0)
		case types.String, types.UntypedString:
			return reflect.TypeOf("")
		case types.Bool, types.UntypedBool:
			return reflect.TypeOf(false)
		}
	}
	panic(unsupported("type " + t.String()))
}

func (e evaluator) constant(tv types.TypeAndValue) reflect.Value {
	t := e.typ(tv.Type)
	v := reflect.New(t).Elem()
	switch tv.Value.Kind() {
	case constant.String:
		v.SetString(constant.StringVal(tv.Value))
	case constant.Bool:
		v.SetBool(constant.BoolVal(tv.Value))
	case constant.Int:
		i, _ := constant.Int64Val(tv.Value)
		v.SetInt(i)
	default:
		panic(unsupported("constant"))
	}
	return v
}

func (e evaluator) eval(x goast.Expr, vars map[types.Object]reflect.Value) reflect.Value {
	tv := e.info.Types[x]
	if tv.Value != nil {
		return e.constant(tv)
	}
	switch x := x.(type) {
	case *goast.ParenExpr:
		return e.eval(x.X, vars)
	case *goast.Ident:
		o := e.info.Uses[x]
		if v, ok := vars[o]; ok {
			return v
		}
		for _, d := range e.file.Decls {
			gd, ok := d.(*goast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*goast.ValueSpec)
				for i, n := range vs.Names {
					if e.info.Defs[n] == o && i < len(vs.Values) {
						return e.eval(vs.Values[i], nil)
					}
				}
			}
		}
		panic(unsupported("identifier " + x.Name))
	case *goast.SelectorExpr:
		if id, ok := x.X.(*goast.Ident); ok {
			if pn, ok := e.info.Uses[id].(*types.PkgName); ok && strings.HasSuffix(pn.Imported().Path(), "/parser") {
				if v, ok := parserFuncs[x.Sel.Name]; ok {
					return v
				}
			}
		}
		panic(unsupported("selector " + x.Sel.Name))
	case *goast.CompositeLit:
		t := e.typ(tv.Type)
		v := reflect.New(t).Elem()
		switch t.Kind() {
		case reflect.Slice:
			v = reflect.MakeSlice(t, 0, len(x.Elts))
			for _, el := range x.Elts {
				v = reflect.Append(v, e.as(el, t.Elem(), vars))
			}
		case reflect.Map:
			v = reflect.MakeMap(t)
			for _, el := range x.Elts {
				kv := el.(*goast.KeyValueExpr)
				v.SetMapIndex(e.as(kv.Key, t.Key(), vars), e.as(kv.Value, t.Elem(), vars))
			}
		case reflect.Struct:
			for i, el := range x.Elts {
				if kv, ok := el.(*goast.KeyValueExpr); ok {
					f := v.FieldByName(kv.Key.(*goast.Ident).Name)
					f.Set(e.as(kv.Value, f.Type(), vars))
					continue
				}
				v.Field(i).Set(e.as(el, v.Field(i).Type(), vars))
			}
		default:
			panic(unsupported("literal of " + t.String()))
		}
		return v
	case *goast.CallExpr:
		if e.info.Types[x.Fun].IsType() {
			return e.eval(x.Args[0], vars).Convert(e.typ(e.info.Types[x.Fun].Type))
		}
		var fn reflect.Value
		switch f := x.Fun.(type) {
		case *goast.Ident:
			if len(x.Args) == 0 {
				return e.callFunc(f.Name)
			}
			panic(unsupported("call of " + f.Name))
		case *goast.SelectorExpr:
			if id, ok := f.X.(*goast.Ident); ok {
				if _, ok := e.info.Uses[id].(*types.PkgName); ok {
					fn = e.eval(f, vars)
					break
				}
			}
			recv := e.eval(f.X, vars)
			fn = recv.MethodByName(f.Sel.Name)
			if !fn.IsValid() {
				panic(unsupported("method " + f.Sel.Name))
			}
		default:
			panic(unsupported("call"))
		}
		ft := fn.Type()
		if x.Ellipsis.IsValid() || fn.Kind() != reflect.Func {
			panic(unsupported("call"))
		}
		var args []reflect.Value
		for i, a := range x.Args {
			at := ft.In(min(i, ft.NumIn()-1))
			if ft.IsVariadic() && i >= ft.NumIn()-1 {
				at = at.Elem()
			}
			args = append(args, e.as(a, at, vars))
		}
		return fn.Call(args)[0]
	}
	panic(unsupported(fmt.Sprintf("%T", x)))
}

func (e evaluator) as(x goast.Expr, t reflect.Type, vars map[types.Object]reflect.Value) reflect.Value {
	// Literals in slices and maps may leave their type out.
	if id, ok := x.(*goast.Ident); ok && id.Name == "nil" {
		return reflect.Zero(t)
	}
	v := e.eval(x, vars)
	if t.Kind() == reflect.Interface {
		out := reflect.New(t).Elem()
		out.Set(v)
		return out
	}
	if v.Type() != t {
		return v.Convert(t)
	}
	return v
}
