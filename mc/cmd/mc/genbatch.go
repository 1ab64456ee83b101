package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	goast "go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/mc/genrun"
)

// genProg is a grammar whose generated code is built and run.
type genProg struct {
	text, start string
	inputs      []string
	loose       bool // separators without names occur
}

// separate gives the package-level names of a generated file a suffix, so that
// many files can be one package.
func separate(ck *checked, src, suffix string) string {
	var at []int
	mark := func(id *goast.Ident, o types.Object) {
		if o != nil && o.Pkg() == ck.pkg && o.Parent() == ck.pkg.Scope() {
			at = append(at, goFset.Position(id.Pos()).Offset+len(id.Name))
		}
	}
	for id, o := range ck.info.Defs {
		mark(id, o)
	}
	for id, o := range ck.info.Uses {
		mark(id, o)
	}
	sort.Ints(at)
	var sb strings.Builder
	from := 0
	for _, i := range at {
		sb.WriteString(src[from:i])
		sb.WriteString(suffix)
		from = i
	}
	sb.WriteString(src[from:])
	s := sb.String()
	name := goFset.Position(ck.file.Name.Pos()).Offset
	return s[:name] + "main" + s[name+len(ck.file.Name.Name):]
}

// runBatch builds the code generated for some grammars into one program, and
// runs it. Grammars without code that compiles are left out.
func runBatch(work string, progs []genProg) (results []genrun.Result, left map[int]string, err error) {
	mod := filepath.Join(os.Getenv("VERIF_ROOT"), "mc")
	dir := filepath.Join(work, "batch")
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, nil, err
	}
	if os.Getenv("MC_KEEP") == "" {
		defer os.RemoveAll(dir)
	}
	left = map[int]string{}
	overlay := map[string]string{}
	var entries bytes.Buffer
	virtual := filepath.Join(mod, "cmd", "genbatch")
	add := func(name, text string) error {
		f := filepath.Join(dir, name)
		overlay[filepath.Join(virtual, name)] = f
		return os.WriteFile(f, []byte(text), 0o644)
	}
	for i, p := range progs {
		src, err := genFile(dir, p.text, p.start)
		if err != nil {
			left[i] = err.Error()
			continue
		}
		ck, err := typecheck(src)
		if err != nil {
			left[i] = "the generated code doesn't compile: " + err.Error()
			continue
		}
		fn, _ := ck.pkg.Scope().Lookup("ParseString").(*types.Func)
		if fn == nil {
			left[i] = "there is no ParseString"
			continue
		}
		start := fn.Type().(*types.Signature).Results().At(0).Type().(*types.Named).Obj().Name()
		for _, n := range []string{"Parse", "New" + start, "WalkerOps", "NodeExiter", "Aborter", "Grammar"} {
			if ck.pkg.Scope().Lookup(n) == nil {
				left[i] = "there is no " + n
			}
		}
		if left[i] != "" {
			continue
		}
		sfx := fmt.Sprintf("_g%d", i)
		if err := add(fmt.Sprintf("g%d.go", i), separate(ck, src, sfx)); err != nil {
			return nil, nil, err
		}
		fmt.Fprintf(&entries, "{Index: %d, Text: %q, Start: %q, Inputs: %#v, Loose: %v,\nParseString: func(s string) (any, error) { return ParseString%s(s) },\nParse: func(s *parser.Scanner) (any, error) { return Parse%s(s) },\n"+
			"New: func(n ast.Node) any { return New%s%s(n) },\nOps: reflect.TypeOf(WalkerOps%s{}), Exiter: NodeExiter%s, Aborter: Aborter%s},\n", i, p.text, p.start, p.inputs, p.loose, sfx, sfx, start, sfx, sfx, sfx, sfx)
	}
	if err := add("main.go", "package main\n\nimport (\n\t\"reflect\"\n\n\t\"github.com/arr-ai/wbnf/ast\"\n\t\"github.com/arr-ai/wbnf/parser\"\n\t\"verif/mc/genrun\"\n)\n\nvar _ ast.Node\nvar _ *parser.Scanner\nvar _ reflect.Type\n\nfunc main() { genrun.Run([]genrun.Prog{\n"+entries.String()+"}) }\n"); err != nil {
		return nil, nil, err
	}
	ov, _ := json.Marshal(map[string]any{"Replace": overlay})
	if err := os.WriteFile(filepath.Join(dir, "overlay.json"), ov, 0o644); err != nil {
		return nil, nil, err
	}
	c := exec.Command("go", "build", "-buildvcs=false", "-gcflags=-l -N -dwarf=false", "-ldflags=-s -w", "-overlay", filepath.Join(dir, "overlay.json"), "-o", filepath.Join(dir, "batch"), "./cmd/genbatch")
	c.Dir = mod
	t0 := time.Now()
	if out, err := c.CombinedOutput(); err != nil {
		return nil, nil, fmt.Errorf("building: %v\n%s", err, head2(string(out)))
	}
	if os.Getenv("MC_TIMES") != "" {
		fmt.Fprintln(os.Stderr, "built", len(progs), time.Since(t0))
	}
	r := exec.Command(filepath.Join(dir, "batch"))
	var out, errs bytes.Buffer
	r.Stdout, r.Stderr = &out, &errs
	rerr := r.Run()
	dec := json.NewDecoder(&out)
	for dec.More() {
		var res genrun.Result
		if err := dec.Decode(&res); err != nil {
			return nil, nil, err
		}
		results = append(results, res)
	}
	if rerr != nil {
		return results, left, fmt.Errorf("after %d programs: %v\n%s", len(results), rerr, head2(errs.String()))
	}
	return results, left, nil
}

func head2(s string) string {
	if len(s) > 1500 {
		return s[:1500]
	}
	return s
}
