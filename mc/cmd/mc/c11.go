package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"

	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C11",
		Rule: "every import graph over a main grammar and 3 files (4 thorough), self-imports and cycles included, in 3 directory layouts with 3 spellings of the paths and imports before, after or between the rules; every single file of every such graph over 2 files missing, a directory, malformed or containing an invalid rule; " +
			"macros, wrap rules and rule references across files: without cycles and repeated inclusion the result must be exactly the grammar of the texts put together; with repeated inclusion or cycles compiling must end with either an error or exactly that grammar; with a broken file reached it must be an error, with one not reached it must not matter",
		Assumptions: []string{"the resolver joins the path to the directory of the importing file, as the interface documents; the command line's resolver is decided in C24"},
		Gen:         genC11,
	})
}

type dirResolver struct {
	base  string
	calls int
}

func (r *dirResolver) Resolve(from, path string) string {
	r.calls++
	if from == "" {
		return filepath.Join(r.base, path)
	}
	return filepath.Join(filepath.Dir(from), path)
}

type importGraph struct {
	n     int // files besides main, which is 0
	edges int // bit i*n+j: file i imports file j+1
}

func (g importGraph) has(i, j int) bool { return g.edges>>(i*g.n+j-1)&1 == 1 }

// inclusions counts how often each file is included; -1 when a cycle is reachable.
func (g importGraph) inclusions() []int {
	count := make([]int, g.n+1)
	cyc := false
	var visit func(i int, path int)
	visit = func(i, path int) {
		if path>>i&1 == 1 {
			cyc = true
			return
		}
		count[i]++
		for j := 1; j <= g.n; j++ {
			if g.has(i, j) && !cyc {
				visit(j, path|1<<i)
			}
		}
	}
	visit(0, 0)
	if cyc {
		return nil
	}
	return count
}

func (g importGraph) reachable() []bool {
	seen := make([]bool, g.n+1)
	var visit func(i int)
	visit = func(i int) {
		if !seen[i] {
			seen[i] = true
			for j := 1; j <= g.n; j++ {
				if g.has(i, j) {
					visit(j)
				}
			}
		}
	}
	visit(0)
	return seen
}

func (g importGraph) String() string {
	var out []string
	for i := 0; i <= g.n; i++ {
		for j := 1; j <= g.n; j++ {
			if g.has(i, j) {
				out = append(out, fmt.Sprintf("%d>%d", i, j))
			}
		}
	}
	return strings.Join(out, " ")
}

var importLayouts = [][]string{
	{".", ".", ".", ".", "."},
	{".", "d", ".", "d/e", "d"},
	{"q/r", "q", "q/r/s", "t", "q/t"},
}

func importPath(from, to string, file int, spelling int) string {
	rel, err := filepath.Rel(from, to)
	if err != nil {
		panic(err)
	}
	p := fmt.Sprintf("f%d.wbnf", file)
	if rel != "." {
		p = rel + "/" + p
	}
	switch spelling {
	case 1:
		p = "./" + p
	case 2:
		up := "../" + filepath.Base("/x/"+from)
		if from == "." {
			p = "./././" + p
		} else {
			p = up + "/" + p
		}
	}
	return p
}

// importText is the text of file i. Rules refer to each other's rules
// where they are imported.
func (g importGraph) text(i, layout, spelling, place int) string {
	var imps []string
	lay := importLayouts[layout]
	for j := 1; j <= g.n; j++ {
		if g.has(i, j) {
			imp := ".import " + importPath(lay[i], lay[j], j, spelling)
			if (i+j)%2 == 0 || place == 2 {
				imp += ";"
			}
			imps = append(imps, imp)
		}
	}
	rules := []string{fmt.Sprintf("r%d -> %q;", i, string(rune('a'+i))), fmt.Sprintf("s%d -> r%d \"s\" r%d*;", i, i, i)}
	for j := 1; j <= g.n; j++ {
		if g.has(i, j) {
			rules = append(rules, fmt.Sprintf("t%d_%d -> s%d \"t\";", i, j, j))
		}
	}
	switch place {
	case 0:
		return strings.Join(imps, "\n") + "\n" + strings.Join(rules, "\n")
	case 1:
		return strings.Join(rules, "\n") + "\n" + strings.Join(imps, "\n")
	}
	// .import takes as much as looks like a path, so put rules between.
	var out []string
	for k := 0; k < len(imps) || k < len(rules); k++ {
		if k < len(rules) {
			out = append(out, rules[k])
		}
		if k < len(imps) {
			out = append(out, imps[k])
		}
	}
	return strings.Join(out, "\n")
}

func genC11(x *eng.Gen) {
	n := 3
	if x.Thorough {
		n = 4
	}
	total := 1 << (n*n + n)
	chunk := 64
	if x.Thorough {
		chunk = 2048
	}
	for lay := range importLayouts {
		for from := 0; from < total; from += chunk {
			lay, from := lay, from
			x.Case(func() string { return fmt.Sprintf("layout %d graphs %d..", lay, from) }, func(c *eng.Ctx) {
				for e := from; e < from+chunk; e++ {
					g := importGraph{n, e}
					if x.Thorough && e%3 != lay {
						continue // one layout per graph
					}
					for v := 0; v < 3; v++ {
						if (x.Thorough || n > 2) && v != (e+lay)%3 {
							continue
						}
						g.check(c, lay, v, (v+e/7)%3, 0, "")
					}
				}
				c.Sample(func() string {
					g := importGraph{n, from + chunk - 1}
					return g.String() + ": " + g.text(0, lay, 1, 0)
				})
			})
		}
	}
	for e := 0; e < 1<<6; e++ {
		e := e
		x.Case(func() string { return fmt.Sprintf("broken files in graph %d", e) }, func(c *eng.Ctx) {
			g := importGraph{2, e}
			for lay := range importLayouts {
				for v := 0; v < 3; v++ {
					for place := 0; place < 3; place++ {
						g.check(c, lay, v, place, 0, "")
						for f := 1; f <= 2; f++ {
							for _, how := range []string{"missing", "directory", "malformed", "empty", "unknown rule", "bad import", "duplicate of main"} {
								g.check(c, lay, v, place, f, how)
							}
						}
					}
				}
			}
		})
	}
	x.KCase("contents", func(c *eng.Ctx) { importContents(c) })
}

func (g importGraph) check(c *eng.Ctx, lay, spelling, place, broken int, how string) {
	dir, err := os.MkdirTemp(c.Work, "imp")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	what := fmt.Sprintf("imports {%s} layout %d spelling %d place %d", g, lay, spelling, place)
	if broken > 0 {
		what += fmt.Sprintf(" file %d %s", broken, how)
	}
	for _, d := range importLayouts[lay] {
		os.MkdirAll(filepath.Join(dir, d), 0o755)
	}
	base := filepath.Join(dir, importLayouts[lay][0])
	for i := 1; i <= g.n; i++ {
		name := filepath.Join(dir, importLayouts[lay][i], fmt.Sprintf("f%d.wbnf", i))
		text := g.text(i, lay, spelling, place)
		if i == broken {
			switch how {
			case "missing":
				continue
			case "directory":
				os.MkdirAll(name, 0o755)
				continue
			case "malformed":
				text += " x ->"
			case "empty":
				text = ""
			case "unknown rule":
				text += " x -> nowhere;"
			case "bad import":
				text = ".import no/such/file.wbnf\n" + text
			case "duplicate of main":
				text += " r0 -> \"dup\";"
			}
		}
		if err := os.WriteFile(name, []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	c.States++
	c.Evals++
	r := &dirResolver{base: base}
	var p parser.Parsers
	if pv := eng.Try(func() { p, err = wbnf.Compile(g.text(0, lay, spelling, place), r) }); pv != nil {
		c.Fail(what, "compiling panics: %v", pv)
		return
	}
	c.Transitions += int64(r.calls)
	reach := g.reachable()
	inc := g.inclusions()
	if broken > 0 && reach[broken] {
		if err == nil {
			c.Fail(what, "accepted")
		} else {
			c.Outcome("broken-file-reported")
		}
		return
	}
	repeated := inc == nil
	for i := range inc {
		repeated = repeated || inc[i] > 1
	}
	if err != nil {
		if !repeated {
			c.Fail(what, "refused: %v", err)
		} else {
			c.Outcome("repeated-inclusion-reported")
		}
		return
	}
	bare := importGraph{g.n, 0}
	var texts []string
	for i := 0; i <= g.n; i++ {
		if reach[i] {
			t := bare.text(i, lay, spelling, place)
			for j := 1; j <= g.n; j++ {
				if g.has(i, j) {
					t += fmt.Sprintf(" t%d_%d -> s%d \"t\";", i, j, j)
				}
			}
			texts = append(texts, t)
		}
	}
	c.Traces++
	want, err := wbnf.Compile(strings.Join(texts, "\n"), nil)
	if err != nil {
		panic(err)
	}
	if d := sameGrammar(p.Grammar(), want.Grammar()); d != "" {
		c.Fail(what, "the result is not the grammar of the files together: %s", d)
		return
	}
	if repeated {
		c.Outcome("included-once")
	} else {
		c.Outcome("merged")
	}
	for i := 1; i <= g.n; i++ {
		if reach[i] {
			in := string(rune('a'+i)) + "s" + string(rune('a'+i))
			if _, err := p.Parse(parser.Rule(fmt.Sprintf("s%d", i)), parser.NewScanner(in)); err != nil {
				c.Fail(what, "imported rule s%d does not parse %q: %v", i, in, err)
			}
		}
	}
}

func sameGrammar(a, b parser.Grammar) string {
	if reflect.DeepEqual(a, b) {
		return ""
	}
	var names []string
	for n := range a {
		names = append(names, string(n))
	}
	for n := range b {
		if _, has := a[n]; !has {
			names = append(names, string(n))
		}
	}
	sort.Strings(names)
	for _, n := range names {
		x, y := a[parser.Rule(n)], b[parser.Rule(n)]
		if !reflect.DeepEqual(x, y) {
			return fmt.Sprintf("rule %s is %v, want %v", n, x, y)
		}
	}
	return "grammars differ"
}

// importContents puts the parts of one grammar into different files in every
// way: wherever the parts are, the result is the same.
func importContents(c *eng.Ctx) {
	parts := []string{
		`a -> b:"," c;`,
		`b -> %!M("x");`,
		`.macro M(p) { p n=[yz] %n? }`,
		`c -> k { k -> "k" b; };`,
		`.wrapRE -> /{\s*()\s*};`,
		`d -> @:"+" > @:"*" > b;`,
	}
	want, err := wbnf.Compile(strings.Join(parts, "\n"), nil)
	if err != nil {
		panic(err)
	}
	// file of each part: 0 main, 1, 2; main imports 1, 1 or main imports 2
	n := 1
	for range parts {
		n *= 3
	}
	for k := 0; k < n; k++ {
		for chain := 0; chain < 2; chain++ {
			dir, err := os.MkdirTemp(c.Work, "imp")
			if err != nil {
				panic(err)
			}
			texts := []string{".import f1.wbnf\n", "", ""}
			texts[chain] += ".import f2.wbnf\n"
			used := [3]bool{}
			for i, v := 0, k; i < len(parts); i, v = i+1, v/3 {
				texts[v%3] += parts[i] + "\n"
				used[v%3] = true
			}
			for i := range texts {
				if !used[i] {
					texts[i] += fmt.Sprintf("only%d -> \"o%d\";", i, i)
				}
			}
			for i := 1; i < 3; i++ {
				os.WriteFile(filepath.Join(dir, fmt.Sprintf("f%d.wbnf", i)), []byte(texts[i]), 0o644)
			}
			c.States++
			c.Evals++
			c.Traces++
			what := fmt.Sprintf("parts %d chain %d: %q", k, chain, texts)
			var p parser.Parsers
			if pv := eng.Try(func() { p, err = wbnf.Compile(texts[0], &dirResolver{base: dir}) }); pv != nil {
				c.Fail(what, "panics: %v", pv)
			} else if err != nil {
				c.Fail(what, "refused: %v", err)
			} else {
				got := parser.Grammar{}
				for r, t := range p.Grammar() {
					if !strings.HasPrefix(string(r), "only") {
						got[r] = t
					}
				}
				if d := sameGrammar(got, want.Grammar()); d != "" {
					c.Fail(what, "differs from the same text in one file: %s", d)
				} else {
					c.Outcome("split-over-files")
				}
				for in, ok := range map[string]bool{" xyy, xz k xyy": true, "xy,k": false} {
					_, err := p.Parse("a", parser.NewScanner(in))
					if (err == nil) != ok {
						c.Fail(what, "parsing %q: %v", in, err)
					}
				}
			}
			os.RemoveAll(dir)
		}
	}
}
