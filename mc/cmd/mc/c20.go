package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"

	"verif/mc/eng"
	"verif/mc/gm"
	"verif/mc/im"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C20",
		Rule: "for ~40 grammars that combine all features, every history of up to n operations out of ~18 (parsing each of several inputs, failing ones included; making ASTs, rebuilding trees, viewing, recompiling, reading and writing grammars, generating code, comparing, compiling other grammars): " +
			"every operation returns what it returns on a fresh grammar, and everything made so far (grammar, parsers, trees, ASTs, and the package variables), dumped with all unexported fields, stays as it was; " +
			"and for every program of C01, C02, C04 and C06 (one step smaller) parsing all inputs twice, in opposite orders, with everything kept and dumped before and after",
		Assumptions: []string{"functions, and state that has a lock of its own, are opaque to the dump; what they hold is seen only through what operations return"},
		Gen:         genC20,
	})
}

// globalsOf gives the variables of the packages under test (overlay builds).
var globalsOf func() map[string]any

// pure checks that parsing leaves the grammar and the parsers as they were, and
// depends on nothing that was parsed before.
func (cf conform) pure(c *eng.Ctx, p parser.Parsers, g *gm.Gram, rule string, inputs []string) {
	was := deep(p)
	type result struct {
		o     im.Outcome
		show  string
		dump  string
		ast   ast.Branch
		adump string
	}
	run := func(in string, withAST bool) (r result, ok bool) {
		pv := eng.Try(func() {
			r.o = im.Parse(p, rule, in, cf.exts)
			c.Evals++
			if r.o.Tree != nil {
				r.show = im.Show(r.o.Tree)
				r.dump = deep(r.o.Tree)
				if withAST && cf.exts == nil && cf.esc == nil {
					r.ast = ast.FromParserNode(p.Grammar(), r.o.Tree)
					r.adump = deep(r.ast)
					if r.o.Residue == nil && g.ReadableOnce() {
						ast.ToParserNode(p.Grammar(), r.ast)
					}
				}
			}
			if r.o.Residue != nil {
				r.show += fmt.Sprintf(" left %d:%q", r.o.Residue.Offset(), r.o.Residue.String())
			}
			if r.o.Err != nil && r.o.Tree == nil {
				r.show = "error"
			}
		})
		if pv != nil {
			c.Outcome("panics")
			return r, false
		}
		return r, true
	}
	first := make([]result, len(inputs))
	for i, in := range inputs {
		r, ok := run(in, true)
		if !ok {
			return
		}
		first[i] = r
	}
	for i := len(inputs) - 1; i >= 0; i-- {
		in := inputs[i]
		again, ok := run(in, false)
		if !ok {
			return
		}
		c.Traces++
		if again.show != first[i].show {
			c.Fail(fmt.Sprintf("input %q", in), "%s: %s the first time, %s the second time", g.Text(), first[i].show, again.show)
			return
		}
	}
	for i, in := range inputs {
		if first[i].o.Tree == nil {
			continue
		}
		if now := deep(first[i].o.Tree); now != first[i].dump {
			c.Fail(fmt.Sprintf("input %q", in), "%s: the tree changed later: %s", g.Text(), firstDiff(first[i].dump, now))
			return
		}
		if first[i].ast != nil {
			if now := deep(first[i].ast); now != first[i].adump {
				c.Fail(fmt.Sprintf("input %q", in), "%s: the AST changed later: %s", g.Text(), firstDiff(first[i].adump, now))
				return
			}
		}
	}
	c.States += int64(len(inputs))
	c.Transitions += int64(2 * len(inputs))
	if now := deep(p); now != was {
		c.Fail("grammar", "%s: parsing changed the parsers: %s", g.Text(), firstDiff(was, now))
	}
	c.Outcome("grammar-unchanged")
}

func genC20(x *eng.Gen) {
	n := 2
	if x.Thorough {
		n = 3
	}
	for i := range richList {
		r := &richList[i]
		ops := worldOps(r)
		for first := range ops {
			first := first
			x.Case(func() string { return fmt.Sprintf("%s: histories that begin with %s", r.name, ops[first].name) }, func(c *eng.Ctx) {
				histories(c, r, ops, first, n)
			})
		}
	}
	x.KCase("refused grammars", func(c *eng.Ctx) {
		before := globals()
		for round := 0; round < 2; round++ {
			for _, a := range badList {
				_, e1 := wbnf.Compile(a, nil)
				for _, b := range badList {
					_, _ = wbnf.Compile(b, nil)
					_, e2 := wbnf.Compile(a, nil)
					c.Evals++
					if fmt.Sprint(e1) != fmt.Sprint(e2) {
						c.Fail(a, "%v became %v", e1, e2)
					}
				}
			}
		}
		if now := globals(); now != before {
			c.Fail("globals", "package variables changed: %s", firstDiff(before, now))
		}
	})
	genMode = "pure"
	genC01(x)
	genC02(x)
	genC04(x)
	genC06(x)
}

func globals() string {
	if globalsOf == nil {
		panic("not an instrumented build")
	}
	all := globalsOf()
	for pkg, m := range all {
		for _, ptr := range m.(map[string]any) {
			if synchronized(reflect.TypeOf(ptr).Elem()) {
				// There is a lock: this package keeps something on purpose.
				delete(all, pkg)
				break
			}
		}
	}
	return deep(all)
}

// histories runs every history of up to n operations with a given first one.
func histories(c *eng.Ctx, r *rich, ops []op, first, n int) {
	if err := r.write(c.Work); err != nil {
		panic(err)
	}
	fresh := func() *world {
		w, err := newWorld(r, c.Work)
		if err != nil {
			c.Fail("compile", "%v", err)
			return nil
		}
		return w
	}
	want := make([]string, len(ops))
	for i, o := range ops {
		w := fresh()
		if w == nil {
			return
		}
		if pv := eng.Try(func() { want[i] = o.run(w) }); pv != nil {
			want[i] = "panic"
			c.Outcome("panics: " + o.name)
		}
	}
	before := globals()
	var walk func(done []int)
	walk = func(done []int) {
		if len(done) < n {
			for i := range ops {
				walk(append(done[:len(done):len(done)], i))
			}
			return
		}
		if c.Failed() {
			return
		}
		w := fresh()
		if w == nil {
			return
		}
		c.Evals++
		var names []string
		for _, i := range done {
			names = append(names, ops[i].name)
			var got string
			if pv := eng.Try(func() { got = ops[i].run(w) }); pv != nil {
				got = "panic"
			}
			c.Transitions++
			if got != want[i] {
				c.Fail(strings.Join(names, ", then "), "result differs from that on a fresh grammar: %s", firstDiff(want[i], got))
				return
			}
			if d := w.changed(); d != "" {
				c.Fail(strings.Join(names, ", then "), "%s", d)
				return
			}
			c.States++
		}
		c.Traces++
		c.Outcome("history")
	}
	walk([]int{first})
	if now := globals(); now != before {
		c.Fail("globals", "package variables changed: %s", firstDiff(before, now))
	}
}
