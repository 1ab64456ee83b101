package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"

	"verif/mc/eng"
	"verif/mc/gm"
	"verif/mc/im"
	"verif/mc/vsched"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C21",
		Rule: "the sources are rewritten so that every walk over a Go map takes its elements in an order that the explorer chooses; all executions that leave the sorted order in at most d choices are run, and those that leave the reverse order in at most d-1 choices (quick) or d (thorough): " +
			"for ~40 grammars that combine all features, compiling and ~18 operations each; for ~20 grammars that are refused; and for every program of C01..C04 and C06 (one step smaller) compiling it, parsing, making the AST and rebuilding the tree: " +
			"what comes out (grammars, trees, ASTs, error texts, generated code, views, differences) must be the same in every execution",
		Assumptions: []string{"walks of maps inside dependencies (frozen, the standard library) are not taken over"},
		Gen:         genC21,
	})
}

// orders runs f under every choice of map orders that leaves a base order at
// most d times, and reports the first two executions that differ.
func orders(c *eng.Ctx, d int, f func() string) (a, b string, same bool) {
	defer func() { vsched.Order, vsched.Added = nil, nil }()
	want := ""
	have := false
	var bad string
	var trace []int
	run := func(last bool, dev map[int]int) string {
		trace = trace[:0]
		choose := func(n int) int {
			i := len(trace)
			trace = append(trace, n)
			v := 0
			if last {
				v = n - 1
			}
			if w, has := dev[i]; has {
				v = (v + w) % n
			}
			return v
		}
		vsched.Order = choose
		vsched.Added = func() bool { return choose(2) == 1 }
		var out string
		if pv := eng.Try(func() { out = f() }); pv != nil {
			out = "panic: " + strings.SplitN(fmt.Sprint(pv), "\n", 2)[0]
		}
		vsched.Order, vsched.Added = nil, nil
		c.Evals++
		c.Traces++
		c.States += int64(len(trace))
		return out
	}
	var explore func(last bool, dev map[int]int, from, left int) bool
	explore = func(last bool, dev map[int]int, from, left int) bool {
		got := run(last, dev)
		if !have {
			want, have = got, true
		} else if got != want {
			bad = got
			return false
		}
		if left == 0 {
			return true
		}
		ns := append([]int{}, trace...)
		for i := from; i < len(ns); i++ {
			for w := 1; w < ns[i]; w++ {
				c.Transitions++
				next := map[int]int{i: w}
				for k, v := range dev {
					next[k] = v
				}
				if !explore(last, next, i+1, left-1) {
					return false
				}
			}
		}
		return true
	}
	for _, last := range []bool{false, true} {
		if last && !c.Thorough() {
			d = 0
		}
		if !explore(last, map[int]int{}, 0, d) {
			return want, bad, false
		}
	}
	return "", "", true
}

func showParse(p parser.Parsers, rule, in string, exts parser.ExternalRefs) (parser.TreeElement, string) {
	o := im.Parse(p, rule, in, exts)
	switch {
	case o.Rejected && genMode != "" && len(in) > 0:
		return nil, "error"
	case o.Rejected:
		return nil, "error: " + o.Err.Error()
	case o.Residue != nil:
		return o.Tree, fmt.Sprintf("%s left %d:%q %v", im.Show(o.Tree), o.Residue.Offset(), o.Residue.String(), o.Err)
	}
	return o.Tree, im.Show(o.Tree)
}

// ordersOf checks a program of the other checks.
func (cf conform) ordersOf(c *eng.Ctx, g *gm.Gram, rule string, inputs []string) {
	if cf.esc != nil || cf.exts != nil {
		return
	}
	n := 2
	if c.Thorough() {
		n = 3
	}
	var short []string
	for _, in := range inputs {
		if len(in) <= n {
			short = append(short, in)
		}
	}
	back := g.ReadableOnce()
	a, b, same := orders(c, 1, func() string {
		p := im.Grammar(g).Compile(nil)
		var sb strings.Builder
		for _, in := range short {
			_, show := showParse(p, rule, in, cf.exts)
			sb.WriteString(show)
		}
		return sb.String()
	})
	p := im.Grammar(g).Compile(nil)
	for _, in := range short {
		te, show := showParse(p, rule, in, cf.exts)
		if te == nil || !same {
			continue
		}
		a, b, same = orders(c, 1, func() string {
			b := ast.FromParserNode(p.Grammar(), te)
			out := showNode(b) + b.String()
			if back && !strings.Contains(show, " left ") {
				out += im.Show(ast.ToParserNode(p.Grammar(), b))
			}
			return out
		})
	}
	if !same {
		c.Fail("order", "%s: depends on the order of a map walk: %s", g.Text(), firstDiff(a, b))
		return
	}
	c.Outcome("same-in-all-orders")
}

func genC21(x *eng.Gen) {
	d := 1
	if x.Thorough {
		d = 2
	}
	for i := range richList {
		r := &richList[i]
		x.KCase(r.name+": compile", func(c *eng.Ctx) {
			d := d
			if len(r.text) > 1500 {
				d--
			}
			if err := r.write(c.Work); err != nil {
				panic(err)
			}
			walks := vsched.Walks
			a, b, same := orders(c, d, func() string {
				p, err := r.compile(c.Work)
				if err != nil {
					return "refused: " + err.Error()
				}
				var sb strings.Builder
				sb.WriteString(showGrammar(p.Grammar()))
				sb.WriteString(showNode(p.Node().(wbnf.GrammarNode).Node))
				for _, in := range r.inputs {
					_, show := showParse(p, r.rule, in, worldExts)
					sb.WriteString(show)
				}
				return sb.String()
			})
			if !same {
				c.Fail("compile", "%s", firstDiff(a, b))
			}
			if vsched.Walks == walks {
				panic("not an instrumented build")
			}
			c.Outcome("compile")
		})
		for _, o := range worldOps(r) {
			o := o
			if i > 0 && strings.HasPrefix(o.name, "compile a") && o.name != "compile the grammar again" {
				continue // they do not depend on the grammar
			}
			x.KCase(r.name+": "+o.name, func(c *eng.Ctx) {
				if err := r.write(c.Work); err != nil {
					panic(err)
				}
				w, err := newWorld(r, c.Work)
				if err != nil {
					c.Fail("compile", "%v", err)
					return
				}
				a, b, same := orders(c, d, func() string {
					w.kept = nil
					return o.run(w)
				})
				if !same {
					c.Fail(o.name, "%s", firstDiff(a, b))
				}
				c.Outcome("operation")
			})
		}
	}
	for i, bad := range badList {
		bad := bad
		x.KCase(fmt.Sprintf("bad %d: %s", i, bad), func(c *eng.Ctx) {
			a, b, same := orders(c, d, func() string {
				_, err := wbnf.Compile(bad, nil)
				return fmt.Sprint(err)
			})
			if !same {
				c.Fail("compile", "%s", firstDiff(a, b))
			}
			c.Outcome("refusal")
		})
	}
	genMode = "orders"
	size := 3
	if x.Thorough {
		size = 4
	}
	inputs := gm.Strings([]string{"a", "b"}, 3)
	all := astVocab().BySize(size)
	for n := 1; n <= size; n++ {
		for bi, batch := range batches(all[n], 16) {
			batch := batch
			x.Case(func() string { return fmt.Sprintf("terms of size %d batch %d: %s ...", n, bi, batch[0]) }, func(c *eng.Ctx) {
				for _, t := range batch {
					g := gm.G(gm.Ru("a", t), gm.Ru("r", gm.S(gm.L("a"), gm.Opt(gm.Nm("k", gm.L("b"))))), gm.Ru("d", gm.D(gm.Nm("e", gm.R("[ab]")), gm.L("a"), 1))).Prepare()
					if gm.LeftRecExact(g) || twoNames(t) {
						continue
					}
					conform{}.ordersOf(c, g, "a", inputs)
				}
			})
		}
	}
	genC02(x)
	genC03(x)
	genC04(x)
	genC06(x)
}
