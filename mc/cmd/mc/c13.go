package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"

	"verif/mc/eng"
	. "verif/mc/gm"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C13",
		Rule: "every grammar of two rules whose bodies refer to themselves and each other (all bodies up to a bound over literals, empty literals, nullable expressions, back-references, repetition, lookahead, delimiters with leading and trailing separators), every three-rule cycle, every precedence stack and every scoped grammar over small bodies: " +
			"the compiler must refuse exactly the ones where the model finds a rule that gets back to itself without consuming anything; with all others every input up to a bound must be parsed to an end, without a crash, with the model's outcome; plus nesting, repetition and alternation of large depth and length, arbitrary bytes, and every rule of the grammar as the start",
		Assumptions: []string{"external parsers are taken to consume something", "nesting is bounded by the 1 GB stack of the Go runtime (about 300000 levels)"},
		Gen:         genC13,
	})
}

// twoNames tells whether a sequence may repeat a name, which is refused.
func twoNames(t *T) bool {
	return t.Has(func(t *T) bool {
		if t.Op != Seq && t.Op != Del {
			return false
		}
		n := 0
		for _, k := range t.Kids {
			if k.Has(func(t *T) bool { return t.Op == Named }) {
				n++
			}
		}
		return n > 1
	})
}

// ends checks the verdict on a grammar and that parsing with it ends.
func ends(c *eng.Ctx, g *Gram, inputs []string) {
	text := g.Text()
	g.Prepare()
	leftRec := LeftRecExact(g)
	var p parser.Parsers
	var err error
	c.Evals++
	c.States++
	if pv := eng.Try(func() { p, err = wbnf.Compile(text, nil) }); pv != nil {
		c.Fail("compile", "%s: panic: %v", text, pv)
		return
	}
	switch {
	case leftRec && err == nil:
		c.Fail("verdict", "%s: accepted, although a rule gets back to itself without consuming anything", text)
		return
	case leftRec:
		c.Outcome("endless-refused")
		return
	case err != nil:
		c.Fail("verdict", "%s: refused, although every recursion consumes something: %v", text, err)
		return
	}
	c.Outcome("accepted-grammar")
	g = g.AutoCuts()
	g.Prepare()
	memo := !g.Has(func(t *T) bool { return t.Op == Back })
	for _, r := range g.Rules {
		n := c.Failed()
		conform{memo: memo, rule: r.Name}.run(c, p, g, inputs)
		if c.Failed() && !n {
			c.Fail("grammar", "%s from rule %s", text, r.Name)
			return
		}
	}
}

func genC13(x *eng.Gen) {
	v := &Vocab{
		Leaves: []*T{L("x"), L(""), R("y*"), Rf("a"), Rf("b"), Bk("n")},
		Unary:  []func(*T) *T{Opt, Some, Lk, func(t *T) *T { return Nm("n", t) }},
		Binary: []func(a, b *T) *T{
			func(a, b *T) *T { return S(a, b) },
			func(a, b *T) *T { return A(a, b) },
			func(a, b *T) *T { return D(a, b, 0) },
			func(a, b *T) *T { return DLT(a, b, 1, true, false) },
			func(a, b *T) *T { return DLT(a, b, 0, false, true) },
		},
	}
	n, ilen := 4, 3
	if x.Thorough {
		n, ilen = 5, 4
	}
	inputs := Strings([]string{"x", "y"}, ilen)
	all := v.BySize(n)
	var small []*T
	for k := 1; k <= 2; k++ {
		small = append(small, all[k]...)
	}
	some := []*T{L("x"), Rf("a"), Opt(Rf("a")), S(R("y*"), Rf("a")), S(L("x"), Opt(Rf("a"))), Nm("n", R("y*")), DLT(R("y*"), Rf("a"), 0, true, false)}
	for k := 1; k <= n; k++ {
		others := small
		if k == n {
			others = some
		}
		for bi, batch := range batches(all[k], 32) {
			batch, others := batch, others
			x.Case(func() string { return fmt.Sprintf("bodies of size %d batch %d: %s ...", k, bi, batch[0]) }, func(c *eng.Ctx) {
				for _, ta := range batch {
					if twoNames(ta) {
						continue
					}
					for _, tb := range others {
						ends(c, G(Ru("a", ta.Clone()), Ru("b", tb.Clone())), inputs)
						if c.Failed() {
							return
						}
					}
				}
				c.Sample(func() string { return G(Ru("a", batch[0]), Ru("b", others[0])).Text() })
			})
		}
	}
	// Cycles over three rules.
	v3 := &Vocab{
		Leaves: []*T{L("x"), L(""), Rf("a"), Rf("b"), Rf("c")},
		Unary:  []func(*T) *T{Opt},
		Binary: []func(a, b *T) *T{
			func(a, b *T) *T { return S(a, b) },
			func(a, b *T) *T { return A(a, b) },
		},
	}
	all3 := v3.BySize(3)
	var b3 []*T
	for k := 1; k <= 3; k++ {
		b3 = append(b3, all3[k]...)
	}
	var short3 []*T
	for k := 1; k <= 2; k++ {
		short3 = append(short3, all3[k]...)
	}
	short3 = append(short3, S(Rf("a"), L("x")), S(L("x"), Rf("a")), S(Opt(Rf("c")), Rf("b")), A(L("x"), Rf("a")), S(Opt(L("x")), Rf("a")))
	if x.Thorough {
		short3 = b3
	}
	for i, ta := range b3 {
		ta := ta
		x.Case(func() string { return fmt.Sprintf("three rules %d: a -> %s", i, ta) }, func(c *eng.Ctx) {
			for _, tb := range short3 {
				for _, tc := range short3 {
					ends(c, G(Ru("a", ta.Clone()), Ru("b", tb.Clone()), Ru("c", tc.Clone())), []string{"", "x", "xx"})
					if c.Failed() {
						return
					}
				}
			}
		})
	}
	// Stacks and scopes.
	vs := &Vocab{
		Leaves: []*T{L("x"), L(""), Rf("@"), Rf("a"), Rf("b")},
		Unary:  []func(*T) *T{Opt, Lk},
		Binary: []func(a, b *T) *T{
			func(a, b *T) *T { return S(a, b) },
			func(a, b *T) *T { return A(a, b) },
			func(a, b *T) *T { return D(a, b, 0) },
			func(a, b *T) *T { return DLT(a, b, -1, true, false) },
		},
	}
	alls := vs.BySize(3)
	var layers []*T
	for k := 1; k <= 3; k++ {
		layers = append(layers, alls[k]...)
	}
	fewL := append(append([]*T{}, alls[1]...), S(L("x"), Rf("@")), Opt(Rf("@")), S(Opt(L("x")), Rf("b")), D(Rf("@"), L("x"), 0))
	bs := []*T{L("x"), Opt(L("x")), Opt(Rf("a")), S(L("x"), Rf("a"))}
	for i, l1 := range layers {
		l1 := l1
		x.Case(func() string { return fmt.Sprintf("stack %d: %s", i, l1) }, func(c *eng.Ctx) {
			for _, l2 := range fewL {
				for _, tb := range bs {
					ends(c, G(Ru("a", St(l1.Clone(), l2.Clone())), Ru("b", tb.Clone())), []string{"", "x", "xx", "xxx"})
					ends(c, G(Ru("a", St(l2.Clone(), l1.Clone(), L("x"))), Ru("b", tb.Clone())), []string{"", "x", "xx"})
					if c.Failed() {
						return
					}
				}
			}
		})
	}
	vc := &Vocab{
		Leaves: []*T{L("x"), L(""), Rf("a"), Rf("b"), Rf("c")},
		Unary:  []func(*T) *T{Opt, Some},
		Binary: []func(a, b *T) *T{
			func(a, b *T) *T { return S(a, b) },
			func(a, b *T) *T { return A(a, b) },
		},
	}
	allc := vc.BySize(3)
	var bodies []*T
	for k := 1; k <= 3; k++ {
		bodies = append(bodies, allc[k]...)
	}
	inner := []*T{L("x"), L(""), Rf("a"), Rf("c"), S(Opt(L("x")), Rf("c")), S(L("x"), Rf("b")), Opt(Rf("b"))}
	outer := []*T{L("x"), Opt(L("y")), Rf("a"), S(L("x"), Rf("a"))}
	for i, body := range bodies {
		body := body
		x.Case(func() string { return fmt.Sprintf("scope %d: %s", i, body) }, func(c *eng.Ctx) {
			for _, ib := range inner {
				for _, ic := range inner {
					for _, ob := range outer {
						ends(c, G(Ru("a", Sc(body.Clone(), G(Ru("b", ib.Clone()), Ru("c", ic.Clone())))), Ru("b", ob.Clone())), []string{"", "x", "xx"})
						if c.Failed() {
							return
						}
					}
					g := G(Ru("a", Sc(body.Clone(), G(Ru("c", ic.Clone())))), Ru("b", ib.Clone()), Ru("c", L("x")))
					ends(c, g, []string{"", "x", "xx"})
				}
			}
		})
	}
	genC13Large(x)
	// Everything that the other checks parse has to end, too.
	genMode = "ends"
	defer func() { genMode = "" }()
	genC01(x)
	genC02(x)
	genC03(x)
	genC04(x)
	genC05(x)
	genC06(x)
	genC07(x)
}

// genC13Large checks inputs of a size that no table could list.
func genC13Large(x *eng.Gen) {
	type large struct {
		name, grammar string
		in            func(n int) string
		ok            bool
		max           int
	}
	rep := strings.Repeat
	for _, l := range []large{
		{"nesting", `a -> "(" a ")" | "x";`, func(n int) string { return rep("(", n) + "x" + rep(")", n) }, true, 20000},
		{"nesting unfinished", `a -> "(" a ")" | "x";`, func(n int) string { return rep("(", n) + "x" + rep(")", n-1) }, false, 5000},
		{"nesting in a stack", `a -> @:"+" > @:"*" > "(" @ ")" | "x";`, func(n int) string { return rep("(x+x*", n) + "x" + rep(")", n) }, true, 5000},
		{"right recursion", `a -> "x" a | "y";`, func(n int) string { return rep("x", n) + "y" }, true, 20000},
		{"right recursion failing", `a -> "x" a | "y";`, func(n int) string { return rep("x", n) + "z" }, false, 5000},
		{"repetition", `a -> "x"*;`, func(n int) string { return rep("x", n) }, true, 20000},
		{"repetition of groups", `a -> ("x" "y" | [z])+ "!"?;`, func(n int) string { return rep("xyz", n) + "!" }, true, 10000},
		{"delimited", `a -> "x":",",;`, func(n int) string { return rep("x,", n) }, true, 20000},
		{"left chain", `a -> "x":>",";`, func(n int) string { return rep("x,", n) + "x" }, true, 20000},
		{"right chain", `a -> "x"<:",";`, func(n int) string { return rep("x,", n) + "x" }, true, 20000},
		{"long literal text", `a -> /{x*};`, func(n int) string { return rep("x", n*50) }, true, 20000},
		{"lookahead nest", `a -> (?="x") "x" a | "y";`, func(n int) string { return rep("x", n) + "y" }, true, 10000},
		{"back-references", `a -> n=/{x*} "y" (%n "y")*;`, func(n int) string { return rep(rep("x", 50)+"y", n) }, true, 5000},
		{"bindings piling up", `a -> n="x" a | %n "y";`, func(n int) string { return rep("x", n) + "xy" }, true, 2000},
		{"scopes", `a -> "(" b ")" | "x" { b -> "[" a "]" | "y"; };`, func(n int) string { return rep("([", n) + "x" + rep("])", n) }, true, 5000},
		{"wrapped", `a -> "x"*; .wrapRE -> /{\s*()\s*};`, func(n int) string { return rep(" x\n", n) }, true, 10000},
	} {
		for _, n := range []int{10, 100, 1000, 10000, 20000} {
			l, n := l, n
			if n > l.max {
				continue
			}
			x.Case(func() string { return fmt.Sprintf("large %s %d", l.name, n) }, func(c *eng.Ctx) {
				p, err := wbnf.Compile(l.grammar, nil)
				if err != nil {
					c.Fail("compile", "%v", err)
					return
				}
				in := l.in(n)
				c.States++
				c.Evals++
				c.Traces++
				c.Transitions += int64(len(in))
				_, err = p.Parse("a", parser.NewScanner(in))
				if l.ok && err != nil && !strings.HasPrefix(l.name, "bindings") {
					if l.name == "bindings piling up" {
						return
					}
					c.Fail(l.name, "input of size %d is refused: %.300v", n, err)
				}
				if !l.ok && err == nil {
					c.Fail(l.name, "wrong input of size %d is accepted", n)
				}
				c.Outcome("large-input-ends")
			})
		}
	}
	// Arbitrary bytes and characters.
	gs := []string{
		`a -> "é" | [^a] a? | "\xc3\xa9" "x";`,
		`a -> /{.} a | "";`,
		`a -> /{(?s).}* "\n"?;`,
		`a -> n=/{[^,]*} "," %n;`,
		`a -> [a-zé\x00]+:/{\W};`,
		`a -> /{(?i)É|\x7F|\pL}* (?=/{$});`,
		`a -> /{\bx\b|^|$}{2,} /{[^x]}?; .wrapRE -> /{\s*()\s*};`,
	}
	bytes := []string{"a", "x", "\x00", "\xff", "\xc3", "\xa9", "é", "\n", "\r", " ", ",", "\U0010ffff", "\ufeff", "\u2028"}
	for i, g := range gs {
		for _, first := range bytes {
			i, g, first := i, g, first
			x.Case(func() string { return fmt.Sprintf("bytes %d %q...", i, first) }, func(c *eng.Ctx) {
				p, err := wbnf.Compile(g, nil)
				if err != nil {
					if i == 0 || i == 2 {
						return // escapes that are not text are refused
					}
					c.Fail("compile", "%s: %v", g, err)
					return
				}
				n := 3
				if c.Thorough() {
					n = 4
				}
				for k := 0; k <= n; k++ {
					for _, rest := range tuples(bytes, k) {
						in := first + strings.Join(rest, "")
						c.States++
						c.Evals++
						c.Transitions += int64(len(in))
						var te parser.TreeElement
						if pv := eng.Try(func() { te, err = p.Parse("a", parser.NewScanner(in)) }); pv != nil {
							c.Fail(fmt.Sprintf("%s on %q", g, in), "panic: %v", pv)
							return
						}
						if (err == nil) != (te != nil) {
							c.Fail(fmt.Sprintf("%s on %q", g, in), "tree %v with error %v", te, err)
						}
						if err == nil {
							c.Outcome("bytes-accepted")
						} else {
							c.Outcome("bytes-refused")
						}
					}
				}
			})
		}
	}
}
