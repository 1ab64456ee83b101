package main

import (
	"fmt"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"

	"verif/mc/eng"
	. "verif/mc/gm"
	"verif/mc/im"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C14",
		Rule: "every term of at most n constructors over {literal, regex, rule, back-reference} x {?, *, {2,2}, name, lookahead, scope, sequence, choice, all delimited forms} on every input up to the length bound, " +
			"and the delimited, stack, back-reference and scope families of C02..C04 and C06: the AST made from each parse tree must equal, group by group, the one the model derives from its own tree",
		Assumptions: []string{"trees that differ from the model's are C01..C07's business and are skipped here", "the tree of a rule that is nothing but an external parser is that parser's, which may not be a tree of the grammar"},
		Gen:         genC14,
	})
	eng.Register(&eng.Check{
		ID: "C15",
		Rule: "the programs and inputs of C14 for which a model analysis finds that the tree can be read off the AST (wherever the number of elements of a repetition is open, some name tells them from what follows; no associative chains, structured back-references or external parsers): " +
			"the tree rebuilt from the AST must equal the original one, tags, alternatives, marks and offsets included",
		Assumptions: []string{"an AST groups nodes by name, so the order between differently named nodes is only recoverable through the grammar"},
		Gen:         genC15,
	})
}

func onTree(c *eng.Ctx, p parser.Parsers, g *Gram, rule, in string, te parser.TreeElement, n *N) {
	fail := func(format string, args ...any) {
		c.Fail(fmt.Sprintf("input %q", in), "%s from %s on %q: %s", g.Text(), rule, in, fmt.Sprintf(format, args...))
	}
	switch genMode {
	case "ast":
		var b ast.Branch
		if pv := eng.Try(func() { b = ast.FromParserNode(p.Grammar(), te) }); pv != nil {
			fail("making the AST of %s panics: %v", im.Show(te), pv)
			return
		}
		want := g.AST(rule, n)
		if d := im.DiffAST(b, want, in); d != "" {
			fail("%s\n  tree %s\n  got  %v\n  want %s", d, im.Show(te), b, want.Str(in))
			return
		}
		c.Outcome("ast-equal")
		checkSpan(c, fail, b, want, in)
	case "view", "use":
		var b ast.Branch
		if pv := eng.Try(func() { b = ast.FromParserNode(p.Grammar(), te) }); pv != nil {
			c.Outcome("no-ast")
			return
		}
		if genMode == "view" {
			viewAST(c, fmt.Sprintf("%s from %s on %q", g.Text(), rule, in), b)
		} else {
			useAST(c, fmt.Sprintf("%s from %s on %q", g.Text(), rule, in), b)
		}
	case "back":
		if !g.ReadableOnce() || n.HasStructuredRef() {
			c.Outcome("not-readable")
			return
		}
		var back parser.TreeElement
		if pv := eng.Try(func() { back = ast.ToParserNode(p.Grammar(), ast.FromParserNode(p.Grammar(), te)) }); pv != nil {
			fail("rebuilding %s from its AST panics: %v", im.Show(te), pv)
			return
		}
		if d := im.SameTree(te, back); d != "" {
			fail("rebuilt from the AST: %s", d)
			return
		}
		c.Outcome("rebuilt")
	}
}

func genC15(x *eng.Gen) {
	genMode = "back"
	genTrees(x, 4, 5)
}

// checkSpan checks that the text of an AST node runs from its first to its
// last leaf.
func checkSpan(c *eng.Ctx, fail func(string, ...any), n ast.Node, a *Ast, in string) {
	if b, ok := n.(ast.Branch); ok {
		var s parser.Scanner
		if pv := eng.Try(func() { s = b.Scanner() }); pv != nil {
			fail("Scanner() of %v panics: %v", b, pv)
			return
		}
		from, to := -1, -1
		a.Leaves(func(l *Ast) {
			if from < 0 || l.Off < from {
				from = l.Off
			}
			if l.Off+l.Len > to {
				to = l.Off + l.Len
			}
		})
		switch {
		case from < 0:
			if !s.IsNil() {
				fail("Scanner() of %v is %q, although there is no leaf", b, s.String())
			}
		case s.IsNil() || s.Offset() != from || s.String() != in[from:to]:
			fail("Scanner() of %v is not %d:%q", b, from, in[from:to])
		}
		for k, g := range a.B {
			if g.Many && k != "@choice" && k != "@empty" {
				if pv := eng.Try(func() { b[k].Scanner() }); pv != nil {
					fail("Scanner() of %q in %v panics: %v", k, b, pv)
				}
			}
			for i, kid := range g.L {
				switch c2 := b[k].(type) {
				case ast.One:
					checkSpan(c, fail, c2.Node, kid, in)
				case ast.Many:
					checkSpan(c, fail, c2[i], kid, in)
				}
			}
		}
	}
}

func astVocab() *Vocab {
	return &Vocab{
		Leaves: []*T{L("a"), R("[ab]"), Rf("r"), Rf("d"), Bk("n")},
		Unary: []func(*T) *T{
			Opt, Any, Lk,
			func(t *T) *T { return Q(t, 2, 2) },
			func(t *T) *T { return Q(t, 1, 1) },
			func(t *T) *T { return Nm("n", t) },
			func(t *T) *T { return Sc(t, G(Ru("r", S(L("b"), Opt(Rf("d")))))) },
		},
		Binary: []func(a, b *T) *T{
			func(a, b *T) *T { return S(a, b) },
			func(a, b *T) *T { return A(a, b) },
			func(a, b *T) *T { return D(a, b, 0) },
			func(a, b *T) *T { return DLT(a, b, 0, true, true) },
			func(a, b *T) *T { return D(a, b, 1) },
			func(a, b *T) *T { return DLT(a, b, -1, true, true) },
		},
	}
}

func genC14(x *eng.Gen) {
	genMode = "ast"
	genTrees(x, 4, 5)
	// What an external parser made is part of the AST.
	e := Ex("e")
	for i, t := range []*T{S(Rf("r")), S(L("a"), e), Any(e), S(Nm("n", e)), A(S(e, L("a")), e), D(e, L(","), 0), D(e, L(","), 1), Opt(e), S(e, L(","), e), S(Rf("r"), L(","), Rf("r")), Sc(Rf("r"), G(Ru("r", S(L("a"), e)))), S(Lk(e), e)} {
		t := t
		x.Case(func() string { return fmt.Sprintf("external %d: %s", i, t) }, func(c *eng.Ctx) {
			g := G(Ru("a", t), Ru("r", S(Opt(L("a")), e))).Prepare()
			g2 := G(Ru("z", S(L("b"), Any(Nm("k", A(R("[ab]"), Rf("y")))))), Ru("y", L("!"))).Prepare()
			p, ok := compile(c, g)
			if !ok {
				return
			}
			p2, ok := compile(c, g2)
			if !ok {
				return
			}
			cf := conform{
				exts: parser.ExternalRefs{"e": func(_ parser.Scope, in *parser.Scanner) (parser.TreeElement, error) {
					te, err := p2.Parse("z", in)
					if u, ok := err.(parser.UnconsumedInputError); ok {
						*in = *u.Residue()
						return ast.NewExtRefTreeElement(p2.Grammar(), u.Result()), nil
					}
					if err != nil {
						return nil, err
					}
					*in = *in.Skip(len(in.String()))
					return ast.NewExtRefTreeElement(p2.Grammar(), te), nil
				}},
				mexts: map[string]ExtFn{"e": func(m *M, _ *Env, pos int) Res {
					m2 := &M{Src: m.Src[pos:]}
					r := m2.Parse(g2, "z")
					if r.St != OK {
						return r
					}
					sub := g2.AST("z", r.N)
					sub.Leaves(func(l *Ast) { l.Off += pos })
					r.Pos += pos
					r.N = &N{Opaque: sub}
					return r
				}},
			}
			cf.run(c, p, g, Strings([]string{"a", "b", ",", "!"}, 5))
		})
	}
}

// genTrees enumerates programs and inputs whose trees are looked at.
func genTrees(x *eng.Gen, size, ilen int) {
	if x.Thorough {
		size, ilen = size+1, ilen+1
	}
	inputs := Strings([]string{"a", "b"}, ilen)
	all := astVocab().BySize(size)
	for n := 1; n <= size; n++ {
		for bi, batch := range batches(all[n], 16) {
			batch := batch
			x.Case(func() string { return fmt.Sprintf("terms of size %d batch %d: %s ...", n, bi, batch[0]) }, func(c *eng.Ctx) {
				for _, t := range batch {
					g := G(Ru("a", t), Ru("r", S(L("a"), Opt(Nm("k", L("b"))))), Ru("d", D(Nm("e", R("[ab]")), L("a"), 1))).Prepare()
					if LeftRecExact(g) || twoNames(t) {
						continue
					}
					p, ok := compile(c, g)
					if !ok {
						return
					}
					memo := !g.Has(func(t *T) bool { return t.Op == Back })
					conform{memo: memo}.run(c, p, g, inputs)
					c.Sample(func() string { return g.Text() })
				}
			})
		}
	}
	// Longer sequences, of members that share names.
	n := 4
	if x.Thorough {
		n = 5
	}
	inputs = Strings([]string{"a", "b"}, n+2)
	elems := []*T{L("a"), Rf("r"), Nm("n", Rf("r")), Any(S(Rf("r"), L("b"))), Some(S(Rf("r"), Rf("r"), L("b"))), Opt(S(Rf("r"), Nm("m", L("b")))), Q(A(Rf("r"), L("b")), 2, 3)}
	for bi, batch := range batches(flats(elems, n), 64) {
		batch := batch
		x.Case(func() string { return fmt.Sprintf("sequences batch %d: %s ...", bi, batch[0]) }, func(c *eng.Ctx) {
			for _, t := range batch {
				names := 0
				for _, k := range t.Kids {
					if k.Op == Named {
						names++
					}
				}
				if names > 1 {
					continue
				}
				g := G(Ru("a", t), Ru("r", L("a"))).Prepare()
				p, ok := compile(c, g)
				if !ok {
					return
				}
				conform{memo: true}.run(c, p, g, inputs)
			}
		})
	}
	genC02(x)
	genC03(x)
	genC04(x)
	genC06(x)
}
