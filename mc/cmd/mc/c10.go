package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"

	"verif/mc/eng"
	. "verif/mc/gm"
	"verif/mc/im"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C10",
		Rule: "every macro body of at most n constructors over the whole grammar vocabulary including its two parameters, called with every pair of 12 argument terms; every chain of three macros over 8 bodies each with swapped, repeated and nested arguments; " +
			"calls in 16 contexts x 12 bodies x 12 arguments x 3 places of the definition, inside scoped grammars and other macros' arguments: the grammar that results must equal the one with the body written out, term by term, and (for 700 of the combinations) parse every string over {a,b,c} up to length 4 (5) alike; " +
			"wrong arity, unknown and self-expanding macros must be reported",
		Assumptions: []string{"parameter names differ from rule and name identifiers of the body (the compiler demands the first)"},
		Gen:         genC10,
	})
}

func macroText(ms []Macro, g *Gram, place int) string {
	var defs []string
	for _, m := range ms {
		defs = append(defs, m.Text())
	}
	d := strings.Join(defs, " ")
	switch place {
	case 0:
		return d + " " + g.Text()
	case 1:
		return g.Text() + " " + d
	}
	first := &Gram{Rules: g.Rules[:1]}
	rest := &Gram{Rules: g.Rules[1:], Wrap: g.Wrap}
	return first.Text() + " " + strings.Join(defs, "; ") + "; " + rest.Text()
}

func genC10(x *eng.Gen) {
	n := 3
	if x.Thorough {
		n = 4
	}
	slen := 4
	if x.Thorough {
		slen = 5
	}
	p, q := Rf("p"), Rf("q")
	inner := func(t *T) *T { return Sc(t, G(Ru("k", S(L("x"), Rf("p"))), Ru("m", Any(Rf("q"))))) }
	v := &Vocab{
		Leaves: []*T{L("x"), R("[ab]"), Rf("r"), p, q, Rf("@"), BkDef("n", "x"), Ex("e"), S()},
		Unary: []func(*T) *T{
			Opt, Any, func(t *T) *T { return Q(t, 2, 3) },
			func(t *T) *T { return Nm("n", t) }, Lk, inner,
		},
		Binary: []func(a, b *T) *T{
			func(a, b *T) *T { return S(a, b) },
			func(a, b *T) *T { return A(a, b) },
			func(a, b *T) *T { return St(a, b) },
			func(a, b *T) *T { return D(a, b, 1) },
			func(a, b *T) *T { return DLT(a, b, -1, true, true) },
		},
	}
	args := []*T{
		L("y"), R("[cd]"), Rf("s"), Rf("pp"), S(L("y"), Rf("s")), A(L("y"), R("z+")), Opt(L("y")), D(Rf("s"), L(","), -1),
		Nm("m", L("y")), Lk(Rf("s")), S(), Sc(Rf("k"), G(Ru("k", L("y")), Ru("z", Rf("k")))),
	}
	mentions := func(t *T) bool { return t.Has(func(t *T) bool { return t.Op == Ref && (t.S == "p" || t.S == "q") }) }
	all := v.BySize(n)
	for k := 1; k <= n; k++ {
		for bi, body := range batches(all[k], 8) {
			body := body
			x.Case(func() string { return fmt.Sprintf("bodies of size %d batch %d: %s ...", k, bi, body[0]) }, func(c *eng.Ctx) {
				for ai, a := range args {
					var ms []Macro
					g := &Gram{}
					for i, b := range body {
						if !mentions(b) && b.Size() > 1 {
							continue
						}
						ms = append(ms, Macro{fmt.Sprintf("M%d", i), []string{"p", "q"}, b})
						for bj, b2 := range args {
							if k == n && !x.Thorough && (ai+bj)%3 != 0 {
								continue
							}
							g.Rules = append(g.Rules, Ru(fmt.Sprintf("r%d_%d", i, bj), Mc(fmt.Sprintf("M%d", i), a, b2)))
						}
					}
					if len(ms) == 0 {
						continue
					}
					if reads(c, macroText(ms, g, ai%2), im.Grammar(g.ExpandMacros(ms))) {
						c.OutcomeN("call", int64(len(g.Rules)))
					}
				}
				c.Sample(func() string { return Macro{"M", []string{"p", "q"}, body[0]}.Text() })
			})
		}
	}

	// Contexts of the call, and places of the definition.
	bodies := []*T{
		p, S(p, p), S(p, q, p), A(p, q), Any(S(q, p)), D(p, q, 0), Nm("n", p), S(Lk(p), q), Opt(p), S(L("a"), p),
		Sc(S(Rf("k"), q), G(Ru("k", A(p, q)))), S(Nm("n", p), Bk("n"), q),
	}
	ctxs := []func(*T) *T{
		func(t *T) *T { return t },
		func(t *T) *T { return S(t, L("c")) },
		func(t *T) *T { return S(L("c"), t) },
		func(t *T) *T { return A(t, L("c")) },
		func(t *T) *T { return A(L("c"), t) },
		Opt, Any, func(t *T) *T { return Q(t, 1, 2) },
		func(t *T) *T { return Nm("w", t) },
		func(t *T) *T { return D(t, L("c"), 0) },
		func(t *T) *T { return D(R("[ab]"), t, 0) },
		func(t *T) *T { return S(Lk(t), Any(R("[abc]"))) },
		func(t *T) *T { return St(D(Rf("@"), L("c"), 0), t) },
		func(t *T) *T { return St(D(Rf("@"), t, 1), R("[ab]")) },
		func(t *T) *T { return Sc(Rf("h"), G(Ru("h", S(t, Opt(L("c")))))) },
		func(t *T) *T { return Sc(S(t, Rf("h")), G(Ru("h", Any(L("c"))))) },
	}
	cargs := []*T{L("a"), R("[ab]"), Rf("s"), S(L("a"), Rf("s")), A(L("b"), L("ab")), Opt(L("b")), D(L("b"), L("c"), 0), Nm("m", R("[bc]")), Some(Rf("s")), S(), Lk(L("b")), Mc("N", L("b"))}
	inputs := Strings([]string{"a", "b", "c"}, slen)
	for bi, body := range bodies {
		for ci, ctx := range ctxs {
			body, ctx := body, ctx
			x.Case(func() string { return fmt.Sprintf("body %d context %d: %s", bi, ci, ctx(Mc("M", p, q))) }, func(c *eng.Ctx) {
				ms := []Macro{{"M", []string{"p", "q"}, body}, {"N", []string{"u"}, S(Rf("u"), Opt(Rf("u")))}}
				for ai, a := range cargs {
					for bj, b := range cargs {
						for place := 0; place < 3; place++ {
							g := G(Ru("a", ctx(Mc("M", a, b))), Ru("s", R("[bc]")))
							text := macroText(ms, g, place)
							want := g.ExpandMacros(ms)
							if !reads(c, text, im.Grammar(want)) {
								continue
							}
							if place != 0 || (ai+bj+ci)%4 != 0 {
								continue
							}
							var pr parser.Parsers
							var err error
							if pv := eng.Try(func() { pr, err = wbnf.Compile(text, nil) }); pv != nil {
								c.Fail("text "+fmt.Sprintf("%q", text), "compiling panics: %v", pv)
								continue
							}
							if err != nil {
								// The same grammar written out must be refused as well.
								if _, err2 := wbnf.Compile(want.Text(), nil); err2 == nil {
									c.Fail("text "+fmt.Sprintf("%q", text), "refused, though %q is not: %v", want.Text(), err)
								}
								c.Outcome("refused-like-the-expansion")
								continue
							}
							conform{memo: true}.run(c, pr, want.AutoCuts().Prepare(), inputs)
						}
					}
				}
				c.Sample(func() string { return macroText(ms, G(Ru("a", ctx(Mc("M", L("a"), Mc("N", L("b")))))), 0) })
			})
		}
	}

	// Macros that call macros, with arguments moved around.
	u, w := Rf("u"), Rf("w")
	mids := []*T{
		Mc("M", u, w), Mc("M", w, u), Mc("M", u, u), Mc("M", S(u, w), L("y")), Mc("M", Mc("M", u, w), w), A(Mc("M", w, L("y")), Mc("M", u, w)),
		S(u, Mc("M", Opt(w), Lk(u))), Sc(S(Rf("k"), w), G(Ru("k", Mc("M", u, Rf("k2"))), Ru("k2", w))),
	}
	f, h := Rf("f"), Rf("h")
	tops := []*T{
		Mc("N", f, h), Mc("N", h, f), Mc("N", Mc("M", f, h), Mc("N", h, f)), S(Mc("M", f, h), Mc("N", f, h)), Mc("N", A(f, h), Nm("n", h)), D(Mc("N", f, h), Mc("M", h, L("z")), 0),
		Any(Mc("N", L("y"), f)), Lk(Mc("N", S(f, h), S())),
	}
	for mi, mid := range mids {
		for ti, top := range tops {
			mid, top := mid, top
			x.Case(func() string { return fmt.Sprintf("chain %d %d", mi, ti) }, func(c *eng.Ctx) {
				for _, body := range bodies {
					ms := []Macro{{"M", []string{"p", "q"}, body}, {"N", []string{"u", "w"}, mid}, {"O", []string{"f", "h"}, top}}
					for perm := 0; perm < 3; perm++ {
						ms = append(ms[1:], ms[0])
						g := &Gram{}
						for i, a := range args {
							for j, b := range args {
								g.Rules = append(g.Rules, Ru(fmt.Sprintf("r%d_%d", i, j), Mc("O", a, b)))
							}
						}
						if reads(c, macroText(ms, g, perm), im.Grammar(g.ExpandMacros(ms))) {
							c.OutcomeN("call", int64(len(g.Rules)))
						}
					}
				}
			})
		}
	}
	// Same parameter names at every level (each macro has its own).
	for bi, body := range bodies {
		body := body
		x.Case(func() string { return fmt.Sprintf("shared parameter names %d", bi) }, func(c *eng.Ctx) {
			for _, top := range []*T{Mc("M", q, p), Mc("M", p, p), S(p, Mc("M", q, q), q), Mc("M", Mc("M", q, p), p), Mc("M", S(q, p), A(p, q))} {
				ms := []Macro{{"M", []string{"p", "q"}, body}, {"N", []string{"p", "q"}, top}, {"Z", nil, L("zero")}, {"P", []string{"p", "pp", "ppp"}, S(Rf("ppp"), Rf("pp"), Rf("p"))}}
				g := &Gram{}
				for i, a := range args {
					for j, b := range args {
						g.Rules = append(g.Rules, Ru(fmt.Sprintf("r%d_%d", i, j), S(Mc("N", a, b), Mc("Z"), Mc("P", a, b, Mc("Z")))))
					}
				}
				reads(c, macroText(ms, g, 0), im.Grammar(g.ExpandMacros(ms)))
			}
		})
	}

	// Misuse is reported.
	x.KCase("misuse", func(c *eng.Ctx) {
		for _, text := range []string{
			`a -> %!M("x");`, `.macro M(p) { p } a -> %!M();`, `.macro M(p) { p } a -> %!M("x", "y");`, `.macro M(p, q) { p q } a -> %!M("x");`, `.macro M() { "x" } a -> %!M("x");`,
			`.macro M(p) { p %!M(p) } a -> %!M("x");`, `.macro M(p) { p %!N(p) } .macro N(q) { q %!M(q) } a -> %!M("x");`, `.macro M(p) { b { b -> %!M(p); } } a -> %!M("x");`,
			`.macro M(p) { %!N(p) } a -> %!M("x");`, `.macro M(p) { %!N(p, p) } .macro N(q) { q } a -> %!M("x");`, `.macro M(p) { p } .macro M(p) { p p } a -> %!M("x");`,
			`.macro M(p) { p } M -> "x"; a -> M;`, `.macro M(a) { a } a -> %!M("x");`, `.macro M(p) { p nowhere } a -> "x";`, `.macro M(p) { p } a -> %!M(nowhere);`, `.macro M(p) { p } a -> p;`,
			`.macro M(p) { (?=%!M(p)) p } a -> %!M("x");`, `.macro M(p) { p:%!M(p) } a -> %!M("x");`, `.macro M(p) { p /{(} } a -> "x";`, `.macro M(p) { p "\q" } a -> "x";`, `.macro M(p) { p{3,2} } a -> "x";`,
			`.macro M(p) { p } a -> b { b -> %!M(); };`, `.macro M(p) { p } a -> b { b -> %!N("x"); };`, `a -> b { .macro M(p) { p %!M(p) } b -> %!M("x"); };`,
			`.macro M(p) { p } a -> b? %!M(a); b -> "x";`, `.macro M(p) { p } a -> %!M(a);`,
		} {
			c.States++
			c.Evals++
			var err error
			if pv := eng.Try(func() { _, err = wbnf.Compile(text, nil) }); pv != nil {
				c.Fail(text, "compiling panics: %v", pv)
			} else if err == nil {
				c.Fail(text, "accepted")
			} else {
				c.Outcome("misuse-reported")
			}
		}
	})
}
