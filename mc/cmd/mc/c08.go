package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"

	"verif/mc/eng"
	. "verif/mc/gm"
	"verif/mc/im"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C08",
		Rule: "every term of at most n constructors over explicit commit points, built through the API, and every grammar of at most n constructors over {literals, regex, rule} compiled from text, " +
			"on every input up to the length bound; acceptance, tree, residue and whether a rejection is final must equal the reference interpreter's with commit points, a full match must equal the one without them, " +
			"and where no two terminals overlap no input may be lost to a commit point",
		Assumptions: []string{"Go's regexp decides what a single regular expression matches"},
		Gen:         genC08,
	})
}

// fromText compiles grammar text; ok is false when it is rejected or fails.
func fromText(c *eng.Ctx, text string) (p parser.Parsers, ok bool) {
	var err error
	if pv := eng.Try(func() { p, err = wbnf.Compile(text, nil) }); pv != nil {
		c.Fail("compile", "compiling %s panics: %v", text, pv)
		return p, false
	}
	if err != nil {
		c.Outcome("grammar-rejected")
		return p, false
	}
	return p, true
}

// prefixFree tells whether no terminal can match where another one does:
// literals only, none a prefix of another, none empty.
func prefixFree(g *Gram) bool {
	var lits []string
	ok := true
	g.Has(func(t *T) bool {
		switch t.Op {
		case Str:
			lits = append(lits, t.S)
		case Re, Back, Ext:
			ok = false
		}
		return false
	})
	for _, a := range lits {
		for _, b := range lits {
			if a != b && strings.HasPrefix(a, b) {
				ok = false
			}
		}
	}
	return ok
}

// cuts compares p with the model g (whose commit points are explicit).
func cuts(c *eng.Ctx, p parser.Parsers, g *Gram, inputs []string, auto bool) {
	if genMode == "report" {
		conform{memo: true}.run(c, p, g, inputs)
		return
	}
	pf := auto && prefixFree(g)
	for _, in := range inputs {
		m := &M{Src: in, Memo: true, Limit: 2_000_000}
		r := m.Parse(g, "a")
		mn := &M{Src: in, Memo: true, Limit: 2_000_000, NoCut: true}
		rn := mn.Parse(g, "a")
		c.States += m.States + mn.States
		c.Transitions += m.Transitions + mn.Transitions
		if m.GaveUp || m.Deep || mn.GaveUp || mn.Deep {
			c.Outcome("model-gave-up")
			continue
		}
		var o im.Outcome
		if pv := eng.Try(func() { o = im.Parse(p, "a", in, nil) }); pv != nil {
			c.Fail(fmt.Sprintf("input %q", in), "parse panics: %v", pv)
			continue
		}
		c.Evals++
		c.Traces++
		sub := fmt.Sprintf("input %q", in)
		if d := im.Check(o, r, in, 0); d != "" {
			c.Fail(sub, "%s", d)
			continue
		}
		full := rn.St == OK && rn.Pos == len(in)
		if !o.Rejected {
			c.Outcome("accepted")
			if d := im.Check(o, rn, in, 0); d != "" {
				c.Fail(sub, "commit points change the result: %s", d)
			}
			continue
		}
		if full && pf {
			c.Fail(sub, "lost to a commit point, though no two terminals overlap; without them: %s", rn.N.Str(in))
		}
		var fe parser.FatalError
		switch got := errors.As(o.Err, &fe); {
		case got && r.St != Fatal:
			c.Fail(sub, "rejection is final, but nothing was committed: %v", o.Err)
		case !got && r.St == Fatal:
			c.Fail(sub, "rejection is not final, but a commit point was passed: %v", o.Err)
		}
		switch {
		case r.St == Fatal && rn.St == OK:
			c.Outcome("committed-rejection-where-backtracking-would-match")
		case r.St == Fatal:
			c.Outcome("rejected-finally")
		default:
			c.Outcome("rejected")
		}
	}
}

func genC08(x *eng.Gen) {
	n, ilen := bound(x, 5, 6), bound(x, 4, 5)
	// Explicit commit points through the API.
	inputs := Strings([]string{"a", "b"}, ilen)
	v := &Vocab{
		Leaves: []*T{L("a"), Cp(L("a")), Cp(L("b")), Rf("r")},
		Unary: []func(*T) *T{
			Opt, Some,
			func(t *T) *T { return Nm("n", t) },
			Lk, Cp,
		},
		Binary: []func(a, b *T) *T{
			func(a, b *T) *T { return S(a, b) },
			func(a, b *T) *T { return A(a, b) },
			func(a, b *T) *T { return DLT(a, b, 0, false, true) },
		},
	}
	all := v.BySize(n)
	for k := 1; k <= n; k++ {
		for _, t := range all[k] {
			if !t.Has(func(t *T) bool { return t.Op == Cut || t.Op == Ref }) {
				continue
			}
			t := t
			x.Case(func() string { return "api " + showCut(t) }, func(c *eng.Ctx) {
				for _, r := range []*T{Cp(L("b")), S(Cp(L("b")), L("a"))} {
					g := G(Ru("a", t), Ru("r", r)).Prepare()
					p, ok := compile(c, g)
					if !ok {
						return
					}
					cuts(c, p, g, inputs, false)
				}
				c.Sample(func() string { return "API grammar " + showCut(t) })
			})
		}
	}

	// Grammar text.
	inputs3 := Strings([]string{"a", "b", "c"}, ilen)
	tv := &Vocab{
		Leaves: []*T{L("a"), L("b"), L("c"), L("ab"), R("[ab]"), Rf("r")},
		Unary:  []func(*T) *T{Opt, Any, func(t *T) *T { return Nm("n", t) }, Lk},
		Binary: []func(a, b *T) *T{
			func(a, b *T) *T { return S(a, b) },
			func(a, b *T) *T { return A(a, b) },
			func(a, b *T) *T { return D(a, b, 0) },
			func(a, b *T) *T { return DLT(a, b, 0, true, false) },
			func(a, b *T) *T { return DLT(a, b, 1, false, true) },
		},
	}
	tall := tv.BySize(n)
	text := func(key string, g *Gram, ins []string) {
		x.Case(func() string { return key }, func(c *eng.Ctx) {
			p, ok := fromText(c, g.Text())
			if !ok {
				return
			}
			cuts(c, p, g.AutoCuts().Prepare(), ins, true)
			c.Sample(func() string { return "text " + g.Text() })
		})
	}
	top := n
	for k := 1; k <= top; k++ {
		for _, t := range tall[k] {
			rs := []*T{L("c")}
			if t.Has(func(t *T) bool { return t.Op == Ref }) {
				rs = []*T{L("a"), L("c"), S(L("c"), L("b"))}
			}
			for _, r := range rs {
				g := G(Ru("a", t), Ru("r", r))
				text("text "+g.Text(), g, inputs3)
			}
		}
	}

	// A literal in every place a grammar has for one, up to two deep, with its
	// other occurrence in every such place of another alternative.
	type place struct {
		name string
		put  func(t *T) *T
	}
	places := []place{
		{"itself", func(t *T) *T { return t }},
		{"name", func(t *T) *T { return Nm("n", t) }},
		{"?", Opt},
		{"+", Some},
		{"sequence", func(t *T) *T { return S(t, Opt(L("b"))) }},
		{"choice", func(t *T) *T { return A(L("b"), t) }},
		{"element", func(t *T) *T { return D(t, L("b"), 0) }},
		{"separator", func(t *T) *T { return D(Opt(L("b")), t, 1) }},
		{"leading separator", func(t *T) *T { return DLT(L("b"), t, 0, true, false) }},
		{"trailing separator", func(t *T) *T { return DLT(L("b"), t, 0, false, true) }},
		{"lookahead", func(t *T) *T { return S(Lk(t), R("[ab]")) }},
		{"scoped term", func(t *T) *T { return Sc(t, G(Ru("s", L("b")))) }},
		{"scoped rule", func(t *T) *T { return Sc(Rf("s"), G(Ru("s", t))) }},
		{"scoped stack", func(t *T) *T { return Sc(Rf("s"), G(Ru("s", St(D(Rf("@"), L("b"), 0), t)))) }},
	}
	hole := func(i, j int) *T {
		if i == len(places) { // defaults are literals
			t := BkDef("m", "a")
			if j < len(places) {
				t = places[j].put(t)
			}
			return t
		}
		return places[i].put(places[j].put(L("a")))
	}
	ins4 := Strings([]string{"a", "b", "c"}, 4)
	for i := 0; i <= len(places); i++ {
		for j := 0; j < len(places); j++ {
			if genMode == "report" && i != 0 && j != 0 {
				continue
			}
			i, j := i, j
			x.Case(func() string { return fmt.Sprintf("places %d in %d", j, i) }, func(c *eng.Ctx) {
				for k := 0; k <= len(places); k++ {
					for l := 0; l < len(places); l++ {
						if l != 0 && !x.Thorough && (i != 0 || k > 0 && k < len(places)) {
							continue
						}
						for _, g := range []*Gram{
							G(Ru("a", A(S(hole(i, j), L("d")), S(hole(k, l), L("c"))))),
							G(Ru("a", A(S(Rf("r"), L("d")), S(Opt(L("b")), hole(k, l), L("c")))), Ru("r", hole(i, j))),
						} {
							p, ok := fromText(c, g.Text())
							if !ok {
								continue
							}
							cuts(c, p, g.AutoCuts().Prepare(), ins4, true)
						}
					}
				}
			})
		}
	}

	// Grammars of the shapes people write: alternatives that share a rule, a
	// scope, a separator or a keyword, with every assignment of literals.
	lits := []string{"a", "b", "c"}
	shapes := []func(l []string) *Gram{
		func(l []string) *Gram {
			return G(Ru("a", A(S(Rf("r"), L(l[0])), S(Rf("r"), L(l[1])))), Ru("r", L(l[2])))
		},
		func(l []string) *Gram {
			return G(Ru("a", A(S(Rf("r"), L(l[0])), S(Rf("r"), L(l[1])))), Ru("r", Nm("k", L(l[2]))))
		},
		func(l []string) *Gram {
			return G(Ru("a", A(S(Rf("r"), L(l[0])), S(Rf("r"), L(l[1])))), Ru("r", S(L(l[2]), L(l[3]))))
		},
		func(l []string) *Gram {
			return G(Ru("a", A(S(Rf("r"), L(l[0])), S(Rf("q"), L(l[1])))), Ru("r", S(L(l[2]), L(l[3]))), Ru("q", Rf("r")))
		},
		func(l []string) *Gram {
			return G(Ru("a", Sc(A(S(Rf("b"), L(l[0])), Rf("b")), G(Ru("b", S(L(l[1]), Opt(L(l[2]))))))), Ru("r", L(l[3])))
		},
		func(l []string) *Gram {
			return G(Ru("a", S(L(l[0]), Sc(Rf("b"), G(Ru("b", A(S(L(l[1]), L(l[2])), S(L(l[1]), L(l[3])))))))))
		},
		func(l []string) *Gram {
			return G(Ru("a", Sc(Rf("b"), G(Ru("b", A(Sc(Rf("d"), G(Ru("d", S(L(l[0]), L(l[1]))))), S(L(l[2]), L(l[3]))))))))
		},
		func(l []string) *Gram { return G(Ru("a", S(DLT(L(l[0]), L(l[1]), 0, false, true), Opt(L(l[2]))))) },
		func(l []string) *Gram { return G(Ru("a", S(DLT(L(l[0]), L(l[1]), 0, true, false), Opt(L(l[2]))))) },
		func(l []string) *Gram { return G(Ru("a", S(Any(S(L(l[0]), L(l[1]))), L(l[2])))) },
		func(l []string) *Gram { return G(Ru("a", S(Opt(S(L(l[0]), Opt(L(l[1])))), L(l[2]), Opt(L(l[3]))))) },
		func(l []string) *Gram {
			return G(Ru("a", A(S(Lk(L(l[0])), Rf("r"), L(l[1])), S(Rf("r"), L(l[2])))), Ru("r", L(l[3])))
		},
		func(l []string) *Gram {
			return G(Ru("a", St(D(Rf("@"), L(l[0]), 1), D(Rf("@"), L(l[1]), 0), A(L(l[2]), S(L(l[3]), Rf("a"), L(l[3]))))))
		},
		func(l []string) *Gram {
			return G(Ru("a", S(Nm("n", A(L(l[0]), L(l[1]))), A(S(BkDef("n", l[2]), L(l[3])), Bk("n")))))
		},
	}
	ins5 := Strings(lits, ilen+1)
	for si, sh := range shapes {
		for _, l := range tuples(lits, 4) {
			g := sh(l)
			text(fmt.Sprintf("shape %d %s", si, strings.Join(l, "")), g, ins5)
		}
	}
}

func showCut(t *T) string {
	s := t.String()
	n := 0
	t.Has(func(t *T) bool {
		if t.Op == Cut {
			n++
		}
		return false
	})
	var sb strings.Builder
	var w func(t *T)
	w = func(t *T) {
		if t.Op == Cut {
			sb.WriteByte('!')
		} else {
			sb.WriteByte('.')
		}
		for _, k := range t.Kids {
			w(k)
		}
	}
	w(t)
	return s + " cuts " + sb.String()
}

// tuples lists all n-tuples over xs.
func tuples[X any](xs []X, n int) [][]X {
	out := [][]X{nil}
	for i := 0; i < n; i++ {
		var next [][]X
		for _, t := range out {
			for _, v := range xs {
				next = append(next, append(append([]X{}, t...), v))
			}
		}
		out = next
	}
	return out
}
