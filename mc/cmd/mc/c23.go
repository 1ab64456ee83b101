package main

import (
	"fmt"
	"strings"

	"verif/mc/eng"
	. "verif/mc/gm"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C23",
		Rule: "the code generated for every grammar of a family (terms of at most n constructors over names, rules, literals, options, repetitions, sequences, choices, delimiters, scopes, references; sequences; stacks; grammars that combine all features) is really built, hundreds of grammars to a program, and run on every input up to the length bound: " +
			"the typed trees must hold exactly the AST, the accessors give exactly the parts of every node, the walker visits every typed node once and nested like the tree, and stopping it from any call-back leaves out exactly what it should",
		Assumptions: []string{"unnamed separators and separators that are rules have no accessors, as documented", "names that give the same Go name, or that stand for text in one place and for structure in another, are left out"},
		Gen:         genC23,
		Hang:        600e9,
	})
}

func genC23(x *eng.Gen) {
	size, per := 3, 300
	if x.Thorough {
		size, per = 4, 600
	}
	var progs []genProg
	inputs := Strings([]string{"a", "b"}, 4)
	v := &Vocab{
		Leaves: []*T{L("a"), R("[ab]"), Rf("r"), Rf("t"), Nm("k", Rf("r")), Nm("l", L("b"))},
		Unary: []func(*T) *T{
			Opt, Any,
			func(t *T) *T { return Q(t, 1, 2) },
			func(t *T) *T { return Nm("n", S(t, L(""))) },
			func(t *T) *T { return Sc(t, G(Ru("r", S(L("b"), Nm("o", Opt(Rf("t"))))))) },
		},
		Binary: []func(a, b *T) *T{
			func(a, b *T) *T { return S(a, b) },
			func(a, b *T) *T { return A(a, b) },
			func(a, b *T) *T { return D(a, Nm("s", b), 0) },
			func(a, b *T) *T { return S(a, L("b"), b, Rf("t")) },
		},
	}
	for _, ts := range v.BySize(size) {
		for _, t := range ts {
			g := G(Ru("a", t), Ru("r", S(L("a"), Opt(Nm("m", L("b"))))), Ru("t", R("[ab]"))).Prepare()
			if LeftRec(g) || twoNames(t) {
				continue
			}
			progs = append(progs, genProg{g.Text(), "a", inputs, false})
		}
	}
	// Stacks, with all combinations of levels.
	levels := []string{`@:op="+"`, `@:"+"`, `n=@ "+"?`, `m="-"? @`, `@ ("+" @)*`, `r? @`}
	last := []string{`k="a"`, `"(" a ")" | "a"`, `"(" n=a ")" | k="a" | r`, `o=("a" r?)`, `r r | r`}
	ins := append(Strings([]string{"a", "+", "-"}, 3), "a+a+a", "(a)", "(a+a)+a", "-(-a)", "ba", "bba", "abab", "b+b", "(b)+ba", "-bb", "a++a", "a+++")
	for _, l := range last {
		for _, m := range levels {
			tail := m + " > " + l + `; r -> "b" q="a"?;`
			progs = append(progs, genProg{"a -> " + tail, "a", ins, strings.Contains(m, `:"`)})
			for _, m2 := range levels {
				if m2[:2] == m[:2] && m2[0] != '@' {
					continue // a name twice
				}
				progs = append(progs, genProg{"a -> " + m2 + " > " + tail, "a", ins, strings.Contains(m+m2, `:"`)})
			}
		}
	}
	for i := range richList {
		r := &richList[i]
		// The trees of associative delimiters and the texts of back references
		// have no accessors of their own.
		if r.files != nil || r.name == "external" || strings.Contains(r.text, ":>") || strings.Contains(r.text, ":<") || strings.Contains(r.text, "%") {
			continue
		}
		progs = append(progs, genProg{r.text, r.rule, r.inputs, strings.Contains(r.text, ":")})
	}
	for bi, batch := range batches(progs, per) {
		batch := batch
		x.Case(func() string { return fmt.Sprintf("batch %d: %s ...", bi, batch[0].text) }, func(c *eng.Ctx) {
			results, left, err := runBatch(c.Work, batch)
			if err != nil {
				c.Fail("run", "%v", err)
			}
			for _, what := range left {
				c.Outcome("no-code: " + what)
			}
			for _, r := range results {
				p := batch[r.Index]
				c.Evals += int64(r.Parses)
				c.States += int64(r.Nodes)
				c.Transitions += int64(r.Accessors)
				c.Traces += int64(r.Walks)
				c.OutcomeN("rejected", int64(r.Rejects))
				c.OutcomeN("parsed", int64(r.Parses-r.Rejects))
				if r.Message != "" {
					c.Fail(p.text, "%s from %s on %q: %s", p.text, p.start, r.Input, r.Message)
				}
			}
		})
	}
}
