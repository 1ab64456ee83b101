package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/parser/diff"

	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C26",
		Rule: "all ordered pairs of: terms of at most n constructors over every kind of term, with all flags and bounds; grammars of up to 2 rules (scoped ones included); trees of up to k nodes and leaves over 2 tags, 3 extras and 2 texts, missing separators included: " +
			"the differences must be empty exactly if the two are the same, name exactly the rules and children that differ, be the same both ways round and never panic",
		Assumptions: []string{"lists and maps that are nil are not told from empty ones"},
		Gen:         genC26,
	})
}

// termKey writes a term out unambiguously.
func termKey(t parser.Term) string {
	list := func(k string, ts []parser.Term) string {
		var out []string
		for _, t := range ts {
			out = append(out, termKey(t))
		}
		return k + "(" + strings.Join(out, ",") + ")"
	}
	switch t := t.(type) {
	case nil:
		return "nil"
	case parser.S:
		return fmt.Sprintf("S%q", string(t))
	case parser.RE:
		return fmt.Sprintf("RE%q", string(t))
	case parser.Rule:
		return fmt.Sprintf("Rule%q", string(t))
	case parser.ExtRef:
		return fmt.Sprintf("Ext%q", string(t))
	case parser.REF:
		return fmt.Sprintf("REF%q(%s)", t.Ident, termKey(t.Default))
	case parser.Seq:
		return list("Seq", t)
	case parser.Oneof:
		return list("Oneof", t)
	case parser.Stack:
		return list("Stack", t)
	case parser.Delim:
		return fmt.Sprintf("Delim(%s,%s,%d,%v,%v)", termKey(t.Term), termKey(t.Sep), t.Assoc, t.CanStartWithSep, t.CanEndWithSep)
	case parser.Quant:
		return fmt.Sprintf("Quant(%s,%d,%d)", termKey(t.Term), t.Min, t.Max)
	case parser.Named:
		return fmt.Sprintf("Named(%q,%s)", t.Name, termKey(t.Term))
	case parser.ScopedGrammar:
		return fmt.Sprintf("Scoped(%s,%s)", termKey(t.Term), grammarKey(t.Grammar))
	case parser.CutPoint:
		return "Cut(" + termKey(t.Term) + ")"
	case parser.LookAhead:
		return "Look(" + termKey(t.Term) + ")"
	}
	panic(fmt.Sprintf("%T", t))
}

func grammarKey(g parser.Grammar) string {
	var out []string
	for r, t := range g {
		out = append(out, fmt.Sprintf("%q:%s", string(r), termKey(t)))
	}
	sort.Strings(out)
	return "{" + strings.Join(out, ",") + "}"
}

// allTerms gives the terms of exactly n constructors.
func allTerms(n int, full bool) (out []parser.Term) {
	if n == 1 {
		return []parser.Term{parser.S("a"), parser.S("b"), parser.RE("a"), parser.Rule("a"), parser.Rule("b"), parser.ExtRef("a"), parser.ExtRef("b"),
			parser.REF{Ident: "a"}, parser.REF{Ident: "b"}, parser.Seq{}, parser.Oneof{}}
	}
	for _, t := range allTerms(n-1, full) {
		out = append(out, parser.Seq{t}, parser.Oneof{t}, parser.Stack{t}, parser.CutPoint{Term: t}, parser.LookAhead{Term: t},
			parser.Quant{Term: t}, parser.Quant{Term: t, Min: 1}, parser.Quant{Term: t, Max: 1}, parser.Quant{Term: t, Min: 1, Max: 2},
			parser.Named{Name: "a", Term: t}, parser.Named{Name: "b", Term: t},
			parser.REF{Ident: "a", Default: t}, parser.REF{Ident: "b", Default: t},
			parser.ScopedGrammar{Term: parser.Rule("a"), Grammar: parser.Grammar{"a": t}},
			parser.ScopedGrammar{Term: t, Grammar: parser.Grammar{}},
			parser.ScopedGrammar{Term: t, Grammar: parser.Grammar{"b": parser.S("a")}},
		)
	}
	for i := 1; i < n-1; i++ {
		for _, a := range allTerms(i, full) {
			for _, b := range allTerms(n-1-i, full) {
				out = append(out, parser.Seq{a, b}, parser.Oneof{a, b}, parser.Stack{a, b})
				for k := 0; k < 12; k++ {
					if k%5 != 0 && !full {
						continue
					}
					out = append(out, parser.Delim{Term: a, Sep: b, Assoc: parser.Associativity(k%3 - 1), CanStartWithSep: k/3%2 == 1, CanEndWithSep: k/6 == 1})
				}
			}
		}
	}
	return out
}

func genC26(x *eng.Gen) {
	var terms []parser.Term
	for n := 1; n <= 3; n++ {
		terms = append(terms, allTerms(n, true)...)
	}
	if x.Thorough {
		for _, t := range allTerms(3, true) {
			terms = append(terms, parser.CutPoint{Term: t}, parser.Quant{Term: t, Max: 1}, parser.Seq{parser.S("a"), t})
		}
	}
	keys := make([]string, len(terms))
	for i, t := range terms {
		keys[i] = termKey(t)
	}
	const chunk = 32
	for from := 0; from < len(terms); from += chunk {
		from := from
		x.Case(func() string { return fmt.Sprintf("terms %d..: %s", from, keys[from]) }, func(c *eng.Ctx) {
			for i := from; i < from+chunk && i < len(terms); i++ {
				for j := range terms {
					c.Evals++
					var eq bool
					if pv := eng.Try(func() { eq = diff.Terms(terms[i], terms[j]).Equal() }); pv != nil {
						c.Fail(keys[i], "comparing %s with %s: panic: %v", keys[i], keys[j], pv)
					} else if eq != (keys[i] == keys[j]) {
						c.Fail(keys[i], "%s and %s are said to be equal: %v", keys[i], keys[j], eq)
					}
				}
				c.States++
			}
			c.OutcomeN("terms compared", c.Evals)
		})
	}
	// Grammars.
	some := append(allTerms(1, false), allTerms(2, false)[:16]...) // with S("a") below each unary constructor
	if x.Thorough {
		some = append(allTerms(1, false), allTerms(2, false)...)
	}
	grams := []parser.Grammar{{}}
	for _, t := range some {
		grams = append(grams, parser.Grammar{"a": t}, parser.Grammar{"b": t})
		for _, u := range some[:27] {
			grams = append(grams, parser.Grammar{"a": t, "b": u})
		}
	}
	for from := 0; from < len(grams); from += chunk {
		from := from
		x.Case(func() string { return fmt.Sprintf("grammars %d..: %s", from, grammarKey(grams[from])) }, func(c *eng.Ctx) {
			for i := from; i < from+chunk && i < len(grams); i++ {
				for j := range grams {
					c.Evals++
					rulesDiff(c, grams[i], grams[j])
				}
				c.States++
			}
			c.OutcomeN("grammars compared", c.Evals)
		})
	}
	// Trees.
	size := 3
	if x.Thorough {
		size = 4
	}
	var trees []parser.Node
	for n := 1; n <= size; n++ {
		for _, e := range allTrees(n) {
			if t, ok := e.(parser.Node); ok {
				trees = append(trees, t)
			}
		}
	}
	tkeys := make([]string, len(trees))
	for i, t := range trees {
		tkeys[i] = treeKey(t)
	}
	for from := 0; from < len(trees); from += chunk {
		from := from
		x.Case(func() string { return fmt.Sprintf("trees %d..: %s", from, tkeys[from]) }, func(c *eng.Ctx) {
			for i := from; i < from+chunk && i < len(trees); i++ {
				for j := range trees {
					c.Evals++
					var d diff.NodeDiff
					var report string
					if pv := eng.Try(func() { d = diff.NewNodeDiff(&trees[i], &trees[j]); report = d.String() }); pv != nil {
						c.Fail(tkeys[i], "comparing %s with %s: panic: %v", tkeys[i], tkeys[j], pv)
						continue
					}
					same := tkeys[i] == tkeys[j]
					if d.Equal() != same {
						c.Fail(tkeys[i], "%s and %s are said to be equal: %v", tkeys[i], tkeys[j], d.Equal())
					}
					if (report == "") != same {
						c.Fail(tkeys[i], "the report of %s and %s is %q", tkeys[i], tkeys[j], report)
					}
					for k, x := range trees[i].Children {
						if k >= len(trees[j].Children) {
							break
						}
						y := trees[j].Children[k]
						_, typ := d.Types[k]
						_, leaf := d.Leaves[k]
						_, node := d.Children[k]
						_, nx := x.(parser.Node)
						_, ny := y.(parser.Node)
						_, sx := x.(parser.Scanner)
						_, sy := y.(parser.Scanner)
						if differ := treeKey(x) != treeKey(y); typ != (nx != ny || sx != sy) || node != (nx && ny && differ) || leaf != (sx && sy && differ) {
							c.Fail(tkeys[i], "%s and %s: child %d is said to differ in type: %v, as a leaf: %v, as a node: %v", tkeys[i], tkeys[j], k, typ, leaf, node)
						}
					}
				}
				c.States++
			}
			c.OutcomeN("trees compared", c.Evals)
		})
	}
}

// rulesDiff compares the differences of two grammars with what they should be.
func rulesDiff(c *eng.Ctx, a, b parser.Grammar) {
	var d diff.GrammarDiff
	if pv := eng.Try(func() { d = diff.Grammars(a, b) }); pv != nil {
		c.Fail(grammarKey(a), "comparing %s with %s: panic: %v", grammarKey(a), grammarKey(b), pv)
		return
	}
	var onlyA, onlyB, prods, gotProds []string
	for r, t := range a {
		if u, ok := b[r]; !ok {
			onlyA = append(onlyA, string(r))
		} else if termKey(t) != termKey(u) {
			prods = append(prods, string(r))
		}
	}
	for r := range b {
		if _, ok := a[r]; !ok {
			onlyB = append(onlyB, string(r))
		}
	}
	for r := range d.Prods {
		gotProds = append(gotProds, string(r))
	}
	sort.Strings(onlyA)
	sort.Strings(onlyB)
	sort.Strings(prods)
	sort.Strings(gotProds)
	want := fmt.Sprintf("%v %v %v %v", onlyA, onlyB, prods, len(onlyA)+len(onlyB)+len(prods) == 0)
	if got := fmt.Sprintf("%v %v %v %v", d.OnlyInA, d.OnlyInB, gotProds, d.Equal()); got != want {
		c.Fail(grammarKey(a), "the differences of %s and %s (only in each, in both, equal) are %s, want %s", grammarKey(a), grammarKey(b), got, want)
	}
}

func treeKey(e parser.TreeElement) string {
	switch e := e.(type) {
	case parser.Node:
		var out []string
		for _, k := range e.Children {
			out = append(out, treeKey(k))
		}
		return fmt.Sprintf("%s %T%v(%s)", e.Tag, e.Extra, e.Extra, strings.Join(out, ","))
	case parser.Scanner:
		return fmt.Sprintf("%q", e.String())
	}
	return fmt.Sprintf("%T", e)
}

var treeSrc = parser.NewScanner("xyx")

// allTrees gives the trees of exactly n nodes and leaves.
func allTrees(n int) (out []parser.TreeElement) {
	if n == 1 {
		out = append(out, *treeSrc.Slice(0, 1), *treeSrc.Slice(1, 2), *treeSrc.Slice(2, 3), parser.Empty{})
	}
	for _, tag := range []string{"a", "b"} {
		for _, extra := range []parser.Extra{nil, parser.Choice(0), parser.Choice(1), parser.Associativity(0)} {
			if extra != nil && tag == "b" {
				continue
			}
			for _, kids := range allForests(n - 1) {
				out = append(out, parser.Node{Tag: tag, Extra: extra, Children: kids})
			}
		}
	}
	return out
}

func allForests(n int) (out [][]parser.TreeElement) {
	if n == 0 {
		return [][]parser.TreeElement{nil}
	}
	for i := 1; i <= n; i++ {
		for _, t := range allTrees(i) {
			for _, f := range allForests(n - i) {
				out = append(out, append([]parser.TreeElement{t}, f...))
			}
		}
	}
	return out
}
