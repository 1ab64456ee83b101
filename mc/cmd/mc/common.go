package main

import (
	"fmt"

	"github.com/arr-ai/wbnf/parser"

	"verif/mc/eng"
	"verif/mc/gm"
	"verif/mc/im"
)

// lead is one more than n in the check that enumerates the programs for itself.
func lead(n int) int {
	if genMode == "" {
		n++
	}
	return n
}

// conform compares the implementation with the model on one grammar for a
// list of inputs.
type conform struct {
	memo  bool
	exts  parser.ExternalRefs
	mexts map[string]gm.ExtFn
	rule  string
	esc   *gm.Escape
	noCut bool
}

// genMode selects what is checked on the programs and inputs that the
// generators of C01..C07 enumerate: the tree itself, or what is made of it.
var genMode string

// bound picks a bound for quick and thorough runs. Checks that reuse the
// programs of another check stay a step behind it.
func bound(x *eng.Gen, quick, thorough int) int {
	switch {
	case genMode != "" && x.Thorough:
		return quick
	case genMode != "":
		return quick - 1
	case x.Thorough:
		return thorough
	}
	return quick
}

func (cf conform) run(c *eng.Ctx, p parser.Parsers, g *gm.Gram, inputs []string) {
	rule := cf.rule
	if rule == "" {
		rule = "a"
	}
	if genMode == "report" {
		inputs = reportInputs(inputs, c.Thorough())
	}
	if genMode == "pure" {
		cf.pure(c, p, g, rule, inputs)
		return
	}
	if genMode == "gen" {
		cf.gencode(c, g, rule, inputs)
		return
	}
	if genMode == "orders" {
		cf.ordersOf(c, g, rule, inputs)
		return
	}
	if genMode == "view" || genMode == "use" {
		newBag()
	}
	if genMode == "use" {
		defer func() { compareBag(c, 60) }()
	}
	for _, in := range inputs {
		if genMode == "ends" {
			cf.ends(c, p, g, rule, in)
			continue
		}
		m := &gm.M{Src: in, Memo: cf.memo, Limit: 2_000_000, Exts: cf.mexts, Esc: cf.esc, NoCut: cf.noCut}
		var failed map[string]bool
		if genMode == "report" {
			failed = map[string]bool{}
			m.OnFail = func(t *gm.T, pos int) { failed[attempt(t, in[pos:])] = true }
		}
		r := m.Parse(g, rule)
		c.States += m.States
		c.Transitions += m.Transitions
		if m.GaveUp || m.Deep {
			c.Outcome("model-gave-up")
			continue
		}
		var o im.Outcome
		if pv := eng.Try(func() { o = im.Parse(p, rule, in, cf.exts) }); pv != nil {
			c.Fail(fmt.Sprintf("input %q", in), "parse panics: %v", pv)
			continue
		}
		c.Evals++
		c.Traces++
		if genMode == "report" {
			if im.Check(o, r, in, 0) == "" {
				onError(c, g, rule, in, o, r, failed)
			}
			continue
		}
		if genMode != "" {
			if r.St != gm.OK || im.Check(o, r, in, 0) != "" {
				c.Outcome("no-tree")
				continue
			}
			onTree(c, p, g, rule, in, o.Tree, r.N)
			continue
		}
		if d := im.Check(o, r, in, 0); d != "" {
			c.Fail(fmt.Sprintf("input %q", in), "%s", d)
		}
		switch {
		case r.St == gm.Fatal:
			c.Outcome("rejected-fatal")
		case r.St == gm.Fail:
			c.Outcome("rejected")
		case r.Pos == len(in):
			c.Outcome("accepted")
		default:
			c.Outcome("prefix-with-residue")
		}
	}
}

// ends checks only that a parse comes to an end with a tree or an error.
func (cf conform) ends(c *eng.Ctx, p parser.Parsers, g *gm.Gram, rule, in string) {
	var te parser.TreeElement
	var err error
	c.States++
	c.Evals++
	c.Transitions += int64(len(in))
	if pv := eng.Try(func() { te, err = p.ParseWithExternals(parser.Rule(rule), parser.NewScanner(in), cf.exts) }); pv != nil {
		c.Fail(fmt.Sprintf("input %q", in), "%s: parse panics: %v", g.Text(), pv)
		return
	}
	switch {
	case err != nil && te != nil:
		c.Fail(fmt.Sprintf("input %q", in), "%s: both a tree %v and an error %v", g.Text(), te, err)
	case err != nil:
		c.Outcome("ends-with-error")
	default:
		c.Outcome("ends-with-tree")
	}
}

// flats lists the sequences of two to n members out of some elements.
func flats(elems []*gm.T, n int) []*gm.T {
	var out []*gm.T
	for k := 2; k <= n; k++ {
		for _, ts := range tuples(elems, k) {
			kids := make([]*gm.T, 0, k)
			for _, t := range ts {
				kids = append(kids, t.Clone())
			}
			out = append(out, gm.S(kids...))
		}
	}
	return out
}

// compile builds the implementation's parsers from a model grammar.
func compile(c *eng.Ctx, g *gm.Gram) (p parser.Parsers, ok bool) {
	if genMode == "pure" {
		ig := im.Grammar(g)
		was := deep(ig)
		if eng.Try(func() { ig.Compile(nil) }) == nil {
			if now := deep(ig); now != was {
				c.Fail("compile", "compiling %s changed it: %s", g.Text(), firstDiff(was, now))
			}
		}
	}
	if pv := eng.Try(func() { p = im.Grammar(g).Compile(nil) }); pv != nil {
		c.Fail("compile", "compiling %s panics: %v", g.Text(), pv)
		return p, false
	}
	return p, true
}

// reportInputs lists the inputs whose errors are written out: the shorter ones,
// and some with more text after them than a report shows.
func reportInputs(inputs []string, thorough bool) []string {
	var out []string
	for _, in := range inputs {
		if len(in) > reportLen(thorough) {
			continue
		}
		out = append(out, in)
		if len(in) <= 1 {
			out = append(out, in+" 0123456789\n the quick brown fox jumps over the lazy dog; 9876543210")
		}
	}
	return out
}

// reportLen bounds the inputs whose errors are written out.
func reportLen(thorough bool) int {
	if thorough {
		return 4
	}
	return 3
}
