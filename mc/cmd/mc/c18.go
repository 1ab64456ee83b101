package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"

	"verif/mc/eng"
	. "verif/mc/gm"
	"verif/mc/im"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C18",
		Rule: "the programs and inputs of C01, C02, C04, C06 and C08 (one step smaller): the text of every error must be made, be the same every time, and every terminal it says was expected at some text must be one that the model tried and failed to match there; " +
			"the text about input left over must show exactly the residue at its line and column; plus multi-line and windowed inputs, external errors, and the errors of all token sequences up to a bound as grammars",
		Assumptions: []string{"the wording of messages is not fixed, only what they say about terms and places in the form they have now is looked at"},
		Gen:         genC18,
	})
}

// attempt writes a failing attempt of a terminal as reports do.
func attempt(t *T, rest string) string {
	expect := parser.S(t.S).String()
	if t.Op == Re {
		expect = `(?m)\A(` + t.S + `)`
	}
	rest = strings.TrimSpace(rest)
	if len(rest) > 40 {
		rest = rest[:40] + "  ..."
	}
	return expect + "\x00" + rest
}

var (
	reportPair = regexp.MustCompile(`expect: \n[^\n]*\n[^\n]*?\x1b\[1;31m(.*?)\x1b\[0m\n[^\n]*?actual: \n[^\n]*\n[^\n]*?\x1b\[1;31m(.*?)\x1b\[0m`)
	badVerb    = regexp.MustCompile(`%!\w?\(|%!!`)
)

// message makes the text of an error, twice.
func message(c *eng.Ctx, sub string, err error) (string, bool) {
	var a, b string
	if pv := eng.Try(func() { a, b = err.Error(), err.Error() }); pv != nil {
		c.Fail(sub, "the text of a %T can't be made: %v", err, pv)
		return "", false
	}
	switch {
	case a != b:
		c.Fail(sub, "the text of a %T changes from %.300q to %.300q", err, a, b)
	case strings.TrimSpace(a) == "":
		c.Fail(sub, "the text of a %T is empty", err)
	case badVerb.MatchString(a):
		c.Fail(sub, "the text of a %T is badly formatted: %.300q", err, a)
	default:
		return a, true
	}
	return "", false
}

func onError(c *eng.Ctx, g *Gram, rule, in string, o im.Outcome, r Res, failed map[string]bool) {
	sub := fmt.Sprintf("input %q", in)
	switch {
	case o.Err == nil:
		c.Outcome("no-error")
		return
	case o.Residue != nil:
		text, ok := message(c, sub, o.Err)
		want := span{text: in, from: r.Pos, to: len(in)}.context(1)
		if ok && !strings.Contains(text, want) {
			c.Fail(sub, "%s: %q does not show the residue as %q", g.Text(), text, want)
		}
		c.Outcome("residue-report")
		return
	}
	text, ok := message(c, sub, o.Err)
	if !ok {
		return
	}
	pairs := reportPair.FindAllStringSubmatch(text, -1)
	c.Outcome(map[bool]string{true: "report", false: "report-of-no-terminal"}[len(pairs) > 0])
	for _, p := range pairs {
		c.Transitions++
		if !failed[p[1]+"\x00"+p[2]] && !wrapped(failed, p[1], p[2]) {
			c.Fail(sub, "%s on %q: reports that %s was expected at %q, where it never failed to match", g.Text(), in, p[1], p[2])
		}
	}
}

// wrapped tells whether a terminal failed that the expected one wraps.
func wrapped(failed map[string]bool, expect, actual string) bool {
	for k := range failed {
		if e, a, _ := strings.Cut(k, "\x00"); a == actual && strings.HasPrefix(e, `(?m)\A`) && strings.Contains(expect, strings.TrimPrefix(e, `(?m)\A`)) {
			return true
		}
	}
	return false
}

func genC18(x *eng.Gen) {
	genMode = "report"
	genC01(x)
	genC02(x)
	genC04(x)
	genC06(x)
	genC08(x)

	// Residues in sources of several lines, and windows into them.
	for i, t := range []*T{Any(L("a")), S(Any(R(`a|\n`)), L("b")), D(L("a"), L("\n"), 0), A(S(L("a"), L("\n"), L("a")), L("a")), Any(S(L("\n"), Opt(L("a"))))} {
		t := t
		x.KCase(fmt.Sprintf("lines %d: %s", i, t), func(c *eng.Ctx) {
			g := G(Ru("a", t)).Prepare()
			p, ok := compile(c, g)
			if !ok {
				return
			}
			for _, in := range Strings([]string{"a", "\n", "b"}, bound(x, 6, 8)) {
				for from := 0; from <= 2 && from <= len(in); from++ {
					rest := in[from:]
					m := &M{Src: rest, Memo: true}
					r := m.Parse(g, "a")
					c.States += m.States
					c.Transitions += m.Transitions
					c.Evals++
					var o im.Outcome
					s := parser.NewScannerWithFilename(in, "f").Skip(from)
					if pv := eng.Try(func() { o = im.ParseScanner(p, "a", s, nil) }); pv != nil {
						c.Fail(fmt.Sprintf("input %q", in), "parse panics: %v", pv)
						continue
					}
					if im.Check(o, r, rest, from) != "" || o.Err == nil {
						continue
					}
					sub := fmt.Sprintf("input %q from %d", in, from)
					text, ok := message(c, sub, o.Err)
					if ok && o.Residue != nil {
						want := span{text: in, file: "f", from: from + r.Pos, to: len(in)}.context(1)
						if !strings.Contains(text, want) {
							c.Fail(sub, "%q does not show the residue as %q", text, want)
						}
						c.Outcome("residue-report")
					}
					// What the caller does with the scanner afterwards is no
					// business of the report.
					*s = *parser.NewScanner("something else")
					var later string
					if pv := eng.Try(func() { later = o.Err.Error() }); pv != nil || ok && later != text {
						c.Fail(sub, "the report changes with the scanner from %q to %q (%v)", text, later, pv)
					}
				}
			}
		})
	}

	// Errors of grammars.
	toks := []string{"a", "->", `"x"`, ";", "|", "(", ")", "*", ":", "%", "{", "}", "=", ">", "/{[}", ".macro", ".import", "%s", `"%d"`}
	n := 3
	if x.Thorough {
		n = 4
	}
	for _, t1 := range toks {
		t1 := t1
		x.KCase("grammars from "+t1, func(c *eng.Ctx) {
			for _, rest := range Strings(toks, n-1) {
				for _, pre := range []string{"", "a -> "} {
					text := pre + t1 + " " + rest
					var err error
					c.Evals++
					c.States++
					if pv := eng.Try(func() { _, err = wbnf.Compile(text, nil) }); pv != nil || err == nil {
						c.Outcome("compiles")
						continue // C12's business
					}
					message(c, fmt.Sprintf("grammar %q", text), err)
					c.Outcome("grammar-report")
				}
			}
		})
	}
}
