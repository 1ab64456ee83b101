package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"

	"verif/mc/eng"
	. "verif/mc/gm"
	"verif/mc/im"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C22",
		Rule: "for every program of C02..C04 and C06 (one step smaller), every term of at most n constructors over all text forms, every character and pair of special characters in literals and regular expressions, names of all shapes in all roles, scopes and stacks sharing names, and ~40 grammars that combine all features with every rule as start rule: " +
			"the file that the gen command writes must parse and type-check as Go, and the grammar that its Grammar function makes, computed from its checked syntax tree, must be the one the file was made from: equal, or giving the same outcome from every rule on every input",
		Assumptions: []string{"go/types stands for the compiler", "names that give the same Go name are left out"},
		Gen:         genC22,
	})
}

// gencode generates code for a grammar text, and checks it.
func gencode(c *eng.Ctx, text, start string, inputs []string, exts parser.ExternalRefs) {
	fail := func(format string, args ...any) { c.Fail(text+" from "+start, "%s", fmt.Sprintf(format, args...)) }
	var p parser.Parsers
	var err error
	if pv := eng.Try(func() { p, err = wbnf.Compile(text, nil) }); pv != nil || err != nil {
		c.Outcome("refused")
		return
	}
	src, err := genFile(c.Work, text, start)
	c.Evals++
	c.States++
	if err != nil {
		fail("%s: %v", text, err)
		return
	}
	ck, err := typecheck(src)
	if err != nil {
		fail("%s: the generated code doesn't compile: %v", text, err)
		return
	}
	p2, err := grammarOf(ck)
	if _, ok := err.(unsupported); ok {
		c.Outcome(err.Error())
		return
	}
	if err != nil {
		fail("%s: the generated Grammar(): %v", text, err)
		return
	}
	c.Traces++
	sameParsers(c, fail, text, p, p2, inputs, exts)
}

func sameParsers(c *eng.Ctx, fail func(string, ...any), text string, p, p2 parser.Parsers, inputs []string, exts parser.ExternalRefs) {
	was, now := deep(p.Grammar()), deep(p2.Grammar())
	if was == now {
		c.Outcome("equal-grammar")
		if len(inputs) > 3 {
			inputs = inputs[:3]
		}
	} else {
		c.Outcome("different-grammar")
	}
	var rules []string
	for r := range p.Grammar() {
		rules = append(rules, string(r))
	}
	sort.Strings(rules)
	for _, r := range rules {
		for _, in := range inputs {
			a, b := outcomeOf(p, r, in, exts), outcomeOf(p2, r, in, exts)
			c.Transitions++
			if a != b {
				d := firstDiff(was, now)
				if len(d) > 400 {
					d = d[:400]
				}
				fail("%s from %s on %q: the generated parser gives %s, the grammar %s\n  %s", text, r, in, b, a, d)
				return
			}
		}
	}
}

func outcomeOf(p parser.Parsers, rule, in string, exts parser.ExternalRefs) string {
	var te parser.TreeElement
	var err error
	if pv := eng.Try(func() { te, err = p.ParseWithExternals(parser.Rule(rule), parser.NewScanner(in), exts) }); pv != nil {
		return "panic"
	}
	switch e := err.(type) {
	case nil:
		return im.Show(te)
	case parser.UnconsumedInputError:
		return im.Show(e.Result()) + " left " + e.Residue().String()
	case parser.FatalError:
		return "fatal error"
	}
	return "error"
}

func (cf conform) gencode(c *eng.Ctx, g *Gram, rule string, inputs []string) {
	text := g.Text()
	if genSeen[text] {
		return
	}
	genSeen[text] = true
	gencode(c, text, rule, inputs, cf.exts)
}

var genSeen = map[string]bool{}

func genVocab() *Vocab {
	return &Vocab{
		Leaves: []*T{L("a"), R("[ab]"), Rf("r"), Bk("n"), BkDef("n", "b"), Ex("e"), S()},
		Unary: []func(*T) *T{
			Opt, Any, Some, Lk,
			func(t *T) *T { return Q(t, 2, 3) },
			func(t *T) *T { return Q(t, 2, 0) },
			func(t *T) *T { return Nm("n", t) },
			func(t *T) *T { return Nm("m", t) },
			func(t *T) *T { return Sc(t, G(Ru("r", S(L("b"), Opt(Rf("d")))))) },
			func(t *T) *T { return Sc(t, G(Ru("s", Nm("n", Rf("r"))))) },
		},
		Binary: []func(a, b *T) *T{
			func(a, b *T) *T { return S(a, b) },
			func(a, b *T) *T { return A(a, b) },
			func(a, b *T) *T { return D(a, b, 0) },
			func(a, b *T) *T { return DLT(a, b, 0, true, false) },
			func(a, b *T) *T { return DLT(a, b, 1, false, true) },
			func(a, b *T) *T { return D(a, b, -1) },
			func(a, b *T) *T { return St(S(Opt(a), Rf("@")), b) },
		},
	}
}

func genC22(x *eng.Gen) {
	genMode = "gen"
	size := 3
	if x.Thorough {
		size = 4
	}
	inputs := Strings([]string{"a", "b"}, 4)
	all := genVocab().BySize(size)
	for n := 1; n <= size; n++ {
		for bi, batch := range batches(all[n], 32) {
			batch := batch
			x.Case(func() string { return fmt.Sprintf("terms of size %d batch %d: %s ...", n, bi, batch[0]) }, func(c *eng.Ctx) {
				for _, t := range batch {
					g := G(Ru("a", t), Ru("r", S(L("a"), Opt(Nm("k", L("b"))))), Ru("d", D(Nm("e", R("[ab]")), L("a"), 1))).Prepare()
					if LeftRec(g) {
						c.Outcome("skipped-left-recursive")
						continue
					}
					gencode(c, g.Text(), "a", inputs, worldExts)
					c.Sample(func() string { return g.Text() })
				}
			})
		}
	}
	genC22Strings(x)
	genC22Names(x)
	genC22Rich(x)
	genC02(x)
	genC03(x)
	genC04(x)
	genC06(x)
}

// genC22Strings puts every character, and all pairs of special ones, where a
// grammar holds text.
func genC22Strings(x *eng.Gen) {
	var strs []string
	for b := 0; b < 256; b++ {
		strs = append(strs, string([]byte{byte(b)}), string(rune(b)), "x"+string([]byte{byte(b)})+"y")
	}
	special := []string{"`", "\"", "\\", "\r", "\n", "\x00", "\ufeff", "\xff", "\u2028", "é", "x", "'", "%", "$", "{", "}", "\t", "\x7f", "𝒳", "//", "*/", "{{", "@"}
	for _, a := range special {
		for _, b := range special {
			strs = append(strs, a+b)
			if x.Thorough {
				for _, d := range special {
					strs = append(strs, a+b+d)
				}
			}
		}
	}
	quote := func(s string) string {
		var sb strings.Builder
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&sb, `\x%02x`, s[i])
		}
		return sb.String()
	}
	for bi, batch := range batches(strs, 32) {
		batch := batch
		x.Case(func() string { return fmt.Sprintf("strings batch %d: %q ...", bi, batch[0]) }, func(c *eng.Ctx) {
			for _, s := range batch {
				in := []string{s, "", s + s, "x" + s, s + "x"}
				// Escaped, so that the text of the grammar is plain.
				gencode(c, `a -> "`+quote(s)+`" b?; b -> n="`+quote(s)+`" %n="`+quote(s)+`";`, "a", in, nil)
				gencode(c, `a -> /{`+quote(s)+`}?;`, "a", in, nil)
				// As they are.
				for _, q := range []string{`'`, "\"", "`"} {
					t := s
					if q != "`" {
						t = strings.NewReplacer(`\`, `\\`, q, `\`+q).Replace(s)
					} else if strings.Contains(s, "`") || strings.Contains(s, "\\") {
						continue
					}
					gencode(c, `a -> `+q+t+q+` b?; b -> "x":`+q+t+q+`;`, "a", in, nil)
				}
				if !strings.ContainsAny(s, "\\{}") {
					gencode(c, `a -> "x" | /{[`+s+`]};`, "a", in, nil)
				}
				// In a comment.
				gencode(c, "a -> 'x'; // "+s+"\n b -> a;", "a", in, nil)
			}
		})
	}
}

// genC22Names uses names of all shapes as the names of everything.
func genC22Names(x *eng.Gen) {
	names := []string{"a", "A", "ab", "aB", "AB", "ABc", "a_b", "_a", "a_", "a1", "a1b", "a_1", "xNode", "Node", "node", "aNodeb", "type", "func", "string", "parser", "ast", "Stopper", "nodeExiter",
		"choice", "one", "all", "allX", "oneX", "walkerOps", "walk", "grammar", "parse", "from", "tree", "err", "out", "child", "c", "w", "s", "b", "ok", "fn", "n", "nil", "len", "append",
		"a.b", ".a", "IDENT", "URL_x", "getAstNode", "enter", "isWalkableType", "parseString", "scanner", "_", "__", "x9_y", "Z", "xRef", "newA"}
	for _, n := range names {
		n := n
		x.Case(func() string { return "names: " + n }, func(c *eng.Ctx) {
			in := []string{"x", "xx", "xy", "y", "xyxy", ""}
			o := "o"
			for _, text := range []string{
				`%n -> "x";`,
				`%n -> "x" "y";`,
				`%n -> "x" | "y" %n?;`,
				`%n -> "x" o; o -> %n? "y";`,
				`o -> %n; %n -> "x";`,
				`o -> %n* "z"?; %n -> "x" "y";`,
				`o -> %n="x" "y";`,
				`o -> %n=("x" "y");`,
				`o -> %n=("x" %n=("y" %n="x")?)*;`,
				`o -> %n=r "y"; r -> "x";`,
				`o -> %n="x" %%n;`,
				`o -> %n=("x" "y") %%n;`,
				`o -> %n="x"? %%n="y";`,
				`o -> "x" %%%n;`,
				`o -> %n { %n -> "x"; };`,
				`o -> %n { %n -> "x" "y"; } | %n; %n -> "y" "x";`,
				`o -> r=%n { %n -> "x"; } | r=%n; %n -> "y" "x";`,
				`%n -> @:"x" > "y";`,
				`%n -> @:o="x" > @ "x"? > "y" | "(" %n ")";`,
				`%n -> o=@:"x" > @ "x"? > "y" | "(" o=@ ")";`,
				`o -> "x":%n; %n -> "y";`,
				`o -> r:%n=("y"|"z"); r -> "x";`,
				`o -> r:%n="y"; r -> "x";`,
				`o -> %n:","; %n -> "y" "x";`,
				`.macro %n(x) { "x" x } o -> %!%n("y");`,
				`.macro M(%n) { "x" %n } o -> %!M("y");`,
			} {
				start := o
				text = strings.ReplaceAll(text, "%n", n)
				if strings.HasPrefix(text, n+" ->") {
					start = n
				}
				gencode(c, text, start, in, parser.ExternalRefs{n: worldExts["e"]})
			}
		})
	}
}

func genC22Rich(x *eng.Gen) {
	for i := range richList {
		r := &richList[i]
		x.Case(func() string { return "rich: " + r.name }, func(c *eng.Ctx) {
			dir := filepath.Join(c.Work, "rich")
			os.RemoveAll(dir)
			if err := r.write(dir); err != nil {
				panic(err)
			}
			if r.files != nil {
				// The command reads files next to the grammar.
				if err := os.WriteFile(filepath.Join(dir, "g.wbnf"), []byte(r.text), 0o644); err != nil {
					panic(err)
				}
			}
			p, err := r.compile(dir)
			if err != nil {
				c.Fail("compile", "%s: %v", r.text, err)
				return
			}
			var rules []string
			for rule := range p.Grammar() {
				if !strings.Contains(string(rule), "@") {
					rules = append(rules, string(rule))
				}
			}
			sort.Strings(rules)
			for _, rule := range rules {
				if r.files == nil {
					gencode(c, r.text, rule, r.inputs, worldExts)
					continue
				}
				src, err := genFileIn(dir, rule)
				if err != nil {
					c.Fail(r.name+" from "+rule, "%v", err)
					return
				}
				ck, err := typecheck(src)
				if err != nil {
					c.Fail(r.name+" from "+rule, "the generated code doesn't compile: %v", err)
					return
				}
				if p2, err := grammarOf(ck); err == nil {
					sameParsers(c, func(f string, args ...any) { c.Fail(r.name+" from "+rule, f, args...) }, r.name, p, p2, r.inputs, worldExts)
				} else if _, ok := err.(unsupported); !ok {
					c.Fail(r.name+" from "+rule, "%v", err)
				}
			}
		})
	}
}
