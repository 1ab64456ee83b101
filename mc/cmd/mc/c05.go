package main

import (
	"errors"
	"fmt"
	"regexp"
	"strings"

	"github.com/arr-ai/wbnf/parser"

	"verif/mc/eng"
	. "verif/mc/gm"
	"verif/mc/im"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C05",
		Rule: "every literal of up to two (three over metacharacters) characters drawn from all printable ASCII, control and multi-byte characters against itself, its prefixes and every one-character change; " +
			"every regular expression of up to n constructors with and without capturing groups; every wrap pattern x exemption list x terminal pair on every input up to the length bound; " +
			"match, leaf text and offset, and where the input continues must equal the reference interpreter's",
		Assumptions: []string{"Go's regexp decides what a single unwrapped regular expression matches"},
		Gen:         genC05,
	})
	eng.Register(&eng.Check{
		ID: "C06",
		Rule: "every nesting of scoped grammars of depth 1 and 2 from pools of bodies, inner rules (shadowing, aliasing, recursion, stacks, names) and outer rules, with and without wrap rules at each level, " +
			"on every input up to the length bound; tree and residue must equal the reference interpreter's lexical scoping",
		Assumptions: []string{"Go's regexp decides what a single regular expression matches"},
		Gen:         genC06,
	})
	eng.Register(&eng.Check{
		ID: "C07",
		Rule: "every term of at most n constructors over {literal, external that takes one character, nothing, fails, fails after consuming, stops, reads a binding, is missing} x {sequence, choice, delimited, ?, *, name, lookahead} on every input up to the bound, " +
			"and every such grammar with a parse escape at every position of the input; outcome, tree, propagated error value and the exact sequence of external calls (name, position, term) must equal the reference interpreter's",
		Assumptions: []string{"externals are deterministic and only consume from the front of the scanner they are given"},
		Gen:         genC07,
	})
}

func genC05(x *eng.Gen) {
	// Literals.
	var chars []string
	for c := 32; c < 127; c++ {
		chars = append(chars, string(rune(c)))
	}
	chars = append(chars, "\n", "\t", "\r", "é", "日", "\x00")
	meta := []string{`\`, `.`, `+`, `*`, `?`, `(`, `)`, `[`, `]`, `{`, `}`, `^`, `$`, `|`, `-`, "a", "\n", " "}
	lit := func(c *eng.Ctx, s string) {
		for v := 0; v < 2; v++ {
			g := G(Ru("a", L(s)))
			if v == 1 {
				g.Wrap = &Wrap{RE: `\s*()\s*`}
			}
			g.Prepare()
			p, ok := compile(c, g)
			if !ok {
				return
			}
			ins := []string{s, s + "z", "z" + s, "", s + s, strings.ToUpper(s), strings.ToLower(s), " " + s + " ", "z"}
			for i := range s {
				ins = append(ins, s[:i], s[i:], s[:i]+"z"+s[i+1:], s[:i]+"z"+s[i:])
			}
			conform{}.run(c, p, g, ins)
		}
	}
	for _, a := range chars {
		a := a
		x.Case(func() string { return fmt.Sprintf("literals starting %q", a) }, func(c *eng.Ctx) {
			lit(c, a)
			for _, b := range chars {
				lit(c, a+b)
			}
			c.Sample(func() string { return fmt.Sprintf("literal %q against itself and its one-edit neighbours", a+a) })
		})
	}
	for _, a := range meta {
		for _, b := range meta {
			a, b := a, b
			x.Case(func() string { return fmt.Sprintf("metacharacters starting %q", a+b) }, func(c *eng.Ctx) {
				for _, d := range meta {
					lit(c, a+b+d)
				}
			})
		}
	}

	// Regular expressions as text, by size.
	atoms := []string{"a", "b", "[ab]", ".", "", "$", `\n`, "[^a]"}
	bySize := [][]string{nil, atoms}
	max := 3
	if x.Thorough {
		max = 4
	}
	par := func(s string) string { return "(?:" + s + ")" }
	for n := 2; n <= max; n++ {
		var out []string
		for _, s := range bySize[n-1] {
			out = append(out, par(s)+"*", par(s)+"?", par(s)+"+?", "("+s+")", par(s)+"{2}")
		}
		for i := 1; i < n-1; i++ {
			for _, l := range bySize[i] {
				for _, r := range bySize[n-1-i] {
					out = append(out, l+r, par(l+"|"+r))
				}
			}
		}
		bySize = append(bySize, out)
	}
	rin := Strings([]string{"a", "b", "\n"}, 4)
	reCase := func(re string) {
		if _, err := regexp.Compile(re); err != nil {
			return
		}
		x.Case(func() string { return fmt.Sprintf("regex %q", re) }, func(c *eng.Ctx) {
			for v := 0; v < 4; v++ {
				var t *T
				switch v {
				case 0:
					t = R(re)
				case 1:
					t = S(R(re), Opt(L("b")))
				case 2:
					t = S(L("a"), R(re))
				case 3:
					t = Nm("n", R(re))
				}
				g := G(Ru("a", t)).Prepare()
				p, ok := compile(c, g)
				if !ok {
					return
				}
				conform{}.run(c, p, g, rin)
			}
		})
	}
	for n := 1; n <= max; n++ {
		for _, re := range bySize[n] {
			reCase(re)
		}
	}
	for _, re := range []string{"(a)(b)", "(a)|(b)", "(a)|b", "(a(b))", "(?:a)(b)", "(a)?b", "((a)|b)(b)?", "(?P<n>a)b", "(?i)A", "(?i:A)(b)", "a|b", "(a|b)|ab", "^a", "a$", `\ba`, `a\b`, "(?s).", "(?-m)a$", `\x61`, `[[:alpha:]]`, `\pL`, "(a*)(b*)", "(a*?)(b+)", "a(b)(a)(b)", "(b)?(a)", "()a", "a()", "(|a)"} {
		reCase(re)
	}

	// Wrapping.
	wraps := []string{`\s*()\s*`, `()\s*`, `\s*()`, `-*()-*`, `\s+()`, `()`}
	excepts := [][]*T{nil, {L("a")}, {R("[ab]")}, {L("a"), R("b*")}, {R("a")}, {L("b"), L("-"), R("[ab]")}}
	terms := []*T{L("a"), L("b"), R("[ab]"), R("b*"), R("(a)b?"), L("-"), R("[a ]+"), L(" a"), R(`.`)}
	if x.Thorough {
		terms = append(terms, L("ab"), R("a|b"), R("a?"), R("(a)|(b)"), L(""))
	}
	win := Strings([]string{"a", "b", " ", "-"}, 4)
	if x.Thorough {
		win = Strings([]string{"a", "b", " ", "-"}, 5)
	}
	for _, w := range wraps {
		for ei, ex := range excepts {
			for _, t1 := range terms {
				w, ex, t1 := w, ex, t1
				x.Case(func() string { return fmt.Sprintf("wrap %q exempt %d first %s", w, ei, t1) }, func(c *eng.Ctx) {
					for _, t2 := range terms {
						for k, t := range []*T{S(t1, t2), A(t1, t2), D(t1, t2, 0), S(Nm("x", t1), Bk("x"), Opt(t2)), S(Lk(t1), t2), S(Nm("x", Any(t1)), Opt(S(t2, BkDef("y", "a"))))} {
							if k == 2 && t2.Op == Re && t1.Op == Re {
								continue
							}
							g := G(Ru("a", t))
							g.Wrap = &Wrap{RE: w, Except: ex}
							g.Prepare()
							p, ok := compile(c, g)
							if !ok {
								return
							}
							conform{}.run(c, p, g, win)
						}
					}
				})
			}
		}
	}
}

func genC06(x *eng.Gen) {
	inputs := Strings([]string{"a", "b", "c"}, lead(bound(x, 4, 5)))
	winputs := Strings([]string{"a", "b", " "}, bound(x, 5, 6))
	at := Rf("@")
	bodies := []*T{Rf("b"), S(Rf("b"), Rf("c")), A(S(Rf("c"), Rf("b")), Rf("b")), Any(Rf("b")), Nm("n", Rf("b")), D(Rf("b"), Rf("c"), 0), S(Opt(L("a")), Rf("b")), Lk(Rf("c")), S(Nm("x", Rf("b")), Nm("y", Opt(Rf("c"))))}
	inner := [][]Rule{
		{Ru("b", L("a"))},
		{Ru("b", S(L("a"), Opt(Rf("b"))))},
		{Ru("b", Rf("c"))},          // alias to outer or sibling
		{Ru("b", Nm("m", Rf("c")))}, // named reference to outer
		{Ru("b", L("b")), Ru("c", S(L("c"), Opt(Rf("b"))))},
		{Ru("c", A(L("a"), L("b")))},        // only c shadowed
		{Ru("c", Rf("b")), Ru("d", L("c"))}, // inner alias to outer b
		{Ru("b", S(Rf("o"), Opt(Rf("c"))))}, // uses outer o
		{Ru("b", A(Rf("d"), L("b"))), Ru("d", S(L("a"), Rf("c")))},
		{Ru("b", St(D(at, L("c"), 0), A(L("a"), S(L("b"), Rf("b")))))},
		{Ru("d", L("a"))}, // nothing the body uses
		{Ru("b", Opt(L("c")))},
		{Ru("b", Lk(L("a"))), Ru("c", R("[ac]"))},
	}
	outer := [][]Rule{
		{Ru("b", L("b")), Ru("c", L("c"))},
		{Ru("b", S(L("c"), Opt(L("a")))), Ru("c", A(L("b"), S(L("a"), Rf("b"))))},
		{Ru("b", Rf("c")), Ru("c", Nm("k", L("a")))},
		{Ru("b", Nm("k", Rf("c"))), Ru("c", R("[bc]"))},
		{Ru("b", Sc(Rf("c"), G(Ru("c", S(L("a"), Opt(Rf("o"))))))), Ru("c", L("b"))},
	}
	ctxs := []func(*T) *T{
		func(t *T) *T { return t },
		func(t *T) *T { return S(t, Opt(Rf("b"))) },
		func(t *T) *T { return A(S(t, L("a")), Rf("c"), t) },
		func(t *T) *T { return Nm("z", t) },
		func(t *T) *T { return Any(t) },
		func(t *T) *T { return D(t, Rf("c"), 0) },
		func(t *T) *T { return S(Nm("z", t), Rf("c")) },
	}
	run := func(c *eng.Ctx, g *Gram, ins []string) bool {
		g = g.Clone().Prepare()
		if LeftRec(g) {
			c.Outcome("skipped-left-recursive")
			return true
		}
		p, ok := compile(c, g)
		if !ok {
			return false
		}
		conform{memo: true}.run(c, p, g, ins)
		return !c.Failed()
	}
	for bi, body := range bodies {
		for ii, in := range inner {
			for oi, out := range outer {
				body, in, out := body, in, out
				x.Case(func() string { return fmt.Sprintf("body %d inner %d outer %d", bi, ii, oi) }, func(c *eng.Ctx) {
					for _, cx := range ctxs {
						rules := append([]Rule{Ru("a", cx(Sc(body, G(in...)))), Ru("o", L("b"))}, out...)
						g := G(rules...)
						c.Sample(func() string { return g.Text() })
						if !run(c, g, inputs) {
							c.Fail("grammar", "%s", g.Text())
							return
						}
					}
					// one wrap outside, inherited; one inside, overriding
					for w := 0; w < 4; w++ {
						ig := G(in...)
						if w&1 != 0 {
							ig.Wrap = &Wrap{RE: `[ ]*()`}
						}
						g := G(append([]Rule{Ru("a", S(Sc(body, ig), Opt(Rf("b")))), Ru("o", L("b"))}, out...)...)
						if w&2 != 0 {
							g.Wrap = &Wrap{RE: `()\s*`}
						}
						if !run(c, g, winputs) {
							c.Fail("grammar", "%s", g.Text())
							return
						}
					}
				})
			}
		}
	}
	// Depth two: the middle scope shadows some names, the innermost others.
	for i1, in1 := range inner {
		for i2, in2 := range inner {
			in1, in2 := in1, in2
			x.Case(func() string { return fmt.Sprintf("depth two %d %d", i1, i2) }, func(c *eng.Ctx) {
				for _, body := range bodies[:7] {
					mid := append([]Rule{Ru("m", Sc(body, G(in2...)))}, in1...)
					for k := 0; k < 3; k++ {
						rules := []Rule{Ru("a", S(Sc(Rf("m"), G(mid...)), Opt(Rf("c")))), Ru("o", L("b"))}
						if k == 2 {
							rules[0] = Ru("a", Sc(S(Rf("m"), Opt(Rf("b"))), G(mid...)))
						}
						g := G(append(rules, outer[k]...)...)
						if !run(c, g, inputs) {
							c.Fail("grammar", "%s", g.Text())
							return
						}
					}
				}
			})
		}
	}
	// Sibling scopes do not see each other, and reuse the same inner names.
	for i1, in1 := range inner {
		for i2, in2 := range inner {
			in1, in2 := in1, in2
			x.Case(func() string { return fmt.Sprintf("siblings %d %d", i1, i2) }, func(c *eng.Ctx) {
				for _, body := range bodies[:4] {
					g := G(append([]Rule{Ru("a", S(Rf("p"), Rf("q"), Opt(Rf("b")))), Ru("p", Sc(body, G(in1...))), Ru("q", Sc(body, G(in2...))), Ru("o", L("b"))}, outer[0]...)...)
					if !run(c, g, inputs) {
						c.Fail("grammar", "%s", g.Text())
						return
					}
				}
			})
		}
	}
}

type stopErr struct{}

func (stopErr) Error() string { return "stop requested" }
func (stopErr) IsStopError()  {}

// extCall records one call of an external parser.
type extCall struct {
	name string
	pos  int
	term string
}

type extWorld struct {
	calls  []extCall
	mcalls []extCall
}

var errPlain = errors.New("external says no")

func (w *extWorld) impl() parser.ExternalRefs {
	take := func(name string, f func(scope parser.Scope, in *parser.Scanner) (parser.TreeElement, error)) parser.ExternalRef {
		return func(scope parser.Scope, in *parser.Scanner) (parser.TreeElement, error) {
			w.calls = append(w.calls, extCall{name: name, pos: in.Offset()})
			return f(scope, in)
		}
	}
	return parser.ExternalRefs{
		"one": take("one", func(_ parser.Scope, in *parser.Scanner) (parser.TreeElement, error) {
			if in.String() == "" {
				return nil, errPlain
			}
			var e parser.Scanner
			in.Eat(1, &e)
			return parser.Node{Tag: "one", Children: []parser.TreeElement{e}}, nil
		}),
		"zero": take("zero", func(_ parser.Scope, in *parser.Scanner) (parser.TreeElement, error) {
			return *in.Slice(0, 0), nil
		}),
		"fail": take("fail", func(_ parser.Scope, in *parser.Scanner) (parser.TreeElement, error) { return nil, errPlain }),
		"bite": take("bite", func(_ parser.Scope, in *parser.Scanner) (parser.TreeElement, error) {
			if in.String() != "" {
				*in = *in.Skip(1)
			}
			return nil, errPlain
		}),
		"stop": take("stop", func(_ parser.Scope, in *parser.Scanner) (parser.TreeElement, error) { return nil, stopErr{} }),
		"val": take("val", func(scope parser.Scope, in *parser.Scanner) (parser.TreeElement, error) {
			_, v, ok := scope.GetVal("x")
			if !ok {
				return nil, errPlain
			}
			text := leafText(v)
			var e parser.Scanner
			if !in.EatString(text, &e) {
				return nil, errPlain
			}
			return e, nil
		}),
	}
}

func leafText(v parser.TreeElement) string {
	switch v := v.(type) {
	case parser.Scanner:
		return v.String()
	case parser.Node:
		s := ""
		for _, c := range v.Children {
			s += leafText(c)
		}
		return s
	}
	return ""
}

func mleafText(n *N, src string) string {
	if n.Leaf {
		return src[n.Off : n.Off+n.Len]
	}
	s := ""
	for _, k := range n.Kids {
		s += mleafText(k, src)
	}
	return s
}

func (w *extWorld) model() map[string]ExtFn {
	take := func(name string, f ExtFn) ExtFn {
		return func(m *M, env *Env, pos int) Res {
			w.mcalls = append(w.mcalls, extCall{name: name, pos: pos})
			return f(m, env, pos)
		}
	}
	leaf := func(off, n int) *N { return &N{Leaf: true, Off: off, Len: n} }
	return map[string]ExtFn{
		"one": take("one", func(m *M, _ *Env, pos int) Res {
			if pos == len(m.Src) {
				return Res{St: Fail}
			}
			return Res{OK, pos + 1, &N{Tag: "one", Kids: []*N{leaf(pos, 1)}}}
		}),
		"zero": take("zero", func(m *M, _ *Env, pos int) Res { return Res{OK, pos, leaf(pos, 0)} }),
		"fail": take("fail", func(m *M, _ *Env, pos int) Res { return Res{St: Fail} }),
		"bite": take("bite", func(m *M, _ *Env, pos int) Res { return Res{St: Fail} }),
		"stop": take("stop", func(m *M, _ *Env, pos int) Res { return Res{St: Stop} }),
		"val": take("val", func(m *M, env *Env, pos int) Res {
			v, ok := env.Get("x")
			if !ok {
				return Res{St: Fail}
			}
			s := mleafText(v, m.Src)
			if !strings.HasPrefix(m.Src[pos:], s) {
				return Res{St: Fail}
			}
			return Res{OK, pos + len(s), leaf(pos, len(s))}
		}),
	}
}

func callsEqual(a, b []extCall) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) {
			return fmt.Sprintf("missing call %d: %v", i, b[i])
		}
		if i >= len(b) {
			return fmt.Sprintf("extra call %d: %v", i, a[i])
		}
		if a[i].name != b[i].name || a[i].pos != b[i].pos || !strings.HasPrefix(a[i].term, b[i].term) {
			return fmt.Sprintf("call %d is %v, model has %v", i, a[i], b[i])
		}
	}
	return ""
}

func genC07(x *eng.Gen) {
	size, ilen := 5, 4
	if x.Thorough {
		size, ilen = 6, 4
	}
	bin := []func(a, b *T) *T{
		func(a, b *T) *T { return S(a, b) },
		func(a, b *T) *T { return A(a, b) },
		func(a, b *T) *T { return D(a, b, 0) },
	}
	v := &Vocab{
		Leaves: []*T{L("a"), L("b"), Ex("one"), Ex("zero"), Ex("fail"), Ex("bite"), Ex("stop"), Ex("val"), Ex("miss")},
		Unary: []func(*T) *T{
			func(t *T) *T { return Nm("x", t) }, Opt, Any, Lk,
		},
		Binary: bin,
	}
	inputs := Strings([]string{"a", "b"}, ilen)
	all := v.BySize(size)
	for n := 1; n <= size; n++ {
		for _, t := range all[n] {
			if !t.Has(func(t *T) bool { return t.Op == Ext }) {
				continue
			}
			t := t
			x.Case(func() string { return "external " + t.String() }, func(c *eng.Ctx) {
				g := G(Ru("a", t)).Prepare()
				p, ok := compile(c, g)
				if !ok {
					return
				}
				for _, in := range inputs {
					w := &extWorld{}
					m := &M{Src: in, Exts: w.model(), Limit: 100000}
					r := m.Parse(g, "a")
					c.States += m.States
					c.Transitions += m.Transitions
					sub := fmt.Sprintf("input %q", in)
					var o im.Outcome
					if pv := eng.Try(func() { o = im.Parse(p, "a", in, w.impl()) }); pv != nil {
						c.Fail(sub, "parse panics: %v", pv)
						continue
					}
					c.Evals++
					c.Traces++
					if d := im.Check(o, r, in, 0); d != "" {
						c.Fail(sub, "%s", d)
					}
					if d := callsEqual(w.calls, w.mcalls); d != "" {
						c.Fail(sub, "external calls differ: %s", d)
					}
					if r.St == Stop {
						if _, ok := o.Err.(stopErr); !ok {
							c.Fail(sub, "the stop request did not come back unchanged: %T", o.Err)
						}
					} else if _, ok := o.Err.(stopErr); ok {
						c.Fail(sub, "a stop request came back that nobody made")
					}
					if o.Err != nil && r.St != Stop {
						if pv := eng.Try(func() { _ = o.Err.Error() }); pv != nil {
							c.Fail(sub, "error text panics: %v", pv)
						}
					}
					c.Outcome(r.St.String())
				}
				c.Sample(func() string { return g.Text() })
			})
		}
	}

	// Parse escapes.
	ev := &Vocab{
		Leaves: []*T{L("a"), R("[ab]"), Rf("r"), Ex("one"), Ex("miss"), BkDef("x", "b")},
		Unary: []func(*T) *T{
			func(t *T) *T { return Nm("x", t) }, Opt, Any, Lk,
		},
		Binary: append(bin, func(a, b *T) *T { return DLT(a, b, 1, true, true) }),
	}
	eins := Strings([]string{"a", "b", "<e>"}, 3)
	eins = append(eins, "<", "<e", "<>", "<f>", "a<f>", "<ee>", "<e>>", "a<e", "<u>a", "a<u>", "<s>", "ab<e>ab", "a<e>a<e>", "b<e>b<e>b")
	for n := 1; n <= size; n++ {
		for _, t := range ev.BySize(size)[n] {
			t := t
			if n == size && !x.Thorough && len(t.Kids) == 1 {
				continue
			}
			x.Case(func() string { return "escape " + t.String() }, func(c *eng.Ctx) {
				g := G(Ru("a", t), Ru("r", L("a"))).Prepare()
				p, ok := compile(c, g)
				if !ok {
					return
				}
				for _, in := range eins {
					w := &extWorld{}
					mex := w.model()
					esc := &Escape{Open: "<", Close: ">", Fn: func(m *M, t *T, pos int) Res {
						w.mcalls = append(w.mcalls, extCall{"*", pos, im.Term(t).String()})
						rest := m.Src[pos:]
						switch {
						case strings.HasPrefix(rest, "f"):
							return Res{St: Fail}
						case strings.HasPrefix(rest, "s"):
							return Res{St: Stop}
						case strings.HasPrefix(rest, "u"):
							return Res{OK, pos + 1, &N{Leaf: true, Off: pos, Len: 1}}
						}
						k := 0
						for k < len(rest) && rest[k] == 'e' {
							k++
						}
						return Res{OK, pos + k, &N{Tag: "esc", Kids: []*N{{Leaf: true, Off: pos, Len: k}}}}
					}}
					m := &M{Src: in, Exts: mex, Limit: 100000, Esc: esc}
					r := m.Parse(g, "a")
					c.States += m.States
					c.Transitions += m.Transitions
					if m.Unsure {
						c.Outcome("reference-to-an-escape")
						continue
					}
					exts := w.impl()
					exts["*<()>"] = func(scope parser.Scope, s *parser.Scanner) (parser.TreeElement, error) {
						term := ""
						if tv, ok := scopeValue(scope, "(term)"); ok {
							term = tv
						}
						w.calls = append(w.calls, extCall{"*", s.Offset(), term})
						rest := s.String()
						switch {
						case strings.HasPrefix(rest, "f"):
							return nil, errPlain
						case strings.HasPrefix(rest, "s"):
							return nil, stopErr{}
						case strings.HasPrefix(rest, "u"):
							// a nested parse that stopped early
							var e parser.Scanner
							left := *s
							left.Eat(1, &e)
							return nil, parser.UnconsumedInput(left, e)
						}
						k := 0
						for k < len(rest) && rest[k] == 'e' {
							k++
						}
						var e parser.Scanner
						s.Eat(k, &e)
						return parser.Node{Tag: "esc", Children: []parser.TreeElement{e}}, nil
					}
					sub := fmt.Sprintf("input %q", in)
					var o im.Outcome
					if pv := eng.Try(func() { o = im.Parse(p, "a", in, exts) }); pv != nil {
						c.Fail(sub, "parse panics: %v", pv)
						continue
					}
					c.Evals++
					c.Traces++
					if d := im.Check(o, r, in, 0); d != "" {
						c.Fail(sub, "%s", d)
					}
					if d := callsEqual(w.calls, w.mcalls); d != "" {
						c.Fail(sub, "external calls differ: %s", d)
					}
					if r.St == Stop {
						if _, ok := o.Err.(stopErr); !ok {
							c.Fail(sub, "the stop request did not come back unchanged: %T", o.Err)
						}
					}
					c.Outcome("escape-" + r.St.String())
				}
			})
		}
	}
}

// scopeValue reads a named value out of a scope through its printed form.
func scopeValue(s parser.Scope, name string) (string, bool) {
	if !s.Has(name) {
		return "", false
	}
	t := s.String()
	i := strings.Index(t, name+": ")
	if i < 0 {
		return t, true
	}
	return t[i+len(name)+2:], true
}
