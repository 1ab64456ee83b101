package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/wbnf/parser"

	"verif/mc/eng"
	. "verif/mc/gm"
	"verif/mc/im"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C01",
		Rule: "every term of at most n constructors over {literal, regex, nullable regex, rule} x {sequence, choice, ?, *, +, {2,3}, {1,2}, name, lookahead}, " +
			"every two-rule recursive grammar up to the bound, and parameter families (repetition bounds, arities, multi-byte text, windows into a larger source), " +
			"each on every input over a two-letter alphabet up to the length bound; the outcome (accept, reject, residue) and the whole tree with offsets must equal the reference interpreter's",
		Assumptions: []string{"Go's regexp decides what a single regular expression matches", "the reference interpreter in /verif/mc/gm states the documented semantics"},
		Gen:         genC01,
	})
}

func coreVocab() *Vocab {
	return &Vocab{
		Leaves: []*T{L("a"), L("b"), R("[ab]"), R("a*"), Rf("r")},
		Unary: []func(*T) *T{
			Opt, Any, Some,
			func(t *T) *T { return Q(t, 2, 3) },
			func(t *T) *T { return Nm("n", t) },
			Lk,
		},
		Binary: []func(a, b *T) *T{
			func(a, b *T) *T { return S(a, b) },
			func(a, b *T) *T { return A(a, b) },
		},
	}
}

func genC01(x *eng.Gen) {
	size, ilen := lead(bound(x, 5, 6)), bound(x, 5, 6)
	inputs := Strings([]string{"a", "b"}, ilen)
	aux := Ru("r", S(L("a"), Opt(L("b"))))
	all := coreVocab().BySize(size)
	for n := 1; n <= size; n++ {
		for _, t := range all[n] {
			t := t
			x.Case(func() string { return "term " + t.String() }, func(c *eng.Ctx) {
				g := G(Ru("a", t), aux).Prepare()
				p, ok := compile(c, g)
				if !ok {
					return
				}
				conform{memo: true}.run(c, p, g, inputs)
				c.Sample(func() string { return g.Text() + " on all strings over {a,b} up to length " + fmt.Sprint(ilen) })
			})
		}
	}

	// Recursive grammars: a and b refer to themselves and each other.
	rv := &Vocab{
		Leaves: []*T{L("a"), L("b"), Rf("a"), Rf("b")},
		Unary:  []func(*T) *T{Opt, Any, func(t *T) *T { return Nm("n", t) }},
		Binary: []func(a, b *T) *T{
			func(a, b *T) *T { return S(a, b) },
			func(a, b *T) *T { return A(a, b) },
		},
	}
	rs, bs := 4, 3
	if x.Thorough {
		rs, bs = 5, 3
	}
	rall := rv.BySize(rs)
	var as, bsT []*T
	for n := 2; n <= rs; n++ {
		as = append(as, rall[n]...)
	}
	for n := 1; n <= bs; n++ {
		bsT = append(bsT, rall[n]...)
	}
	short := Strings([]string{"a", "b"}, 4)
	for _, ta := range as {
		if !ta.Has(func(t *T) bool { return t.Op == Ref }) {
			continue
		}
		ta := ta
		x.Case(func() string { return "recursive a -> " + ta.String() }, func(c *eng.Ctx) {
			for _, tb := range bsT {
				g := G(Ru("a", ta), Ru("b", tb)).Prepare()
				if LeftRec(g) {
					c.Outcome("skipped-left-recursive")
					continue
				}
				p, ok := compile(c, g)
				if !ok {
					return
				}
				conform{memo: true}.run(c, p, g, short)
				if c.Failed() {
					return
				}
			}
		})
	}

	// Repetition bounds.
	for min := 0; min <= 5; min++ {
		for max := 0; max <= 6; max++ {
			if max > 0 && max < min {
				continue
			}
			for i, el := range []*T{L("a"), R("[ab]"), S(L("a"), L("b")), A(L("ab"), L("a")), Opt(L("a")), R("a*"), Nm("n", L("a")), Lk(L("a")), Rf("r"), Opt(S(L("a"), L("b")))} {
				min, max, el := min, max, el
				x.Case(func() string { return fmt.Sprintf("bounds {%d,%d} of %d", min, max, i) }, func(c *eng.Ctx) {
					for _, ctx := range []func(*T) *T{
						func(t *T) *T { return t },
						func(t *T) *T { return S(t, L("b")) },
						func(t *T) *T { return S(L("b"), t) },
						func(t *T) *T { return A(t, L("aa")) },
						func(t *T) *T { return Nm("q", t) },
						func(t *T) *T { return S(Nm("q", t), Opt(L("a"))) },
						func(t *T) *T { return Q(t, 2, 2) },
						func(t *T) *T { return A(S(t, L("b")), t) },
					} {
						g := G(Ru("a", ctx(Q(el, min, max))), aux).Prepare()
						p, ok := compile(c, g)
						if !ok {
							return
						}
						ins := append([]string{}, inputs...)
						for k := 6; k <= 8; k++ {
							ins = append(ins, strings.Repeat("a", k), strings.Repeat("a", k)+"b", strings.Repeat("ab", k))
						}
						conform{memo: true}.run(c, p, g, ins)
					}
				})
			}
		}
	}

	// Arity: sequences and choices of up to 6 members, overlapping literals in
	// every order.
	lits := []string{"a", "ab", "abb", "b", "ba", ""}
	maxAr := 5
	if x.Thorough {
		maxAr = 6
	}
	longer := Strings([]string{"a", "b"}, 6)
	var perm func(cur []string, left []string)
	perm = func(cur []string, left []string) {
		if len(cur) >= 2 {
			ms := append([]string(nil), cur...)
			x.Case(func() string { return fmt.Sprintf("members %q", ms) }, func(c *eng.Ctx) {
				mk := func() []*T {
					var k []*T
					for _, s := range ms {
						k = append(k, L(s))
					}
					return k
				}
				for _, t := range []*T{A(mk()...), S(mk()...), S(A(mk()...), Opt(L("b"))), Any(A(append(mk()[:len(ms)-1], L("a"))...)), A(S(mk()...), A(mk()...))} {
					if t.Op == Rep && t.Has(func(t *T) bool { return t.Op == Str && t.S == "" }) {
						// still fine: an iteration without progress ends it
						_ = t
					}
					g := G(Ru("a", t)).Prepare()
					p, ok := compile(c, g)
					if !ok {
						return
					}
					conform{memo: true}.run(c, p, g, longer)
				}
			})
		}
		if len(cur) == maxAr {
			return
		}
		for i, l := range left {
			rest := append(append([]string(nil), left[:i]...), left[i+1:]...)
			perm(append(cur, l), rest)
		}
	}
	perm(nil, lits)

	// Rule aliases and naming in chains: a -> b; b -> c; and names around rules.
	for depth := 1; depth <= 4; depth++ {
		for i, last := range []*T{L("a"), S(L("a"), L("b")), A(L("a"), L("b")), Any(L("a")), Nm("n", L("a")), Lk(L("a")), Nm("n", S(L("a"), L("b"))), R("a(b)?"), D(L("a"), L("b"), 0)} {
			for w := 0; w < 8; w++ {
				depth, last, w := depth, last, w
				x.Case(func() string { return fmt.Sprintf("alias chain %d to %d in %d", depth, i, w) }, func(c *eng.Ctx) {
					var rules []Rule
					for d := 0; d < depth; d++ {
						rules = append(rules, Ru(fmt.Sprintf("r%d", d), Rf(fmt.Sprintf("r%d", d+1))))
					}
					rules = append(rules, Ru(fmt.Sprintf("r%d", depth), last))
					top := Rf("r0")
					switch w {
					case 1:
						top = Nm("x", top)
					case 2:
						top = S(Rf("r0"), Opt(Rf("r0")))
					case 3:
						top = A(L("bb"), Rf("r0"))
					case 4:
						top = S(Nm("x", Rf("r0")), Nm("y", Opt(Rf("r0"))))
					case 5:
						top = Nm("x", Nm("y", S(Rf("r0"), Opt(L("b")))))
					case 6:
						top = Lk(Rf("r0"))
					case 7:
						top = D(Rf("r0"), Rf("r0"), 0)
					}
					g := G(append(rules, Ru("a", top))...).Prepare()
					p, ok := compile(c, g)
					if !ok {
						return
					}
					for _, rule := range []string{"a", "r0", fmt.Sprintf("r%d", depth)} {
						conform{memo: true, rule: rule}.run(c, p, g, short)
					}
				})
			}
		}
	}

	// Multi-byte text.
	uv := []*T{
		S(L("é"), R("."), Opt(L("日"))), Any(A(L("日本"), L("日"), L("é"))), R("[é日]+"), S(R("."), R(".")),
		Some(S(L("日"), Opt(R("é")))), S(Lk(L("é")), R(".")), D(R("[日é]"), L(","), 0), A(S(L("日"), L("本")), S(L("日"), R("."))),
		Nm("n", S(Any(L("é")), Nm("k", R("日?")))),
	}
	uin := Strings([]string{"é", "日", "本", ",", "x"}, 4)
	for i, t := range uv {
		t := t
		x.Case(func() string { return fmt.Sprintf("utf8 %d", i) }, func(c *eng.Ctx) {
			g := G(Ru("a", t)).Prepare()
			p, ok := compile(c, g)
			if !ok {
				return
			}
			conform{memo: true}.run(c, p, g, uin)
		})
	}

	// The same parse inside every window of a larger source: offsets shift, text
	// outside the window is never looked at.
	wv := []*T{
		S(L("a"), Opt(L("b"))), Any(L("a")), A(L("ab"), L("a")), R("[ab]*"), S(R("a*"), L("b")), D(L("a"), L("b"), 0),
		S(Lk(L("a")), R("[ab]")), S(Nm("n", L("a")), Some(R("[ab]"))), Q(L("a"), 1, 2), S(L("a"), Rf("r")), A(L("b"), S()), R("a$"), R("^a"),
	}
	for i, t := range wv {
		t := t
		x.Case(func() string { return fmt.Sprintf("window %d", i) }, func(c *eng.Ctx) {
			g := G(Ru("a", t), aux).Prepare()
			p, ok := compile(c, g)
			if !ok {
				return
			}
			for _, src := range Strings([]string{"a", "b"}, 5) {
				for i := 0; i <= len(src); i++ {
					for j := i; j <= len(src); j++ {
						w := src[i:j]
						m := &M{Src: w, Memo: true}
						r := m.Parse(g, "a")
						c.States += m.States
						c.Transitions += m.Transitions
						for k, s := range []*parser.Scanner{
							parser.NewScannerAt(src, i, j-i),
							parser.NewScanner(src).Slice(i, j),
							parser.NewScannerAt(src, i, len(src)-i).Slice(0, j-i),
							parser.NewScannerAt(src, 0, j).Skip(i),
						} {
							o := im.ParseScanner(p, "a", s, nil)
							c.Evals++
							c.Traces++
							if d := im.Check(o, r, w, i); d != "" {
								c.Fail(fmt.Sprintf("source %q window %d..%d via %d", src, i, j, k), "%s", d)
							}
						}
					}
				}
			}
		})
	}
}
