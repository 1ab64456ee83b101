package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/parser"

	"verif/mc/eng"
	. "verif/mc/gm"
	"verif/mc/im"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C29",
		Rule: "(1) all histories of up to d operations of a scope (bind a value, bind none, bind a plain key, give externals, replace the commit point with and without force, merge), each applied to any scope made so far, and histories that bind many names: " +
			"after every step the new scope and every earlier one must show exactly what a reference map says. " +
			"(2) all grammars of up to n constructors with an external at any place, run on all inputs up to length k: at every call the external must see exactly the bindings of the reference parser, with the parser that made each, and the scope it was given must still say the same when the parse is over.",
		Assumptions: []string{"the value of a replaced commit point is only required to be valid and to be what the new scope holds: it is drawn at random"},
		Gen:         genC29,
	})
}

// refScope is the reference: what a scope must show.
type refScope struct {
	vals  map[string]int // names bound, and to which value
	plain map[string]int
	exts  map[string]bool // nil: none given yet
	cut   parser.Cutpointdata
}

func (r refScope) clone() refScope {
	n := refScope{vals: map[string]int{}, plain: map[string]int{}, exts: r.exts, cut: r.cut}
	for k, v := range r.vals {
		n.vals[k] = v
	}
	for k, v := range r.plain {
		n.plain[k] = v
	}
	return n
}

type scopePair struct {
	s parser.Scope
	r refScope
}

var (
	scopeParsers = []parser.Parser{parser.ExtRef("p"), parser.ExtRef("q"), nil}
	scopeVals    = []parser.TreeElement{*parser.NewScanner("v"), parser.Node{Tag: "n", Children: []parser.TreeElement{*parser.NewScanner("w")}}, nil}
	scopeExts    = []parser.ExternalRefs{
		{"e": nil, "f": nil},
		{"g": nil},
		{},
		{"*<()>": nil, "e": nil},
	}
	scopeNames = []string{"x", "y", ""}
)

func init() {
	for _, m := range scopeExts {
		for k := range m {
			k := k
			m[k] = func(parser.Scope, *parser.Scanner) (parser.TreeElement, error) { return nil, fmt.Errorf("%s", k) }
		}
	}
}

// check compares a scope with its reference.
func (p scopePair) check() string {
	var want []string
	for k, v := range p.r.vals {
		want = append(want, k)
		if !p.s.Has(k) {
			return fmt.Sprintf("%s is not there", k)
		}
		pa, te, ok := p.s.GetVal(k)
		if !ok || pa != scopeParsers[v] || !sameElement(te, scopeVals[v]) {
			return fmt.Sprintf("%s is bound to (%v, %v, %v), not to (%v, %v)", k, pa, te, ok, scopeParsers[v], scopeVals[v])
		}
	}
	for _, k := range []string{"x", "y", "", "w"} {
		if _, has := p.r.vals[k]; has {
			continue
		}
		if p.s.Has(k) {
			return fmt.Sprintf("%q is there, and should not be", k)
		}
		if pa, te, ok := p.s.GetVal(k); ok || pa != nil || te != nil {
			return fmt.Sprintf("%q is bound, and should not be", k)
		}
	}
	text := p.s.String()
	for k, v := range p.r.plain {
		want = append(want, k)
		if !p.s.Has(k) {
			return fmt.Sprintf("key %s is not there", k)
		}
		if !strings.Contains(text, fmt.Sprintf("%s: %d", k, v)) {
			return fmt.Sprintf("key %s does not hold %d: %s", k, v, text)
		}
	}
	for _, k := range []string{"e", "f", "g", "h", "*<()>"} {
		e := p.s.GetExternal(k)
		if (e != nil) != p.r.exts[k] {
			return fmt.Sprintf("external %s: there is %v", k, e != nil)
		}
		if e != nil {
			if _, err := e(p.s, nil); err == nil || err.Error() != k {
				return fmt.Sprintf("external %s is %v", k, err)
			}
		}
	}
	if got := p.s.GetCutPoint(); got != p.r.cut {
		return fmt.Sprintf("the commit point is %v, not %v", got, p.r.cut)
	}
	// What a scope keeps for itself is under names no grammar can have.
	var got []string
	for r := p.s.Keys().Range(); r.Next(); {
		if k := r.Value(); !strings.HasPrefix(k, ".") {
			got = append(got, k)
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "|") != strings.Join(want, "|") || len(got) != len(want) {
		return fmt.Sprintf("the names are %q, not %q", got, want)
	}
	return ""
}

func sameElement(a, b parser.TreeElement) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return fmt.Sprintf("%T%v", a, a) == fmt.Sprintf("%T%v", b, b)
}

type scopeOp struct {
	name string
	run  func(p scopePair, fail func(string, ...any)) scopePair
}

func scopeOps() (ops []scopeOp) {
	bind := func(n string, v int) {
		ops = append(ops, scopeOp{fmt.Sprintf("bind(%q,%d)", n, v), func(p scopePair, _ func(string, ...any)) scopePair {
			r := p.r.clone()
			if n != "" {
				r.vals[n] = v
			}
			return scopePair{p.s.WithVal(n, scopeParsers[v], scopeVals[v]), r}
		}})
	}
	bind("x", 0)
	bind("x", 1)
	bind("y", 2)
	bind("", 0)
	for v := 0; v < 2; v++ {
		v := v
		ops = append(ops, scopeOp{fmt.Sprintf("with(k,%d)", v), func(p scopePair, _ func(string, ...any)) scopePair {
			r := p.r.clone()
			r.plain["k"] = v
			return scopePair{p.s.With("k", v), r}
		}})
	}
	for i, e := range scopeExts {
		e := e
		ops = append(ops, scopeOp{fmt.Sprintf("externals(%d)", i), func(p scopePair, _ func(string, ...any)) scopePair {
			r := p.r.clone()
			r.exts = map[string]bool{}
			for k := range e {
				r.exts[k] = true
			}
			return scopePair{p.s.WithExternals(e), r}
		}})
	}
	for _, force := range []bool{false, true} {
		force := force
		ops = append(ops, scopeOp{fmt.Sprintf("cut(%v)", force), func(p scopePair, fail func(string, ...any)) scopePair {
			r := p.r.clone()
			n, prev, repl := p.s.ReplaceCutPoint(force)
			if force || p.r.cut >= 0 {
				if prev != p.r.cut {
					fail("the previous commit point is %v, not %v", prev, p.r.cut)
				}
				if repl < 0 {
					fail("the new commit point %v is not a valid one", repl)
				}
				r.cut = repl
			} else if prev >= 0 || repl >= 0 {
				fail("there was no commit point, and none was asked for, but there are %v and %v", prev, repl)
			}
			return scopePair{n, r}
		}})
	}
	return ops
}

func mergeScopes(a, b scopePair) scopePair {
	r := a.r.clone()
	for k, v := range b.r.vals {
		r.vals[k] = v
	}
	for k, v := range b.r.plain {
		r.plain[k] = v
	}
	if b.r.exts != nil {
		r.exts = b.r.exts
	}
	if b.r.cut >= 0 {
		r.cut = b.r.cut
	}
	return scopePair{a.s.Merge(b.s), r}
}

func genC29(x *eng.Gen) {
	depth := bound(x, 4, 5)
	ops := scopeOps()
	empty := scopePair{parser.Scope{}, refScope{vals: map[string]int{}, plain: map[string]int{}, cut: -1}}

	// steps calls f with every scope one operation away from the pool.
	steps := func(pool []scopePair, path string, fail func(string, ...any), f func(scopePair, string)) {
		for i, p := range pool {
			for _, op := range ops {
				f(op.run(p, fail), fmt.Sprintf("%s; s%d=s%d.%s", path, len(pool), i, op.name))
			}
			for j, q := range pool {
				f(mergeScopes(p, q), fmt.Sprintf("%s; s%d=s%d.merge(s%d)", path, len(pool), i, j))
			}
		}
	}
	var walk func(c *eng.Ctx, pool []scopePair, path string)
	walk = func(c *eng.Ctx, pool []scopePair, path string) {
		c.States++
		for i, p := range pool {
			if d := p.check(); d != "" {
				what := "the new scope"
				if i < len(pool)-1 {
					what = fmt.Sprintf("the earlier scope s%d", i)
				}
				c.Fail(path, "%s: %s", what, d)
				return
			}
		}
		if len(pool) > depth || c.Failed() {
			return
		}
		steps(pool, path, func(f string, a ...any) { c.Fail(path, f, a...) }, func(n scopePair, np string) {
			c.Transitions++
			c.Evals++
			walk(c, append(pool[:len(pool):len(pool)], n), np)
		})
	}
	nofail := func(string, ...any) {}
	steps([]scopePair{empty}, "s0=empty", nofail, func(a scopePair, pa string) {
		steps([]scopePair{empty, a}, pa, nofail, func(b scopePair, pb string) {
			x.KCase("history "+pb, func(c *eng.Ctx) {
				// The first steps are made again: this is also where they are judged.
				c.Guard("history", func() { walk(c, []scopePair{empty, a, b}, pb) })
				c.Outcome("history")
				c.Sample(func() string { return pb })
			})
		})
	})
	x.KCase("first steps", func(c *eng.Ctx) {
		d := depth
		depth = 2
		c.Guard("history", func() { walk(c, []scopePair{empty}, "s0=empty") })
		depth = d
	})

	// Many names: each bound, then some bound again, on the way every scope is kept.
	for _, n := range []int{7, 8, 9, 16, 33, 64, 65, 130, 300} {
		n := n
		for again := 1; again <= 3; again++ {
			again := again
			x.KCase(fmt.Sprintf("names %d, every %d again", n, again), func(c *eng.Ctx) {
				c.Guard("names", func() {
					pool := []scopePair{empty}
					put := func(k string, v int) {
						p := pool[len(pool)-1]
						r := p.r.clone()
						r.vals[k] = v
						pool = append(pool, scopePair{p.s.WithVal(k, scopeParsers[v], scopeVals[v]), r})
						c.Transitions++
					}
					for i := 0; i < n; i++ {
						put(fmt.Sprintf("n%d", i), i%3)
					}
					for i := 0; i < n; i += again {
						put(fmt.Sprintf("n%d", i), (i+1)%3)
					}
					half := pool[n/2]
					pool = append(pool, mergeScopes(half, pool[len(pool)-1]), mergeScopes(pool[len(pool)-1], half))
					for i, p := range pool {
						c.States++
						c.Evals++
						if d := p.check(); d != "" {
							c.Fail(fmt.Sprintf("scope %d of %d", i, len(pool)), "%s", d)
							return
						}
					}
				})
				c.Outcome("many names")
			})
		}
	}
	genC29Views(x)
}

// genC29Views looks at what externals see.
func genC29Views(x *eng.Gen) {
	size, ilen := bound(x, 5, 6), 4
	v := &Vocab{
		Leaves: []*T{L("a"), R("[ab]"), Rf("r"), Ex("see"), BkDef("x", "b")},
		Unary: []func(*T) *T{
			func(t *T) *T { return Nm("x", t) }, func(t *T) *T { return Nm("y", t) }, Opt, Any, Lk, Cp,
		},
		Binary: []func(a, b *T) *T{
			func(a, b *T) *T { return S(a, b) },
			func(a, b *T) *T { return A(a, b) },
			func(a, b *T) *T { return D(a, b, 0) },
			func(a, b *T) *T { return D(a, b, 1) },
			func(a, b *T) *T { return Sc(a, G(Ru("r", S(Nm("y", L("b")), b)))) },
		},
	}
	inputs := Strings([]string{"a", "b"}, ilen)
	run := func(name string, g *Gram, inputs []string) {
		x.Case(func() string { return name + " " + g.Text() }, func(c *eng.Ctx) {
			g := g.Prepare()
			p, ok := compile(c, g)
			if !ok {
				return
			}
			back := g.Has(func(t *T) bool { return t.Op == Back })
			for _, in := range inputs {
				sub := fmt.Sprintf("input %q", in)
				var want []string
				m := &M{Src: in, Limit: 100000, Exts: map[string]ExtFn{"see": func(m *M, env *Env, pos int) Res {
					want = append(want, fmt.Sprintf("%d:%s", pos, viewModel(env, in)))
					return Res{OK, pos, &N{Leaf: true, Off: pos}}
				}}}
				r := m.Parse(g, "a")
				if m.GaveUp {
					continue
				}
				c.States += m.States
				c.Transitions += m.Transitions
				var got []string
				var kept []parser.Scope
				var o im.Outcome
				quiet := false
				if pv := eng.Try(func() {
					o = im.Parse(p, "a", in, parser.ExternalRefs{"see": func(s parser.Scope, i *parser.Scanner) (parser.TreeElement, error) {
						if quiet {
							return *i.Slice(0, 0), nil
						}
						kept = append(kept, s)
						got = append(got, fmt.Sprintf("%d:%s", i.Offset(), viewOf(s)))
						return *i.Slice(0, 0), nil
					}})
				}); pv != nil {
					c.Fail(sub, "parse panics: %v", pv)
					continue
				}
				c.Evals++
				c.Traces++
				if d := im.Check(o, r, in, 0); d != "" {
					c.Fail(sub, "%s", d)
					continue
				}
				if strings.Join(got, "\n") != strings.Join(want, "\n") {
					c.Fail(sub, "the external saw\n%s\nwhere the model has\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
					continue
				}
				for i, s := range kept {
					if !back {
						quiet = true
						if pv := eng.Try(func() {
							if d := reparse(s, in); d != "" {
								c.Fail(sub, "in call %d, %s", i, d)
							}
						}); pv != nil {
							c.Fail(sub, "parsing again panics: %v", pv)
						}
						quiet = false
					}
					_, was, _ := strings.Cut(got[i], ":")
					if now := viewOf(s); now != was {
						c.Fail(sub, "the scope of call %d said %q when it was called, and %q afterwards", i, was, now)
					}
				}
				c.Outcome(fmt.Sprintf("%d calls", min(len(want), 5)))
			}
			c.Sample(func() string { return g.Text() })
		})
	}
	// Bindings made on the way to a place, and those that must not reach it.
	see := Ex("see")
	ab := func() *T { return R("[ab]") }
	x1, y1 := Nm("x", ab()), Nm("y", ab())
	members := []*T{x1, y1, see, S(x1, see), Any(S(y1, see)), A(S(x1, see, L("b")), S(y1, see)), Opt(S(Lk(x1), see)), Nm("x", S(x1, y1, see)), D(S(x1, see), S(L("b"), see), 0), D(Nm("x", L("a")), S(Nm("y", L("b")), see), -1), BkDef("x", "a"), Rf("r"), Sc(S(Rf("q"), see), G(Ru("q", S(x1, see))))}
	for _, a := range members {
		for _, b := range members {
			run("members", G(Ru("a", S(a, b, see)), Ru("r", S(see, Opt(y1), see))), Strings([]string{"a", "b"}, 5))
			if x.Thorough {
				for _, d := range members {
					run("members", G(Ru("a", S(a, b, d, see)), Ru("r", S(see, Opt(y1), see))), Strings([]string{"a", "b"}, 6))
				}
			}
			run("layers", G(Ru("a", St(D(Rf("@"), a, 1), S(b, see))), Ru("r", S(see, Opt(y1), see))), Strings([]string{"a", "b"}, 5))
			run("layers", G(Ru("a", St(D(Rf("@"), S(b, see), 0), D(Rf("@"), L("b"), -1), S(a, L("a")))), Ru("r", S(see, Opt(y1), see))), Strings([]string{"a", "b"}, 5))
		}
	}
	all := v.BySize(size)
	for n := 1; n <= size; n++ {
		for _, t := range all[n] {
			if !t.Has(func(t *T) bool { return t.Op == Ext }) {
				continue
			}
			run("view", G(Ru("a", t), Ru("r", S(Nm("y", L("a")), Ex("see")))), inputs)
		}
	}
}

func viewModel(env *Env, src string) string {
	var out []string
	for _, n := range env.Names() {
		if strings.Contains(n, "@") {
			continue // how a layer is called is not said anywhere
		}
		v, _ := env.Get(n)
		out = append(out, n+"="+mleafText(v, src))
	}
	return strings.Join(out, " ")
}

func viewOf(s parser.Scope) string {
	var names, out []string
	for r := s.Keys().Range(); r.Next(); {
		if n := r.Value(); !strings.HasPrefix(n, ".") && !strings.Contains(n, "@") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		p, v, ok := s.GetVal(n)
		if !ok || !s.Has(n) {
			out = append(out, n+" not bound")
		}
		if p == nil || p.AsTerm() == nil {
			out = append(out, n+" without a parser")
		}
		out = append(out, n+"="+leafText(v))
	}
	return strings.Join(out, " ")
}

// firstLeaf tells where a value begins.
func firstLeaf(v parser.TreeElement) int {
	switch v := v.(type) {
	case parser.Scanner:
		return v.Offset()
	case parser.Node:
		for _, c := range v.Children {
			if o := firstLeaf(c); o >= 0 {
				return o
			}
		}
	}
	return -1
}

// reparse lets the parser of every binding parse what it made once more.
func reparse(s parser.Scope, in string) string {
	for r := s.Keys().Range(); r.Next(); {
		n := r.Value()
		if strings.HasPrefix(n, ".") {
			continue
		}
		p, v, _ := s.GetVal(n)
		at := firstLeaf(v)
		if at < 0 || p == nil {
			continue
		}
		var again parser.TreeElement
		if err := p.Parse(s, parser.NewScanner(in).Skip(at), &again, nil); err != nil {
			return fmt.Sprintf("the parser of %s does not take %q at %d: %v", n, leafText(v), at, err)
		}
		if leafText(again) != leafText(v) {
			return fmt.Sprintf("the parser of %s takes %q at %d, not %q", n, leafText(again), at, leafText(v))
		}
	}
	return ""
}
