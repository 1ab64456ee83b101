package main

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"

	"verif/mc/eng"
	. "verif/mc/gm"
	"verif/mc/im"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C09",
		Rule: "every term of at most n constructors over the whole grammar vocabulary written out; every layout of sample grammars with at most d gaps changed (white space, line ends, comments); " +
			"every string of up to k characters in each quote style and every numeric escape; every /{...} body up to a length over the characters that matter to its lexical rule and every pair of bare regex forms with quantifiers; " +
			"every chain of up to three quantifiers: the grammar that results must equal, term by term, the one the text denotes according to an independent reading of the documented lexical and syntactic rules, and malformed strings must be reported",
		Assumptions: []string{"commit points inserted by the compiler are ignored here (C08 decides them)"},
		Gen:         genC09,
	})
}

// readGrammar turns text into terms without validating them.
func readGrammar(text string) (g parser.Grammar, err error, pv any) {
	pv = eng.Try(func() {
		var n wbnf.GrammarNode
		n, err = wbnf.Parse(parser.NewScanner(text))
		if err == nil {
			g = wbnf.NewFromAst(n)
		}
	})
	return
}

func uncut(t parser.Term) parser.Term {
	for {
		c, ok := t.(parser.CutPoint)
		if !ok {
			return t
		}
		t = c.Term
	}
}

// termDiff compares two terms, ignoring commit points; "" means equal.
func termDiff(a, b parser.Term) string {
	a, b = uncut(a), uncut(b)
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return fmt.Sprintf("%T %v where %T %v was written", a, a, b, b)
	}
	list := func(x, y []parser.Term) string {
		if len(x) != len(y) {
			return fmt.Sprintf("%d members in %v where %d were written: %v", len(x), a, len(y), b)
		}
		for i := range x {
			if d := termDiff(x[i], y[i]); d != "" {
				return d
			}
		}
		return ""
	}
	switch x := a.(type) {
	case nil:
		return ""
	case parser.Seq:
		return list(x, b.(parser.Seq))
	case parser.Oneof:
		return list(x, b.(parser.Oneof))
	case parser.Stack:
		return list(x, b.(parser.Stack))
	case parser.Delim:
		y := b.(parser.Delim)
		if x.Assoc != y.Assoc || x.CanStartWithSep != y.CanStartWithSep || x.CanEndWithSep != y.CanEndWithSep {
			return fmt.Sprintf("%v where %v was written", a, b)
		}
		if d := termDiff(x.Term, y.Term); d != "" {
			return d
		}
		return termDiff(x.Sep, y.Sep)
	case parser.Quant:
		y := b.(parser.Quant)
		if x.Min != y.Min || x.Max != y.Max {
			return fmt.Sprintf("{%d,%d} where {%d,%d} was written", x.Min, x.Max, y.Min, y.Max)
		}
		return termDiff(x.Term, y.Term)
	case parser.Named:
		y := b.(parser.Named)
		if x.Name != y.Name {
			return fmt.Sprintf("name %q where %q was written", x.Name, y.Name)
		}
		return termDiff(x.Term, y.Term)
	case parser.LookAhead:
		return termDiff(x.Term, b.(parser.LookAhead).Term)
	case parser.REF:
		y := b.(parser.REF)
		if x.Ident != y.Ident {
			return fmt.Sprintf("%v where %v was written", a, b)
		}
		return termDiff(x.Default, y.Default)
	case parser.ScopedGrammar:
		y := b.(parser.ScopedGrammar)
		if d := termDiff(x.Term, y.Term); d != "" {
			return d
		}
		return grammarDiff(x.Grammar, y.Grammar)
	}
	if a != b {
		return fmt.Sprintf("%T %q where %q was written", a, fmt.Sprint(a), fmt.Sprint(b))
	}
	return ""
}

func grammarDiff(a, b parser.Grammar) string {
	var names []string
	for n := range b {
		names = append(names, string(n))
	}
	sort.Strings(names)
	for n := range a {
		if _, ok := b[n]; !ok {
			return fmt.Sprintf("rule %s was not written", n)
		}
	}
	for _, n := range names {
		if _, ok := a[parser.Rule(n)]; !ok {
			return fmt.Sprintf("rule %s is missing", n)
		}
		if d := termDiff(a[parser.Rule(n)], b[parser.Rule(n)]); d != "" {
			return "rule " + n + ": " + d
		}
	}
	return ""
}

// reads checks that text denotes want.
func reads(c *eng.Ctx, text string, want parser.Grammar) bool {
	c.Evals++
	c.States++
	c.Transitions += int64(len(text))
	g, err, pv := readGrammar(text)
	switch {
	case pv != nil:
		c.Fail("text "+fmt.Sprintf("%q", text), "reading the grammar panics: %v", pv)
	case err != nil:
		c.Fail("text "+fmt.Sprintf("%q", text), "grammar text is not accepted: %v", err)
	default:
		c.Traces++
		if d := grammarDiff(g, want); d != "" {
			c.Fail("text "+fmt.Sprintf("%q", text), "%s", d)
		} else {
			c.Outcome("read-as-written")
			return true
		}
	}
	return false
}

func batches[X any](xs []X, n int) [][]X {
	var out [][]X
	for len(xs) > n {
		out = append(out, xs[:n:n])
		xs = xs[n:]
	}
	if len(xs) > 0 {
		out = append(out, xs)
	}
	return out
}

func textVocab() *Vocab {
	inner := func(t *T) *T { return Sc(t, G(Ru("b", S(L("x"), Rf("b"))), Ru("c", R("[ab]")))) }
	return &Vocab{
		Leaves: []*T{L("x"), R("[ab]"), Rf("r"), Rf("@"), Bk("n"), BkDef("n", "x"), Ex("e"), S()},
		Unary: []func(*T) *T{
			Opt, Any, Some,
			func(t *T) *T { return Q(t, 2, 3) },
			func(t *T) *T { return Q(t, 0, 13) },
			func(t *T) *T { return Q(t, 12, 0) },
			func(t *T) *T { return Q(t, 1, 1) },
			func(t *T) *T { return Nm("n", t) },
			Lk, inner,
		},
		Binary: []func(a, b *T) *T{
			func(a, b *T) *T { return S(a, b) },
			func(a, b *T) *T { return A(a, b) },
			func(a, b *T) *T { return St(a, b) },
			func(a, b *T) *T { return D(a, b, 0) },
			func(a, b *T) *T { return D(a, b, 1) },
			func(a, b *T) *T { return DLT(a, b, -1, true, false) },
			func(a, b *T) *T { return DLT(a, b, 1, false, true) },
			func(a, b *T) *T { return DLT(a, b, 0, true, true) },
		},
	}
}

func genC09(x *eng.Gen) {
	// Terms.
	n, dev, slen, rlen := 4, 2, 2, 4
	if x.Thorough {
		n, dev, slen, rlen = 5, 3, 3, 5
	}
	v := textVocab()
	all := v.BySize(n)
	for k := 1; k <= n; k++ {
		for bi, b := range batches(all[k], 24) {
			b := b
			x.Case(func() string { return fmt.Sprintf("terms of size %d batch %d: %s ...", k, bi, b[0]) }, func(c *eng.Ctx) {
				g := &Gram{}
				for i, t := range b {
					g.Rules = append(g.Rules, Ru(fmt.Sprintf("r%d", i), t))
				}
				if reads(c, g.Text(), im.Grammar(g)) {
					c.OutcomeN("term", int64(len(b)))
				}
				c.Sample(func() string { return g.Text() })
			})
		}
	}
	// Wide sequences, alternatives and stacks in each other's company.
	for w := 2; w <= 6; w++ {
		w := w
		x.Case(func() string { return fmt.Sprintf("width %d", w) }, func(c *eng.Ctx) {
			var ks []*T
			for i := 0; i < w; i++ {
				ks = append(ks, L(string(rune('a'+i))))
			}
			for _, t := range []*T{S(ks...), A(ks...), St(ks...), A(S(ks...), S(ks...)), St(A(ks...), S(ks...)), St(A(S(ks...), L("z")), A(ks...), S(ks...)),
				S(A(ks...), St(ks...)), Sc(A(ks...), G(Ru("q", St(ks...)))), S(Sc(S(ks...), G(Ru("q", A(ks...)), Ru("p", L("p")))), L("z"))} {
				g := G(Ru("a", t), Ru("b", S(t, t)))
				reads(c, g.Text(), im.Grammar(g))
			}
		})
	}

	// Quantifier chains: the one written last applies first.
	type qf struct {
		text string
		f    func(*T) *T
	}
	qs := []qf{
		{"*", Any}, {"?", Opt}, {"+", Some},
		{"{2,3}", func(t *T) *T { return Q(t, 2, 3) }},
		{"{,3}", func(t *T) *T { return Q(t, 0, 3) }},
		{"{2,}", func(t *T) *T { return Q(t, 2, 0) }},
		{"{,}", func(t *T) *T { return Q(t, 0, 0) }},
		{`:","`, func(t *T) *T { return D(t, L(","), 0) }},
		{`:>","`, func(t *T) *T { return D(t, L(","), 1) }},
		{`<:","`, func(t *T) *T { return D(t, L(","), -1) }},
		{`:,",",`, func(t *T) *T { return DLT(t, L(","), 0, true, true) }},
		{`:op="p"`, func(t *T) *T { return D(t, Nm("op", L("p")), 0) }},
		{`:(b c),`, func(t *T) *T { return DLT(t, S(Rf("b"), Rf("c")), 0, false, true) }},
	}
	for _, base := range []struct {
		text string
		t    *T
	}{{`"x"`, L("x")}, {`n="x"`, Nm("n", L("x"))}, {`(b c)`, S(Rf("b"), Rf("c"))}} {
		for _, q1 := range qs {
			base, q1 := base, q1
			x.Case(func() string { return "quantifiers " + base.text + q1.text }, func(c *eng.Ctx) {
				one := q1.f(base.t)
				g := G(Ru("a", one), Ru("b", S(one, L("y"))))
				reads(c, "a -> "+base.text+q1.text+"; b -> "+base.text+q1.text+` "y";`, im.Grammar(g))
				for _, q2 := range qs {
					two := q1.f(q2.f(base.t))
					g := G(Ru("a", two))
					reads(c, "a -> "+base.text+q1.text+q2.text+";", im.Grammar(g))
					for _, q3 := range qs {
						g := G(Ru("a", q1.f(q2.f(q3.f(base.t)))))
						reads(c, "a -> "+base.text+q1.text+q2.text+q3.text+";", im.Grammar(g))
					}
				}
			})
		}
	}

	genC09Layout(x, dev)
	genC09Strings(x, slen)
	genC09Regex(x, rlen)
}

// genC09Layout varies the white space and comments of sample grammars.
func genC09Layout(x *eng.Gen, dev int) {
	type tok struct {
		s    string
		stmt bool // a statement starts here: comments are allowed before it
		glue bool // nothing may be inserted before it
		sp   bool // a space is needed before it
	}
	lex := func(s string) []tok {
		// in the samples every gap is written as a space; ~ marks a place where one is needed
		var out []tok
		for _, f := range strings.Fields(s) {
			t := tok{s: f}
			if strings.HasPrefix(f, "#") {
				t.stmt, t.s = true, f[1:]
			}
			if strings.HasPrefix(t.s, "~") {
				t.sp, t.s = true, t.s[1:]
			}
			out = append(out, t)
		}
		return out
	}
	samples := []struct {
		text string
		g    *Gram
	}{
		{`#a -> "x" b ; #b -> n = [ab]+ ;`, G(Ru("a", S(L("x"), Rf("b"))), Ru("b", Nm("n", R("[ab]+"))))},
		{`#a -> ( b | "y" ) * ~c ; #b -> /{[ab]} ;`, G(Ru("a", S(Any(A(Rf("b"), L("y"))), Rf("c"))), Ru("b", R("[ab]")))},
		{`#a -> b { 2 , 3 } :> , "," , ;`, G(Ru("a", D2(Rf("b"))))},
		{`#a -> @ : op = [-+] > @ <: "^" > "(" @ ")" > \d+ ;`, G(Ru("a", St(D(Rf("@"), Nm("op", R("[-+]")), 0), D(Rf("@"), L("^"), -1), S(L("("), Rf("@"), L(")")), R(`\d+`))))},
		{`#a -> n = "x" % n = "z" %% e (?= "y" ) ( ) ;`, G(Ru("a", S(Nm("n", L("x")), BkDef("n", "z"), Ex("e"), Lk(L("y")), S())))},
		{`#a -> b | "k" { #b -> "x" ; #c -> b ? ; } ; #.wrapRE -> "x" | /{\s*()} ;`, &Gram{
			Rules: []Rule{Ru("a", Sc(A(Rf("b"), L("k")), G(Ru("b", L("x")), Ru("c", Opt(Rf("b"))))))},
			Wrap:  &Wrap{RE: `\s*()`, Except: []*T{L("x")}}}},
	}
	spaces := []string{" ", "\n", "\t", "\r\n", " \n\f "}
	comments := []string{"// c\n", "/* c */", "//\n", "/**/", "/***//* ** / \n*/", "// a -> b;\n /* x -> \"y\" */ // \"\n", " /* é ' */\n\n"}
	for si, sm := range samples {
		toks := lex(sm.text)
		want := im.Grammar(sm.g)
		base := func() []string {
			out := make([]string, len(toks)+1)
			for i, t := range toks {
				if t.sp {
					out[i] = " "
				}
			}
			return out
		}
		build := func(gaps []string) string {
			var sb strings.Builder
			for i, t := range toks {
				sb.WriteString(gaps[i])
				sb.WriteString(t.s)
			}
			sb.WriteString(gaps[len(toks)])
			return sb.String()
		}
		alts := func(i int) []string {
			out := spaces
			if i == len(toks) || toks[i].stmt || (toks[i].s == "}" && i > 0 && toks[i-1].s == ";") {
				out = append(append([]string{}, spaces...), comments...)
			}
			return out
		}
		for i := 0; i <= len(toks); i++ {
			i := i
			x.Case(func() string { return fmt.Sprintf("layout %d gap %d", si, i) }, func(c *eng.Ctx) {
				var rec func(gaps []string, from, left int)
				rec = func(gaps []string, from, left int) {
					reads(c, build(gaps), want)
					if left == 0 || c.Failed() {
						return
					}
					for j := from; j <= len(toks); j++ {
						old := gaps[j]
						for _, a := range alts(j) {
							gaps[j] = a
							rec(gaps, j+1, left-1)
						}
						gaps[j] = old
					}
				}
				g := base()
				for _, a := range alts(i) {
					g[i] = a
					rec(g, i+1, dev-1)
				}
				c.Sample(func() string { return fmt.Sprintf("%q with up to %d gaps changed", build(base()), dev) })
			})
		}
	}
}

// D2 is b{2,3}:>,",", - the repetition applies to the list's elements last.
func D2(t *T) *T { return Q(DLT(t, L(","), 1, true, true), 2, 3) }

// unquote reads a string token; ok is false when it is malformed.
func unquote(tok string) (string, bool) {
	q := tok[0]
	body := tok[1 : len(tok)-1]
	if q == '`' {
		return strings.ReplaceAll(body, "``", "`"), utf8.ValidString(body)
	}
	var out []byte
	hex := func(n, base, i int) (uint32, bool) {
		if i+n > len(body) {
			return 0, false
		}
		var v uint32
		for _, ch := range []byte(body[i : i+n]) {
			d := strings.IndexByte("0123456789abcdef", ch|0x20)
			if ch >= '0' && ch <= '9' {
				d = int(ch - '0')
			}
			if d < 0 || d >= base {
				return 0, false
			}
			v = v*uint32(base) + uint32(d)
		}
		return v, true
	}
	for i := 0; i < len(body); i++ {
		if body[i] != '\\' {
			out = append(out, body[i])
			continue
		}
		i++
		if i >= len(body) {
			return "", false
		}
		switch ch := body[i]; {
		case ch == 'x':
			v, ok := hex(2, 16, i+1)
			if !ok {
				return "", false
			}
			out = append(out, byte(v))
			i += 2
		case ch == 'u' || ch == 'U':
			n := 4
			if ch == 'U' {
				n = 8
			}
			v, ok := hex(n, 16, i+1)
			if !ok || v > 0x10ffff || (v >= 0xd800 && v <= 0xdfff) {
				return "", false
			}
			out = utf8.AppendRune(out, rune(v))
			i += n
		case ch >= '0' && ch <= '7':
			v, ok := hex(3, 8, i)
			if !ok || v > 255 {
				return "", false
			}
			out = append(out, byte(v))
			i += 2
		default:
			k := strings.IndexByte(`abfnrtv\'"`, ch)
			if k < 0 {
				return "", false
			}
			out = append(out, "\a\b\f\n\r\t\v\\'\""[k])
		}
	}
	return string(out), utf8.Valid(out)
}

var strTok = regexp.MustCompile("^(?:\"(?:\\\\.|[^\\\\\"])*\"|'(?:\\\\.|[^\\\\'])*'|`(?:``|[^`])*`)")

func genC09Strings(x *eng.Gen, slen int) {
	alpha := []string{`\`, `"`, `'`, "`", "a", "b", "n", "t", "x", "u", "0", "4", "1", "7", " ", "\n", "\t", "é", "日", "{", "}", ";", "/", "*", "-", ">", "%", "$", "(", "�"}
	var goods []string
	check := func(c *eng.Ctx, toks []string) {
		var good []string
		want := parser.Seq{}
		for _, tk := range toks {
			m := strTok.FindString(tk)
			if m != tk {
				c.Outcome("not-one-string-token")
				continue
			}
			s, ok := unquote(tk)
			if !ok {
				// must be reported, not accepted and not a crash
				text := "a -> " + tk + ";"
				var err error
				pv := eng.Try(func() { _, err = wbnf.Compile(text, nil) })
				c.Evals++
				c.States++
				switch {
				case pv != nil:
					c.Fail("text "+fmt.Sprintf("%q", text), "a malformed string panics: %v", pv)
				case err == nil:
					c.Fail("text "+fmt.Sprintf("%q", text), "a malformed string is accepted")
				default:
					c.Outcome("malformed-string-reported")
				}
				continue
			}
			good = append(good, tk)
			want = append(want, parser.S(s))
		}
		if len(good) == 0 {
			return
		}
		good = append(good, `"end"`)
		want = append(want, parser.S("end"))
		if reads(c, "a -> "+strings.Join(good, " ")+";", parser.Grammar{"a": want}) {
			c.OutcomeN("string", int64(len(good)-1))
		}
	}
	_ = goods
	for _, q := range []string{`"`, `'`, "`"} {
		var toks []string
		for _, s := range Strings(alpha, slen) {
			toks = append(toks, q+s+q)
		}
		// escapes with something after them
		for ch := 33; ch < 127; ch++ {
			for _, rest := range []string{"", "1", "12", "123", "1234", "12345678", "g", "1g", "41g0", " "} {
				toks = append(toks, q+`\`+string(rune(ch))+rest+q, q+"a"+`\`+string(rune(ch))+rest+"b"+q)
			}
		}
		for bi, b := range batches(toks, 64) {
			b := b
			x.Case(func() string { return fmt.Sprintf("strings %s batch %d", q, bi) }, func(c *eng.Ctx) {
				check(c, b)
				c.Sample(func() string { return "string tokens " + strings.Join(b[:3], "  ") })
			})
		}
	}
	var num []string
	for i := 0; i < 256; i++ {
		num = append(num, fmt.Sprintf(`"\x%02x"`, i), fmt.Sprintf(`'\x%02X'`, i))
	}
	for i := 0; i < 512; i++ {
		num = append(num, fmt.Sprintf(`"\%03o"`, i))
	}
	for i := 0; i < 0x10000; i++ {
		if x.Thorough || i < 0x900 || i%0x100 < 3 || i%0x100 > 0xfd || (i >= 0xd7f0 && i < 0xd810) || (i >= 0xdff0 && i < 0xe010) {
			num = append(num, fmt.Sprintf(`"\u%04x"`, i))
		}
	}
	for p := 0; p <= 0x11; p++ {
		for _, lo := range []int{0, 1, 0xfffe, 0xffff, 0x41, 0xd800, 0x1f600 & 0xffff} {
			num = append(num, fmt.Sprintf(`"\U%08x"`, p<<16|lo))
		}
	}
	num = append(num, `"\U7fffffff"`, `"\Uffffffff"`, `"\U80000000"`)
	num = append(num, `"\xc3\xa9"`, `"\303\251"`, `"\xc3"`, `"\xa9\xc3"`, "\"\xff\"", "`\xc3`", "'\xe6\x97'")
	for bi, b := range batches(num, 64) {
		b := b
		x.Case(func() string { return fmt.Sprintf("numeric escapes batch %d from %q", bi, b[0]) }, func(c *eng.Ctx) { check(c, b) })
	}
	// Sequences of whole escapes, so that one cannot affect the next.
	for _, q := range []struct {
		q     string
		units []string
		n     int
	}{
		{"`", []string{"``", "a", `\`, `\n`, `"`, "\n", "é"}, slen + 2},
		{`"`, []string{`\\`, `\"`, `\'`, `\n`, `\x41`, `\101`, `\u00e9`, `\U0001f600`, "a", "`", "'", "4"}, slen + 1},
		{`'`, []string{`\\`, `\"`, `\'`, `\t`, `\x7A`, `\060`, `\u2028`, "a", "`", `"`, "1"}, slen + 1},
	} {
		var toks []string
		for _, s := range Strings(q.units, q.n) {
			toks = append(toks, q.q+s+q.q)
		}
		q := q.q
		for bi, b := range batches(toks, 64) {
			b := b
			x.Case(func() string { return fmt.Sprintf("escape sequences %s batch %d", q, bi) }, func(c *eng.Ctx) { check(c, b) })
		}
	}
	// Defaults of back-references use the same rules.
	x.KCase("defaults", func(c *eng.Ctx) {
		for _, tk := range []string{`"\x41"`, `'\u00e9"'`, "`a``b`", `"\\"`, `"\n\""`, `'\''`, `"\101"`} {
			s, _ := unquote(tk)
			reads(c, "a -> %n="+tk+" 'z';", parser.Grammar{"a": parser.Seq{parser.REF{Ident: "n", Default: parser.S(s)}, parser.S("z")}})
		}
		for _, tk := range []string{`"\q"`, `"\x4"`, `"\u12"`, `"\777"`, `'\8'`, "\"\xff\""} {
			text := `a -> n="x" %n=` + tk + ";"
			var err error
			if pv := eng.Try(func() { _, err = wbnf.Compile(text, nil) }); pv != nil {
				c.Fail(text, "panics: %v", pv)
			} else if err == nil {
				c.Fail(text, "a malformed default is accepted")
			}
		}
	})
}

// braced is the documented shape of a /{...} token, with every bracket paired:
// where an unpaired one ends depends on what follows the token.
var braced = regexp.MustCompile(`^/\{(?:\\.|\{(?:\d+(?:,\d*)?|,\d+)\}|\[(?:\\.|\[:\^?[a-z]+:\]|[^\]\[\\])(?:\\.|\[:\^?[a-z]+:\]|[^\]\[\\])*\]|[^\\{}\[\]])*\}`)

// regexText is what a regular expression token denotes.
func regexText(tok string) string {
	var sb strings.Builder
	for _, r := range tok {
		if !strings.ContainsRune(" \t\n\r\f", r) {
			sb.WriteRune(r)
		}
	}
	s := sb.String()
	if strings.HasPrefix(s, "/{") {
		s = s[2 : len(s)-1]
	}
	var out strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
			if s[i] == '_' {
				out.WriteByte(' ')
			} else {
				out.WriteByte('\\')
				out.WriteByte(s[i])
			}
			continue
		}
		out.WriteByte(s[i])
	}
	return out.String()
}

func genC09Regex(x *eng.Gen, rlen int) {
	checkToks := func(c *eng.Ctx, toks []string) {
		want := parser.Seq{}
		for _, tk := range toks {
			want = append(want, parser.RE(regexText(tk)))
		}
		want = append(want, parser.S("end"))
		if reads(c, "a -> "+strings.Join(toks, " ")+` "end";`, parser.Grammar{"a": want}) {
			c.OutcomeN("regex", int64(len(toks)))
		}
	}
	var toks []string
	for _, s := range Strings([]string{"a", `\`, "_", " ", "{", "}", "[", "]", "2", ",", "\n"}, rlen) {
		tk := "/{" + s + "}"
		if braced.FindString(tk) != tk {
			continue
		}
		// white space straight after a backslash has no documented meaning
		if strings.Contains(s, `\ `) || strings.Contains(s, "\\\n") {
			continue
		}
		toks = append(toks, tk)
	}
	for _, s := range []string{`\_`, `\\_`, `\\\_`, `\_\_\_`, `a\_\\\_b`, `[\_]`, `[^\_\\]`, `a{2}`, `a{2,}`, `a{2,3}`, `a{,3}`, `(?i:a)`, `\}`, `\{`, `[}]`, `[{}]`, `[[:alpha:]]`, `[[:^digit:]_]`, `x \_ y`, `\p{Greek}`} {
		if tk := "/{" + s + "}"; braced.FindString(tk) == tk {
			toks = append(toks, tk)
		}
	}
	for bi, b := range batches(toks, 48) {
		b := b
		x.Case(func() string { return fmt.Sprintf("braced regex batch %d from %q", bi, b[0]) }, func(c *eng.Ctx) {
			checkToks(c, b)
			c.Sample(func() string { return "regex tokens " + strings.Join(b[:3], "  ") })
		})
	}
	pieces := []string{".", "^", "$", "[a]", "[^a-b]", `[\]]`, `[\_ a]`, `[[:alpha:]_]`, `\d`, `\W`, `\s`, `\pL`, `\PN`, `\p{Greek}`, `\P{Lu}`}
	quants := []string{"", "*", "+", "?", "{2}", "{2,}", "{2,3}", "{10,12}", "*?", "+?", "??", "{2,3}?"}
	var bare []string
	for _, p := range pieces {
		for _, q := range quants {
			bare = append(bare, p+q)
		}
	}
	singles := append([]string{}, bare...)
	for bi, b := range batches(singles, 24) {
		b := b
		x.Case(func() string { return fmt.Sprintf("bare regex batch %d", bi) }, func(c *eng.Ctx) { checkToks(c, b) })
	}
	for _, p := range bare {
		p := p
		x.Case(func() string { return "bare regex pairs with " + p }, func(c *eng.Ctx) {
			var ts []string
			for _, q := range bare {
				ts = append(ts, p+q)
			}
			for _, b := range batches(ts, 48) {
				checkToks(c, b)
			}
		})
	}
}
