package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"

	"verif/mc/eng"
	. "verif/mc/gm"
	"verif/mc/im"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C12",
		Rule: "every sequence of tokens over a vocabulary of 32 (rules, names, literals, operators, brackets, bounds, macros, references, comments) up to a bound, placed as the body of a rule, as a scoped rule, as a macro argument, as a macro body, and as a whole grammar: " +
			"a hand-written reader of the documented syntax and a separate validator decide whether it is malformed or breaks a documented rule (unknown reference, rule or macro defined twice, name that is a rule or is used twice in a sequence, bounds the wrong way round, unknown macro or wrong number of arguments, macro needing itself, misplaced stack, unbounded left recursion); " +
			"the compiler must refuse exactly those, with an error and not a panic, and read the others as the terms they denote",
		Assumptions: []string{"names inside scoped grammars are documented as not checked: either verdict is allowed when the only offence is such a name"},
		Gen:         genC12,
	})
}

// rd reads a token sequence the way the documentation describes.
type rd struct {
	t       []string
	p       int
	bad     bool // not grammatical
	invalid bool // breaks a rule of validity
	names   []nameUse
	macros  []Macro
	mscoped map[string]bool
	scope   int
	unsure  bool
	params  []string
}

type nameUse struct {
	name   string
	scoped bool
	dup    bool
	params []string
}

type syntaxBad struct{}

func (r *rd) peek(i int) string {
	if r.p+i < len(r.t) {
		return r.t[r.p+i]
	}
	return ""
}

func (r *rd) take(s string) {
	if r.peek(0) != s {
		panic(syntaxBad{})
	}
	r.p++
}

func isIdent(s string) bool {
	return s == "@" || (s != "" && (s[0] == '.' && len(s) > 1 || 'a' <= s[0] && s[0] <= 'z' || 'A' <= s[0] && s[0] <= 'Z'))
}

func (r *rd) ident() string {
	s := r.peek(0)
	if !isIdent(s) {
		panic(syntaxBad{})
	}
	r.p++
	return s
}

func (r *rd) grammar() *Gram {
	g := &Gram{}
	seen := map[string]bool{}
	n := 0
	for ; ; n++ {
		switch s := r.peek(0); {
		case s == "/*c*/":
			r.p++
			continue
		case s == ".macro" && r.peek(1) != "->":
			r.macro()
			continue
		case isIdent(s) && r.peek(1) == "->":
			r.p += 2
			var ts []*T
			for {
				ts = append(ts, r.term())
				if !r.startsTerm() {
					break
				}
			}
			r.take(";")
			t := ts[0]
			if len(ts) > 1 {
				t = &T{Op: Seq, Kids: ts}
			}
			if seen[s] {
				r.invalid = true
			}
			seen[s] = true
			g.Rules = append(g.Rules, Ru(s, t))
			continue
		}
		break
	}
	if n == 0 {
		panic(syntaxBad{})
	}
	return g
}

func (r *rd) macro() {
	r.take(".macro")
	m := Macro{Name: r.ident()}
	r.take("(")
	for {
		if isIdent(r.peek(0)) {
			m.Params = append(m.Params, r.ident())
		}
		if r.peek(0) != "," {
			break
		}
		r.p++
	}
	r.take(")")
	r.take("{")
	save := r.params
	r.params = m.Params
	m.Body = r.term()
	r.params = save
	r.take("}")
	if r.peek(0) == ";" {
		r.p++
	}
	for _, o := range r.macros {
		if o.Name == m.Name {
			r.invalid = true
		}
	}
	if r.scope > 0 {
		r.mscoped[m.Name] = true
	}
	r.macros = append(r.macros, m)
}

func (r *rd) startsTerm() bool {
	switch s := r.peek(0); s {
	case "(", "(?=", "%", "%%", "%!":
		return true
	default:
		return isIdent(s) || s != "" && (s[0] == '"' || s[0] == '[')
	}
}

// term reads a whole stack, its layers possibly followed by scoped grammars.
func (r *rd) term() *T {
	names := len(r.names)
	scoped := false
	var layers []*T
	for {
		t := r.alt()
		if r.peek(0) == "{" {
			r.p++
			r.scope++
			g := r.grammar()
			r.scope--
			r.take("}")
			t = Sc(t, g)
			scoped = true
		}
		layers = append(layers, t)
		if r.peek(0) != ">" {
			break
		}
		r.p++
	}
	if scoped {
		for i := names; i < len(r.names); i++ {
			r.names[i].scoped = true
		}
	}
	if len(layers) == 1 {
		return layers[0]
	}
	return St(layers...)
}

func (r *rd) alt() *T {
	ts := []*T{r.seq()}
	for r.peek(0) == "|" {
		r.p++
		ts = append(ts, r.seq())
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return A(ts...)
}

func (r *rd) seq() *T {
	var ts []*T
	own := map[string]bool{}
	for {
		t, name := r.quantified()
		if name != "" {
			r.names = append(r.names, nameUse{name: name, params: r.params, dup: own[name], scoped: r.scope > 0})
			own[name] = true
		}
		ts = append(ts, t)
		if !r.startsTerm() {
			break
		}
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return S(ts...)
}

func (r *rd) quantified() (*T, string) {
	t, name := r.named()
	var qs []func(*T) *T
	for {
		switch s := r.peek(0); s {
		case "?":
			qs = append(qs, Opt)
			r.p++
			continue
		case "*":
			qs = append(qs, Any)
			r.p++
			continue
		case "+":
			qs = append(qs, Some)
			r.p++
			continue
		case "{":
			i := 1
			num := func() (n int) {
				if s := r.peek(i); s != "" && s[0] >= '0' && s[0] <= '9' {
					fmt.Sscan(s, &n)
					i++
				}
				return n
			}
			min := num()
			if r.peek(i) != "," {
				break
			}
			i++
			max := num()
			if r.peek(i) != "}" {
				break
			}
			r.p += i + 1
			if max > 0 && max < min {
				r.invalid = true
			}
			qs = append(qs, func(t *T) *T { return Q(t, min, max) })
			continue
		case ":", "<:", ":>":
			r.p++
			lead := r.peek(0) == ","
			if lead {
				r.p++
			}
			sep, sname := r.named()
			if sname != "" {
				r.names = append(r.names, nameUse{name: sname, params: r.params, scoped: r.scope > 0})
			}
			trail := r.peek(0) == ","
			if trail {
				r.p++
			}
			assoc := map[string]int{":": 0, "<:": -1, ":>": 1}[s]
			qs = append(qs, func(t *T) *T { return DLT(t, sep, assoc, lead, trail) })
			continue
		}
		break
	}
	for i := len(qs) - 1; i >= 0; i-- {
		t = qs[i](t)
	}
	return t, name
}

func (r *rd) named() (*T, string) {
	if isIdent(r.peek(0)) && r.peek(1) == "=" {
		name := r.ident()
		r.take("=")
		return Nm(name, r.atom()), name
	}
	return r.atom(), ""
}

func (r *rd) atom() *T {
	switch s := r.peek(0); {
	case s == "(" && r.peek(1) == ")":
		r.p += 2
		return S()
	case s == "(":
		r.p++
		t := r.term()
		r.take(")")
		return t
	case s == "(?=":
		r.p++
		t := r.term()
		r.take(")")
		return Lk(t)
	case s == "%":
		r.p++
		n := r.ident()
		if r.peek(0) == "=" {
			r.p++
			d := r.peek(0)
			if d == "" || d[0] != '"' {
				panic(syntaxBad{})
			}
			r.p++
			return BkDef(n, d[1:len(d)-1])
		}
		return Bk(n)
	case s == "%%":
		r.p++
		return Ex(r.ident())
	case s == "%!":
		r.p++
		n := r.ident()
		r.take("(")
		var args []*T
		// each argument is optional: the quantifier written last applies first
		for {
			if r.startsTerm() {
				args = append(args, r.term())
			}
			if r.peek(0) != "," {
				break
			}
			r.p++
		}
		r.take(")")
		return Mc(n, args...)
	case s != "" && s[0] == '"':
		r.p++
		return L(s[1 : len(s)-1])
	case s != "" && s[0] == '[':
		r.p++
		return R(s)
	case isIdent(s):
		r.p++
		return Rf(s)
	}
	panic(syntaxBad{})
}

type readVerdict int

const (
	vAccept readVerdict = iota
	vSyntax
	vInvalid
	vUnsure
)

func (v readVerdict) String() string {
	return [...]string{"valid", "malformed", "invalid", "names in scopes"}[v]
}

// readTokens decides a token sequence.
func readTokens(toks []string) (g *Gram, v readVerdict, why string) {
	r := &rd{t: toks, mscoped: map[string]bool{}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, is := e.(syntaxBad); !is {
					panic(e)
				}
				v = vSyntax
			}
		}()
		g = r.grammar()
		if r.p != len(r.t) {
			v = vSyntax
		}
	}()
	if v == vSyntax {
		return nil, v, ""
	}
	if r.invalid {
		return nil, vInvalid, "bounds or repeated definitions"
	}
	known := map[string]bool{}
	for _, ru := range g.Rules {
		known[ru.Name] = true
	}
	macros := map[string]Macro{}
	for _, m := range r.macros {
		if !r.mscoped[m.Name] {
			if known[m.Name] {
				return nil, vInvalid, "macro and rule of one name"
			}
			known[m.Name] = true
		}
		macros[m.Name] = m
	}
	has := func(xs []string, x string) bool {
		for _, y := range xs {
			if x == y {
				return true
			}
		}
		return false
	}
	offend := func(scoped bool, what string) bool {
		if scoped {
			r.unsure = true
			return false
		}
		why = what
		return true
	}
	for _, m := range r.macros {
		for i, p := range m.Params {
			if (known[p] || has(m.Params[:i], p)) && offend(r.mscoped[m.Name], "parameter is a rule") {
				return nil, vInvalid, why
			}
		}
	}
	for _, n := range r.names {
		if n.dup && offend(n.scoped, "name used twice") {
			return nil, vInvalid, why
		}
		if (known[n.name] || has(n.params, n.name)) && offend(n.scoped, "name is a rule") {
			return nil, vInvalid, why
		}
	}
	// Calls, references and cycles as written.
	bad := ""
	var visit func(t *T, names []map[string]bool, scoped bool)
	var visitG func(g *Gram, names []map[string]bool)
	visit = func(t *T, names []map[string]bool, scoped bool) {
		switch t.Op {
		case Call:
			m, ok := macros[t.S]
			if !ok || len(m.Params) != len(t.Kids) {
				bad = "macro call"
			}
		case Ref:
			ok := t.S == "@"
			for _, n := range names {
				ok = ok || n[t.S]
			}
			if !ok && offend(scoped, "unknown rule") {
				bad = why
			}
		case Scoped:
			visitG(t.G, names)
			inner := map[string]bool{}
			for _, ru := range t.G.Rules {
				inner[ru.Name] = true
			}
			visit(t.Kids[0], append(names[:len(names):len(names)], inner), true)
			return
		}
		for _, k := range t.Kids {
			visit(k, names, scoped)
		}
	}
	visitG = func(g *Gram, names []map[string]bool) {
		inner := map[string]bool{}
		for _, ru := range g.Rules {
			inner[ru.Name] = true
		}
		for _, ru := range g.Rules {
			visit(ru.T, append(names[:len(names):len(names)], inner), len(names) > 1)
		}
	}
	visitG(g, []map[string]bool{known})
	for _, m := range r.macros {
		ps := map[string]bool{}
		for _, p := range m.Params {
			ps[p] = true
		}
		visit(m.Body, []map[string]bool{known, ps}, r.mscoped[m.Name])
	}
	if bad != "" {
		return nil, vInvalid, bad
	}
	onPath := map[string]bool{}
	var cyc func(name string) bool
	cyc = func(name string) bool {
		if onPath[name] {
			return true
		}
		onPath[name] = true
		defer delete(onPath, name)
		found := false
		macros[name].Body.Has(func(t *T) bool {
			if t.Op == Call && cyc(t.S) {
				found = true
			}
			return false
		})
		return found
	}
	for _, m := range r.macros {
		if cyc(m.Name) {
			return nil, vInvalid, "macro needs itself"
		}
	}
	// What is left is judged after expansion.
	g = g.ExpandMacros(r.macros)
	var check func(g *Gram, names []map[string]bool)
	var checkT func(t *T, names []map[string]bool, root bool)
	checkT = func(t *T, names []map[string]bool, root bool) {
		if t.Op == Stack && !root {
			bad = "misplaced stack"
		}
		if t.Op == Ref && t.S != "@" {
			ok := false
			for _, n := range names {
				ok = ok || n[t.S]
			}
			if !ok {
				bad = "unknown rule"
			}
		}
		if t.Op == Scoped {
			check(t.G, names)
			inner := map[string]bool{}
			for _, ru := range t.G.Rules {
				inner[ru.Name] = true
			}
			names = append(names[:len(names):len(names)], inner)
		}
		for _, k := range t.Kids {
			checkT(k, names, false)
		}
	}
	check = func(g *Gram, names []map[string]bool) {
		inner := map[string]bool{}
		for _, ru := range g.Rules {
			inner[ru.Name] = true
		}
		for _, ru := range g.Rules {
			checkT(ru.T, append(names[:len(names):len(names)], inner), true)
		}
	}
	check(g, nil)
	if bad != "" {
		return nil, vInvalid, bad
	}
	g.Prepare()
	if LeftRecExact(g) {
		return nil, vInvalid, "left recursion"
	}
	if r.unsure {
		return g, vUnsure, ""
	}
	return g, vAccept, ""
}

func lexemes(toks []string) []string {
	var out []string
	for _, t := range toks {
		if t != "" {
			out = append(out, strings.Fields(t)...)
		}
	}
	return out
}

func spell(toks []string) string {
	s := strings.Join(toks, " ")
	for _, r := range [][2]string{{"%! M (", "%!M("}, {"% n", "%n"}, {"%% e", "%%e"}, {". macro", ".macro"}} {
		s = strings.ReplaceAll(s, r[0], r[1])
	}
	return s
}

var wordRE = regexp.MustCompile("[A-Za-z0-9_.]+")

// garbledRE matches what package fmt writes when arguments don't fit.
var garbledRE = regexp.MustCompile(`%![A-Za-z]?\((EXTRA|MISSING|NOVERB|BADINDEX|BADWIDTH|BADPREC|PANIC|[A-Za-z.*]+=)`)

// checkMessage checks that an error says what is wrong: something that is in
// the text, and nothing that formatting went wrong with.
func checkMessage(c *eng.Ctx, text string, err error) {
	t := reflect.TypeOf(err)
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	if strings.HasSuffix(t.PkgPath(), "/parser") {
		return // see C18
	}
	var msg string
	if pv := eng.Try(func() { msg = err.Error() }); pv != nil {
		c.Fail(fmt.Sprintf("text %q", text), "refused without a message: %v", pv)
		return
	}
	if garbledRE.MatchString(msg) && !garbledRE.MatchString(text) {
		c.Fail(fmt.Sprintf("text %q", text), "refused with a garbled message: %q", msg)
		return
	}
	if len(strings.Trim(msg, " \n\t[]@0123456789")) == 0 {
		c.Fail(fmt.Sprintf("text %q", text), "refused with the message %q, which says nothing", msg)
		return
	}
	words := wordRE.FindAllString(text, -1)
	for _, w := range words {
		if strings.Contains(msg, w) {
			return
		}
	}
	if len(words) > 0 {
		c.Fail(fmt.Sprintf("text %q", text), "refused with a message that names nothing in it: %q", msg)
	}
}

// decideText compiles text and compares with what toks denote.
func decideText(c *eng.Ctx, toks []string) {
	text := spell(toks)
	lx := lexemes(toks)
	g, v, why := readTokens(lx)
	c.States++
	c.Transitions += int64(len(lx))
	var p parser.Parsers
	var err error
	if pv := eng.Try(func() { p, err = wbnf.Compile(text, nil) }); pv != nil {
		c.Fail(fmt.Sprintf("text %q", text), "compiling panics: %v", pv)
		return
	}
	c.Evals++
	c.Outcome(v.String())
	if err != nil {
		checkMessage(c, text, err)
	}
	switch {
	case v == vUnsure:
		if err != nil {
			return
		}
	case v == vAccept && err != nil:
		c.Fail(fmt.Sprintf("text %q", text), "a valid grammar is refused: %v", err)
		return
	case v == vAccept:
	case err == nil:
		c.Fail(fmt.Sprintf("text %q", text), "%s (%s), but accepted as %v", v, why, p.Grammar())
		return
	default:
		return
	}
	c.Traces++
	read, _, _ := readGrammar(text)
	if d := grammarDiff(read, im.Grammar(g)); d != "" {
		c.Fail(fmt.Sprintf("text %q", text), "%s", d)
	}
}

var fullTokens = []string{
	"a", "b", "n =", "b =", "u", `"x"`, "[x]", "|", ">", "?", "*", "{ 2 , 3 }", "{ 3 , 2 }", "{ , }", ":", "<:", ",", "(", ")", "( )", "{", "}", "@", "% n",
	"%! M (", "(?=", "%% e", ";", "b ->", ".macro N ( q ) {", "M", "/*c*/",
}

var coreTokens = []string{"a", "b", "n =", `"x"`, "|", ">", "?", "{ 3 , 2 }", ":", ",", "(", ")", "{", "}", "%! M (", ";", "c ->", "%% e"}

var fewTokens = []string{"a", "b", `"x"`, "|", "?", "(", ")", "{", "}", ";", "c ->"}

var nameTokens = []string{"n = b", "m = [x]", "o = ( b )", "b", "|", "(", ")", "? :", "{", "}", ">"}

var ruleTokens = []string{"a -> b ;", "b -> a ;", "b -> ( ) ;", "c -> n = b ;", "n -> c ;", "a -> ( @ ) ? > b ;", ".macro M ( b ) { b }", ".macro M ( p , q ) { p q } ;", ".macro N ( p ) { %! M ( p ) }", "c -> %! M ( b ) ;", "d -> %! N ( a ) p ;", "e -> b { b -> c ; } ;", "f -> g { g -> \"x\" ; g -> a ; } ;", "g -> b { .macro M ( p ) { p } .macro M ( p ) { p } } ;", "/*c*/"}

func genC12(x *eng.Gen) {
	tail := "; b -> \"y\" ; .macro M ( p ) { p \"m\" }"
	type ctx struct {
		name      string
		pre, post string
		toks      []string
		n         int
	}
	ctxs := []ctx{
		{"rule body", "a ->", tail, fullTokens, 3},
		{"rule body", "a ->", tail, coreTokens, 4},
		{"rule body", "a ->", tail, fewTokens, 5},
		{"scoped rule", "a -> b { c ->", `; b -> "z" ; } ; b -> "y" ; .macro M ( p ) { p "m" }`, coreTokens, 3},
		{"macro argument", "a -> %! M (", ") ; b -> \"y\" ; .macro M ( p ) { p \"m\" }", coreTokens, 3},
		{"macro body", ".macro N ( p ) {", "} a -> %! N ( b ) ; b -> \"y\" ; .macro M ( p ) { p \"m\" }", append([]string{"p"}, coreTokens...), 3},
		{"after a scope", `a -> b { b -> "z" ; }`, tail, fullTokens, 3},
		{"whole grammar", "", "", fullTokens, 3},
		{"whole grammar", "", "", fewTokens, 5},
		{"names", "a ->", tail, nameTokens, 5},
		{"names in a macro", ".macro N ( p ) {", "} a -> %! N ( b ) ; b -> \"y\" ; .macro M ( p ) { p \"m\" }", nameTokens, 4},
		{"rules", "", "", ruleTokens, 4},
	}
	if x.Thorough {
		for i := range ctxs {
			ctxs[i].n++
		}
	}
	for _, ct := range ctxs {
		ct := ct
		for n := 0; n <= ct.n; n++ {
			n := n
			head := n
			if head > 2 {
				head = 2
				if n >= 5 {
					head = 3
				}
			}
			for _, first := range tuples(ct.toks, head) {
				first := first
				x.Case(func() string {
					return fmt.Sprintf("%s of %d tokens of %d: %s ...", ct.name, n, len(ct.toks), strings.Join(first, " "))
				}, func(c *eng.Ctx) {
					for _, rest := range tuples(ct.toks, n-head) {
						var toks []string
						toks = append(toks, lexemes([]string{ct.pre})...)
						toks = append(toks, lexemes(first)...)
						toks = append(toks, lexemes(rest)...)
						toks = append(toks, lexemes([]string{ct.post})...)
						decideText(c, toks)
					}
				})
			}
		}
	}
	// Arbitrary characters: whatever the text, compiling ends with a grammar or an error.
	total := func(c *eng.Ctx, text string) {
		c.States++
		c.Evals++
		c.Transitions += int64(len(text))
		var p parser.Parsers
		var err error
		if pv := eng.Try(func() { p, err = wbnf.Compile(text, nil) }); pv != nil {
			c.Fail(fmt.Sprintf("text %q", text), "compiling panics: %v", pv)
		} else if err == nil {
			c.Outcome("any-text-accepted")
			for r := range p.Grammar() {
				if r != parser.WrapRE && !p.HasRule(r) {
					c.Fail(fmt.Sprintf("text %q", text), "accepted without parser for rule %s", r)
				}
			}
		} else {
			checkMessage(c, text, err)
			c.Outcome("any-text-refused")
		}
	}
	chars := []string{"a", "b", "-", ">", ";", "\"", "'", "`", "\\", "/", "{", "}", "(", ")", "[", "]", "%", "!", "?", "=", ".", "@", "*", "+", ":", "<", ",", "|", "0", "1", "^", "$", " ", "\n", "\r", "\x00", "\xff", "\xc3", "é", "\u2028", "\\_", "\\p", "x", "\\d"}
	for _, fr := range [][2]string{{"", ""}, {"a -> ", ""}, {"a -> b", "; b -> \"y\";"}, {"a -> /{", "};"}, {"a -> \"", "\";"}, {"a -> [", "];"}, {".wrapRE -> /{", "()}; a -> \"y\";"}, {".wrapRE -> /{[()", "}; a -> [y];"}, {".wrapRE -> /{", "()-y]}; a -> [y];"}, {".wrapRE -> /{()|(?:(()", ")|y)}; a -> [y] \"y\";"}} {
		for _, first := range chars {
			fr, first := fr, first
			x.Case(func() string { return fmt.Sprintf("characters %q %q...", fr[0], first) }, func(c *eng.Ctx) {
				n := 3
				if c.Thorough() {
					n = 4
				}
				for k := 0; k < n; k++ {
					for _, rest := range tuples(chars, k) {
						if k == n-1 && len(chars) > 20 && k > 1 && fr[0] != "a -> b" && !c.Thorough() {
							continue
						}
						total(c, fr[0]+first+strings.Join(rest, "")+fr[1])
					}
				}
			})
		}
	}
	samples := []string{
		`a -> b:">" > @:"|" > "(" @ ")" | %n="z" | \d+; b -> n=[ab]* { c -> d; d -> /{x{2,3}\_(?i:y)}; }; // c`,
		".macro M(p, q) { p:q, | (?=p) q? } x -> %!M(\"\\x41\", 'b\\'')+ `c``d` %%ext y{2,3}; y -> /* c */ () x<:,[\\]a];",
		`.import ../x/y.z; .wrapRE -> /{\s*()\s*}; a -> "k";`,
		"a -> \\pL\\p{Greek}+?.^$[[:alpha:]x]{2,}; \xff",
	}
	if b, err := os.ReadFile(filepath.Join("/repo", "examples", "wbnf.wbnf")); err == nil {
		samples = append(samples, string(b))
	}
	for si, s := range samples {
		for from := 0; from <= len(s); from += 40 {
			si, s, from := si, s, from
			x.Case(func() string { return fmt.Sprintf("damaged sample %d at %d..", si, from) }, func(c *eng.Ctx) {
				for i := from; i <= len(s) && i < from+40; i++ {
					total(c, s[:i])
					if i < len(s) {
						total(c, s[:i]+s[i+1:])
					}
					if si == 4 && !c.Thorough() {
						continue
					}
					for _, ch := range chars {
						total(c, s[:i]+ch+s[i:])
						if i < len(s) {
							total(c, s[:i]+ch+s[i+1:])
						}
					}
				}
			})
		}
	}
}
