package main

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/cmd/codegen"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/parser/diff"
	"github.com/arr-ai/wbnf/wbnf"

	"verif/mc/eng"
	"verif/mc/im"
)

// rich is a grammar that uses several features together, and inputs for it.
type rich struct {
	name, text, rule string
	inputs           []string
	files            map[string]string
}

var richList = []rich{
	{"words", `a -> b* c?; b -> /{[a-z]+}; c -> "!" | "?"; .wrapRE -> /{\s*()\s*};`, "a", []string{"x y z!", "x ,", ""}, nil},
	{"alias", `a -> b; b -> c; c -> "x" d?; d -> e=c | "y";`, "a", []string{"xy", "xxy", "z"}, nil},
	{"named", `a -> n="x" m=b n2=(k="y" | k="z"); b -> /{\d+};`, "a", []string{"x12y", "x1z", "x1"}, nil},
	{"nested names", `a -> l=(p="x" q=(r="y" s=b)*) t=b; b -> "z";`, "a", []string{"xyzyzz", "xz", "xy"}, nil},
	{"choices", `a -> "x" "y" | "x" b | c=("p" | "q" "r") ; b -> "z" | "w";`, "a", []string{"xy", "xw", "qr", "xq"}, nil},
	{"quants", `a -> "x"{2,2} b{1,2} "y"+ c? d{,2}; b -> "z"; c -> "w"; d -> "v";`, "a", []string{"xxzyyv", "xxzzyw", "xz"}, nil},
	{"delims", `a -> b:"," ";" b:,"/" ";" b:"-",; b -> /{[a-c]};`, "a", []string{"a,b;/a/b;c-a-", "a;b;c", "a,b;"}, nil},
	{"assoc", `a -> b:>"+" ";" b<:"^"; b -> /{\d};`, "a", []string{"1+2+3;1^2^3", "1;2", "1+"}, nil},
	{"stack", `e -> @:>"+" > @:>"*" > @<:"**" > "-"? @ > "(" @ ")" | /{\d+};`, "e", []string{"1+2*3", "-(1+2)*3**4**5", "1+"}, nil},
	{"named stack", `e -> n=@:[-+] > m=@:"*" > k=/{\d} | "(" e ")";`, "e", []string{"1+2*3", "(1*2)-3", "("}, nil},
	{"stack from outside", `a -> e ";" e; e -> @:"+" > @ "!"? > /{\d};`, "a", []string{"1!+2;3", "1", "1!;2+"}, nil},
	{"backref", `a -> q=("'" | "~") w=/{\w*} %q; `, "a", []string{"'x'", "~xy~", "'x~"}, nil},
	{"backref default", `a -> x=b? y=/{\d} %x="z" %y; b -> "p" "q";`, "a", []string{"pq1pq1", "1z1", "pq1z"}, nil},
	{"indent", `a -> ind="" (%ind ">" "x")+ c; c -> ind=">"? %ind "y";`, "a", []string{">x>x>>y", ">xy", ">x>y"}, nil},
	{"scope", `a -> b c { c -> "x" b; b -> "y"; } c; b -> "p"; c -> "q" b;`, "a", []string{"yxyqp", "yxpqp", "y"}, nil},
	{"deep scopes", `a -> b { b -> c "1" { c -> d "2" { d -> "3" x; }; }; x -> "4"; } x; x -> "5";`, "a", []string{"34215", "3521", "345"}, nil},
	{"scoped stack", `a -> e "!" { e -> @:"+" > @:"*" > /{\d}; } e; e -> "e";`, "a", []string{"1+2*3!e", "1!1", "1+!"}, nil},
	{"scoped wrap", `a -> b c { b -> "x" "y"; .wrapRE -> /{-*()-*}; }; c -> "z"; .wrapRE -> /{\s*()};`, "a", []string{"-x--y z", " x y z", "xyz", "-x"}, nil},
	{"wrap inherited", `a -> b c { b -> "x" "y"; } "w"; c -> "z"; .wrapRE -> /{\s*()};`, "a", []string{" x y z w", "xyzw", "- x"}, nil},
	{"two inherited wraps", `a -> b { b -> "x"; } c { c -> "y" d { d -> "w"; }; }; .wrapRE -> /{\s*()};`, "a", []string{" x  y w", "xyw", "x y"}, nil},
	{"macros", `.macro L(x, s) { x (s x)* } .macro P(t) { "(" t ")" } a -> %!L(%!P(b), ",") | b; b -> "x" | "y";`, "a", []string{"(x),(y)", "x", "(x)("}, nil},
	{"macros in scopes", `.macro N(x) { n=x } a -> b { b -> %!N("u") c; } %!N(c)?; c -> "v";`, "a", []string{"uvv", "uv", "u"}, nil},
	{"cut points", `a -> "begin" b* "end" | "other" c; b -> "(" d ")"; c -> "x"; d -> "y" | "z";`, "a", []string{"begin(y)(z)end", "otherx", "begin(x)end", "othery"}, nil},
	{"lookahead", `a -> (?="x") b | (?=c) c "z"; b -> "x" "y"; c -> "w" (?="z");`, "a", []string{"xy", "wz", "xz", "w"}, nil},
	{"external", `a -> "x" %%e b?; b -> "y" %%f*;`, "a", []string{"x1y23", "x!", "xy"}, nil},
	{"imports", `.import ./p/f.wbnf ; a -> b c d; d -> "w";`, "a", []string{"xyzw", "xw", ""}, map[string]string{"p/f.wbnf": ".import g.wbnf\nb -> \"x\" \"y\";", "p/g.wbnf": "c -> \"z\";"}},
	{"json", `v -> o=("{" (k=s ":" v):","? "}") | l=("[" v:",",? "]")  | s | n; s -> /{"([^"]*)"}; n -> /{\d+}; .wrapRE -> /{\s*()\s*};`, "v", []string{`{"a": [1, 2], "b": {"c": 3}}`, `[1, "x",]`, `{"a" 1}`, `[1,,]`}, nil},
	{"xml", `x -> "<" t=/{\w+} at* ("/>" | ">" (x | c=/{[^<]+})* "</" %t ">"); at -> n=/{[a-z]+} "=" v=/{"[^"]*"}; .wrapRE -> /{\s*()};`, "x", []string{`<a b="c"><d/>e</a>`, `<a><b></a></b>`, `<a`}, nil},
	{"many levels", `a -> b; b -> "(" c ")" | "x"; c -> d:","; d -> k=a | l=("[" a* "]");`, "a", []string{"((x,[x(x)]),x)", "(x,", "([xx])"}, nil},
	{"empty parts", `a -> () b? "x"* () "y"; b -> "z"?;`, "a", []string{"zxxy", "y", "x"}, nil},
	{"comments", "// one\na -> b; /* two */ b -> 'x' | `y`; // three\n/***/", "a", []string{"x", "y", "z"}, nil},
	{"escapes", "a -> \"\\n\" '\\'' `\\` /{\\x41\\pL[\\]]};", "a", []string{"\n'\\AB]", "\n'", "x"}, nil},
}

// badList are grammars that are refused.
var badList = []string{
	`a -> b; c -> d e f;`,
	`a -> a "x"; b -> c; c -> b;`,
	`a -> x=a y=("z" | b) | "w"; b -> a c; c -> "p"? b;`,
	`a -> "x"; a -> "y"; b -> "z"; b -> "w";`,
	`a -> x="p" x="q" y="r" y="s"; x -> "t"; y -> "u";`,
	`a -> %!M(b) %!N(); b -> "x";`,
	`.macro M(x) { x y } .macro M(x) { x } a -> %!M("z");`,
	`a -> "x"{3,2} "y"{5,4}; b -> "z"{2,1};`,
	`a -> b { b -> c; d -> e; } f { g -> h; };`,
	`a -> b @ c; b -> "x" | @; c -> @:"y";`,
	`a -> /{(} /{[}; b -> /{*};`,
	`a -> "x`, `a -> ;`, `a`, ``, `-> "x";`, `a -> "x" "y`, "a -> '\\q';",
	`.import nowhere.wbnf ; a -> "x";`,
}

func init() {
	for _, f := range []string{"wbnf", "xml", "balancedbraces", "indents"} {
		b, err := os.ReadFile("/repo/examples/" + f + ".wbnf")
		if err != nil {
			continue
		}
		r := rich{name: "example " + f, text: string(b)}
		switch f {
		case "wbnf":
			r.rule, r.inputs = "grammar", []string{`a -> b:"x" c? { c -> "y"; }; b -> /{z};`, `a -> `}
		case "xml":
			r.rule, r.inputs = "xml", []string{`<a b="c">d<e/></a>`, `<a`}
		case "balancedbraces":
			r.rule, r.inputs = "text", []string{"({[]})", "({)}", "()"}
		case "indents":
			r.rule, r.inputs = "block", []string{"\n  print a\n  if b:\n    print c", "\n print a\n  print b"}
		}
		richList = append(richList, r)
	}
}

type mapResolver map[string]string

// world is a compiled grammar with what is made of it.
type world struct {
	r    *rich
	p    parser.Parsers
	exts parser.ExternalRefs // for parsing
	escs parser.ExternalRefs // with an escape as well
	kept []kept
}

type kept struct {
	what string
	v    any
	was  string
}

func (w *world) keep(what string, v any) {
	w.kept = append(w.kept, kept{what, v, deep(v)})
}

// changed names an object that isn't what it was.
func (w *world) changed() string {
	for _, k := range w.kept {
		if now := deep(k.v); now != k.was {
			return fmt.Sprintf("%s changed: %s", k.what, firstDiff(k.was, now))
		}
	}
	return ""
}

func (r *rich) compile(dir string) (parser.Parsers, error) {
	if r.files != nil {
		return wbnf.Compile(r.text, worldDir(dir))
	}
	return wbnf.Compile(r.text, nil)
}

type worldDir string

func (d worldDir) Resolve(from, file string) string {
	if from == "" {
		return string(d) + "/" + file
	}
	return from[:strings.LastIndex(from, "/")+1] + file
}

func (r *rich) write(dir string) error {
	for f, text := range r.files {
		p := dir + "/" + f
		if err := os.MkdirAll(p[:strings.LastIndex(p, "/")], 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func newWorld(r *rich, dir string) (*world, error) {
	w := &world{r: r}
	var err error
	w.p, err = r.compile(dir)
	if err != nil {
		return nil, err
	}
	w.keep("the compiled grammar", w.p)
	w.exts = parser.ExternalRefs{}
	w.escs = parser.ExternalRefs{`*\$\{()\}`: func(_ parser.Scope, in *parser.Scanner) (parser.TreeElement, error) {
		s := in.String()
		n := strings.IndexByte(s, '}')
		if n < 1 {
			return nil, fmt.Errorf("no escape")
		}
		out := *in.Slice(0, n)
		*in = *in.Skip(n)
		return out, nil
	}}
	for name, ext := range worldExts {
		w.exts[name] = ext
		w.escs[name] = ext
	}
	w.keep("the externals", w.exts)
	w.keep("the externals and the escape", w.escs)
	return w, nil
}

var worldExts = parser.ExternalRefs{
	"e": func(_ parser.Scope, in *parser.Scanner) (parser.TreeElement, error) {
		if in.String() == "" || in.String()[0] == '!' {
			return nil, fmt.Errorf("no e")
		}
		out := *in.Slice(0, 1)
		*in = *in.Skip(1)
		return out, nil
	},
	"f": func(s parser.Scope, in *parser.Scanner) (parser.TreeElement, error) {
		if in.String() == "" {
			return nil, fmt.Errorf("no f")
		}
		out := *in.Slice(0, 1)
		*in = *in.Skip(1)
		return parser.Node{Tag: "f", Children: []parser.TreeElement{out}}, nil
	},
}

func (w *world) parse(in string) (parser.TreeElement, error) {
	return w.p.ParseWithExternals(parser.Rule(w.r.rule), parser.NewScannerWithFilename(in, "f"), w.exts)
}

func (w *world) ast(in string) (ast.Branch, bool) {
	te, err := w.parse(in)
	if err != nil {
		if u, ok := err.(parser.UnconsumedInputError); ok {
			te = u.Result()
		}
	}
	if te == nil {
		return nil, false
	}
	w.keep("the tree of "+in, te)
	b := ast.FromParserNode(w.p.Grammar(), te)
	w.keep("the AST of "+in, b)
	return b, true
}

// showNode writes an AST node out without help from the code under test.
func showNode(n ast.Node) string {
	switch n := n.(type) {
	case ast.Leaf:
		s := n.Scanner()
		return fmt.Sprintf("%d:%q", s.Offset(), s.String())
	case ast.Extra:
		return fmt.Sprintf("!%v", n.Data)
	case ast.Branch:
		var keys []string
		for k := range n {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var sb strings.Builder
		sb.WriteByte('(')
		for _, k := range keys {
			sb.WriteString(k)
			switch c := n[k].(type) {
			case ast.One:
				sb.WriteString("=" + showNode(c.Node))
			case ast.Many:
				sb.WriteString("=[")
				for _, c := range c {
					sb.WriteString(showNode(c) + ",")
				}
				sb.WriteByte(']')
			}
			sb.WriteByte(';')
		}
		sb.WriteByte(')')
		return sb.String()
	}
	return fmt.Sprintf("%T", n)
}

func showGrammar(g parser.Grammar) string {
	return deep(g)
}

// op is something that is done with a world; what it returns must not depend
// on what was done before.
type op struct {
	name string
	run  func(w *world) string
}

func generate(p parser.Parsers, rule string) string {
	node := p.Node().(wbnf.GrammarNode)
	types := codegen.MakeTypes(node)
	var buf bytes.Buffer
	err := codegen.Write(&buf, codegen.TemplateData{
		CommandLine: "x", PackageName: "x", StartRule: codegen.IdentName(rule), StartRuleTypeName: codegen.GoTypeName(rule),
		Grammar:       codegen.MakeGrammarString(p.Grammar()),
		MiddleSection: append(types.Get(), codegen.GetVisitorWriter(types.Types(), rule)),
	})
	if err != nil {
		return "error: " + err.Error()
	}
	return buf.String()
}

// worldOps lists the operations on a grammar and its inputs.
func worldOps(r *rich) []op {
	var ops []op
	for _, in := range r.inputs {
		in := in
		ops = append(ops,
			op{"parse " + in, func(w *world) string {
				te, err := w.parse(in)
				if te != nil {
					w.keep("the tree of "+in, te)
				}
				if err != nil {
					if u, ok := err.(parser.UnconsumedInputError); ok {
						return "left: " + im.Show(u.Result()) + " " + u.Residue().String() + " " + err.Error()
					}
					return "error: " + err.Error()
				}
				return im.Show(te)
			}})
	}
	in := r.inputs[0]
	for i := 0; i < 2 && i < len(in); i++ {
		esc := in[:i] + "${z}" + in[i+1:]
		ops = append(ops, op{"parse with an escape " + esc, func(w *world) string {
			te, err := w.p.ParseWithExternals(parser.Rule(r.rule), parser.NewScanner(esc), w.escs)
			if te != nil {
				w.keep("the tree of "+esc, te)
				return im.Show(te)
			}
			return fmt.Sprint(err)
		}})
	}
	ops = append(ops,
		op{"make the AST", func(w *world) string {
			b, ok := w.ast(in)
			if !ok {
				return ""
			}
			return showNode(b) + b.String()
		}},
		op{"rebuild the tree", func(w *world) string {
			b, ok := w.ast(in)
			if !ok {
				return ""
			}
			return im.Show(ast.ToParserNode(w.p.Grammar(), b))
		}},
		op{"view the AST", func(w *world) string {
			b, ok := w.ast(in)
			if !ok {
				return ""
			}
			return ast.BuildTreeView("root", b, true) + ast.BuildTreeView("root", b, false)
		}},
		op{"compile the grammar again", func(w *world) string {
			g := w.p.Grammar()
			p := g.Compile(w.p.Node())
			w.keep("the second parsers", p)
			te, err := p.ParseWithExternals(parser.Rule(r.rule), parser.NewScanner(in), worldExts)
			if err != nil {
				return "error: " + err.Error()
			}
			return im.Show(te)
		}},
		op{"read the grammar's AST", func(w *world) string {
			g := wbnf.NewFromAst(w.p.Node().(wbnf.GrammarNode))
			w.keep("the grammar read", g)
			return showGrammar(g)
		}},
		op{"write the grammar out", func(w *world) string {
			return w.p.Grammar().String() + fmt.Sprint(w.p.Node())
		}},
		op{"generate code", func(w *world) string { return generate(w.p, r.rule) }},
		op{"compare grammars", func(w *world) string {
			other := wbnf.Core().Grammar()
			return deep(diff.Grammars(w.p.Grammar(), w.p.Grammar())) + deep(diff.Grammars(w.p.Grammar(), other)) + deep(diff.Grammars(other, w.p.Grammar()))
		}},
		op{"compile another grammar", func(w *world) string {
			p, err := wbnf.Compile(`a -> b+; b -> "x" | c:","; c -> q="'" /{\w} %q;`, nil)
			if err != nil {
				return err.Error()
			}
			w.keep("the other grammar", p)
			te, err := p.Parse("a", parser.NewScanner("x'p','q'x"))
			return im.Show(te) + fmt.Sprint(err)
		}},
		op{"compile a bad grammar", func(w *world) string {
			_, err := wbnf.Compile(badList[2], nil)
			return fmt.Sprint(err)
		}},
		op{"resolve the stacks", func(w *world) string { return showGrammar(w.p.Grammar().ResolveStacks()) }},
		op{"write the tree out", func(w *world) string {
			te, err := w.parse(in)
			if err != nil {
				return "error"
			}
			w.keep("the tree of "+in, te)
			var buf bytes.Buffer
			if eng.Try(func() { _, err = w.p.Unparse(te, &buf) }) != nil {
				return "panic"
			}
			return buf.String() + fmt.Sprint(err)
		}},
	)
	return ops
}
