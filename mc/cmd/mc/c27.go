package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/gotree"
	"github.com/arr-ai/wbnf/parser"

	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C27",
		Rule: "the ASTs of the programs of C14 (one step smaller) on all inputs, those of feature-rich grammars, and all hand-made ASTs of up to k nodes over leaves with every kind of character, repeated names and empty parts: " +
			"two ASTs are written out as the same text only if they are the same; the view of an AST shows every leaf exactly once, with its offset and text, below names that it is below, siblings in the order of their first leaves; " +
			"and all generic trees of up to k nodes over texts with and without line breaks: the print of a tree tells it from all others, and sorting is stable and by the leading numbers",
		Assumptions: []string{"texts of generic trees hold no line-drawing characters"},
		Gen:         genC27,
	})
	eng.Register(&eng.Check{
		ID: "C28",
		Rule: "the ASTs of the programs of C14 (one step smaller) on all inputs and those of feature-rich grammars; for every node: " +
			"One, Many, First, All, Which and Choice for every name and every pair of names must give what is under that name; all pairs of nodes that were made for a grammar are compared, and are equal exactly if they are the same apart from offsets; nothing panics",
		Assumptions: []string{"an AST is read through its exported maps and lists, without help from the code under test"},
		Gen:         genC28,
	})
}

// contentKey writes a node out without offsets and without help from the code
// under test.
func contentKey(n ast.Node) string {
	switch n := n.(type) {
	case ast.Leaf:
		return fmt.Sprintf("%q", n.Scanner().String())
	case ast.Extra:
		return fmt.Sprintf("!%T(%v)", n.Data, n.Data)
	case ast.Branch:
		var keys []string
		for k := range n {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var sb strings.Builder
		sb.WriteByte('(')
		for _, k := range keys {
			fmt.Fprintf(&sb, "%q", k)
			switch c := n[k].(type) {
			case ast.One:
				sb.WriteString("=" + contentKey(c.Node))
			case ast.Many:
				sb.WriteString("=[")
				for _, c := range c {
					sb.WriteString(contentKey(c) + ",")
				}
				sb.WriteByte(']')
			}
			sb.WriteByte(';')
		}
		sb.WriteByte(')')
		return sb.String()
	}
	return fmt.Sprintf("%T", n)
}

// nodesOf lists all nodes of an AST.
func nodesOf(n ast.Node, f func(ast.Node)) {
	f(n)
	if b, ok := n.(ast.Branch); ok {
		for _, c := range b {
			switch c := c.(type) {
			case ast.One:
				nodesOf(c.Node, f)
			case ast.Many:
				for _, n := range c {
					nodesOf(n, f)
				}
			}
		}
	}
}

// astBag collects the nodes of the ASTs that were made for a grammar.
type astBag struct {
	seen  map[string]ast.Node // by content, with offsets
	texts map[string]string   // by String()
}

var bag *astBag

func newBag() { bag = &astBag{map[string]ast.Node{}, map[string]string{}} }

// viewAST checks what is shown of an AST.
func viewAST(c *eng.Ctx, what string, root ast.Branch) {
	fail := func(format string, args ...any) { c.Fail(what, "%s", fmt.Sprintf(format, args...)) }
	c.States++
	pv := eng.Try(func() {
		key, text := showNode(root), root.String()
		if other, has := bag.texts[text]; has && other != key {
			fail("%s and %s are both written out as %s", key, other, text)
		}
		bag.texts[text] = key
		for _, skip := range []bool{true, false} {
			c.Evals++
			viewTree(fail, "root", root, ast.BuildTreeView("root", root, skip), skip)
		}
	})
	if pv != nil {
		fail("panics: %v", pv)
	}
	c.Outcome("viewed")
}

type viewLine struct {
	depth int
	text  string
}

// viewLines takes a printed tree apart.
func viewLines(s string) []viewLine {
	var out []viewLine
	for _, line := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		depth := 0
		for {
			if rest, ok := strings.CutPrefix(line, "│   "); ok {
				line = rest
			} else if rest, ok := strings.CutPrefix(line, "    "); ok {
				line = rest
			} else {
				break
			}
			depth++
		}
		for _, item := range []string{"├── ", "└── "} {
			if rest, ok := strings.CutPrefix(line, item); ok {
				line = rest
				depth++
				break
			}
		}
		out = append(out, viewLine{depth, line})
	}
	return out
}

// isLeafLine tells whether a line shows a leaf.
func isLeafLine(s string) bool {
	digits := 0
	for digits < len(s) && s[digits] >= '0' && s[digits] <= '9' {
		digits++
	}
	return digits > 0 && strings.HasPrefix(s[digits:], "‣")
}

func viewTree(fail func(string, ...any), name string, root ast.Branch, view string, skip bool) {
	// What there is to be shown: the leaves and the names above each.
	type leaf struct {
		off  int
		text string
		path []string
	}
	want := map[string][]leaf{}
	n := 0
	// Groups are in the order of their first leaves, unless there is
	// something without an offset among what is shown.
	groups := skip
	var walk func(n ast.Node, path []string)
	walk = func(nd ast.Node, path []string) {
		switch nd := nd.(type) {
		case ast.Leaf:
			s := parser.Scanner(nd)
			want[nd.String()] = append(want[nd.String()], leaf{s.Offset(), s.String(), path})
			n++
		case ast.Extra:
			if len(path) > 0 && !strings.HasPrefix(path[len(path)-1], "@") {
				groups = false
			}
		case ast.Branch:
			visible := false
			for k, c := range nd {
				visible = visible || !strings.HasPrefix(k, "@")
				if m, ok := c.(ast.Many); ok && len(m) == 0 {
					groups = false
				}
				below := append(path[:len(path):len(path)], k)
				switch c := c.(type) {
				case ast.One:
					walk(c.Node, below)
				case ast.Many:
					for _, c := range c {
						walk(c, below)
					}
				}
			}
			if !visible {
				groups = false
			}
		}
	}
	walk(root, []string{name})
	lines := viewLines(view)
	var stack []string
	shown := 0
	above := map[string][][]string{} // the lines above each leaf that is shown
	last := map[int]int{}            // the first leaf of the last sibling at every depth
	fresh := map[int]bool{}
	for _, l := range lines {
		if l.depth > len(stack) {
			fail("the line %q is below no other in\n%s", l.text, view)
			return
		}
		for d := range last {
			if d > l.depth {
				delete(last, d)
			}
		}
		stack = append(stack[:l.depth], l.text)
		fresh[l.depth] = true
		if !isLeafLine(l.text) {
			continue
		}
		shown++
		if len(want[l.text]) == 0 {
			fail("shows %q, which is not there, in\n%s", l.text, view)
			return
		}
		off := want[l.text][0].off
		above[l.text] = append(above[l.text], append([]string{}, stack[:l.depth]...))
		for d := 0; d <= l.depth; d++ {
			if !fresh[d] {
				continue
			}
			fresh[d] = false
			if d < l.depth && !groups {
				continue
			}
			if prev, has := last[d]; has && prev > off {
				fail("shows the leaf at %d after that at %d in\n%s", off, prev, view)
				return
			}
			last[d] = off
		}
	}
	if shown != n {
		fail("shows %d of %d leaves:\n%s", shown, n, view)
		return
	}
	for text, shown := range above {
		leaves := want[text]
		if len(shown) != len(leaves) {
			fail("shows %q %d times instead of %d:\n%s", text, len(shown), len(leaves), view)
			return
		}
		// Every line must be for a leaf of its own.
		lineOf := make([]int, len(leaves))
		for i := range lineOf {
			lineOf[i] = -1
		}
		var place func(i int, tried map[int]bool) bool
		place = func(i int, tried map[int]bool) bool {
			for j, w := range leaves {
				if tried[j] || !leafBelow(shown[i], w.path) {
					continue
				}
				tried[j] = true
				if lineOf[j] < 0 || place(lineOf[j], tried) {
					lineOf[j] = i
					return true
				}
			}
			return false
		}
		for i := range shown {
			if !place(i, map[int]bool{}) {
				fail("shows %q below %q, where it is not (or not that often), in\n%s", text, shown[i], view)
				return
			}
		}
	}
}

// leafBelow tells whether the names shown above a leaf are above it.
func leafBelow(shown, path []string) bool {
	i := 0
	for _, line := range shown {
		parts := strings.Split(line, " ‣ ")
		for _, part := range parts {
			if part == "..." {
				continue
			}
			for i < len(path) && path[i] != part {
				i++
			}
			if i == len(path) {
				return false
			}
			i++
		}
	}
	return true
}

// useAST checks the accessors of an AST and of every node in it, and keeps the
// nodes for being compared.
func useAST(c *eng.Ctx, what string, root ast.Branch) {
	fail := func(format string, args ...any) { c.Fail(what, "%s", fmt.Sprintf(format, args...)) }
	names := map[string]bool{"": true, "nope": true, ast.ChoiceTag: true, ast.RuleTag: true, "@empty": true}
	nodesOf(root, func(n ast.Node) {
		if b, ok := n.(ast.Branch); ok {
			for k := range b {
				names[k] = true
			}
		}
	})
	var all []string
	for k := range names {
		all = append(all, k)
	}
	sort.Strings(all)
	same := func(a, b ast.Node) bool {
		if a == nil || b == nil {
			return a == nil && b == nil
		}
		return showNode(a) == showNode(b)
	}
	sameList := func(a, b []ast.Node) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !same(a[i], b[i]) {
				return false
			}
		}
		return true
	}
	nodesOf(root, func(n ast.Node) {
		key := showNode(n)
		if _, has := bag.seen[key]; has {
			return
		}
		bag.seen[key] = n
		c.States++
		b, _ := n.(ast.Branch)
		for _, name := range all {
			var one, first ast.Node
			var many, list []ast.Node
			switch g := b[name].(type) {
			case ast.One:
				one, first, list = g.Node, g.Node, []ast.Node{g.Node}
			case ast.Many:
				if len(g) > 0 {
					many, list, first = g, g, g[0]
				}
			}
			if pv := eng.Try(func() {
				c.Evals += 4
				if !same(n.One(name), one) || !sameList(n.Many(name), many) || !same(ast.First(n, name), first) || !sameList(ast.All(n, name), list) {
					fail("accessors of %q in %s: One %v, Many %v, First %v, All %v", name, key, n.One(name), n.Many(name), ast.First(n, name), ast.All(n, name))
				}
			}); pv != nil {
				fail("accessors of %q in %s panic: %v", name, key, pv)
			}
		}
		if pv := eng.Try(func() {
			want := -1
			if g, ok := b[ast.ChoiceTag].(ast.Many); ok {
				want = int(g[0].(ast.Extra).Data.(parser.Choice))
			}
			if got := ast.Choice(n); got != want {
				fail("Choice of %s: got %d, want %d", key, got, want)
			}
			if ast.Choice(nil) != -1 || ast.First(nil, "") != nil || ast.All(nil, "") != nil {
				fail("accessors of nothing give something")
			}
		}); pv != nil {
			fail("Choice of %s panics: %v", key, pv)
		}
		if b == nil {
			return
		}
		for _, x := range all {
			for _, y := range all {
				want := ""
				if _, has := b[x]; has {
					want = x
				} else if _, has := b[y]; has {
					want = y
				}
				c.Evals++
				_, hasX := b[x]
				_, hasY := b[y]
				hasAny := hasX || hasY
				got, g := ast.Which(b, x, y)
				if got != want || (g != nil) != hasAny {
					fail("Which of %q and %q in %s: got %q", x, y, key, got)
				}
				if g != nil && showNode(ast.Branch{"": g}) != showNode(ast.Branch{"": b[want]}) {
					fail("Which of %q and %q in %s: got %v", x, y, key, g)
				}
			}
		}
	})
	c.Outcome("accessors-agree")
}

// compareBag compares all pairs of nodes that were kept.
func compareBag(c *eng.Ctx, limit int) {
	var keys []string
	for k := range bag.seen {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if len(keys[i]) != len(keys[j]) {
			return len(keys[i]) < len(keys[j])
		}
		return keys[i] < keys[j]
	})
	if len(keys) > limit {
		keys = keys[:limit]
	}
	content := make([]string, len(keys))
	for i, k := range keys {
		content[i] = contentKey(bag.seen[k])
	}
	for i, a := range keys {
		for j, b := range keys {
			c.Transitions++
			var got bool
			if pv := eng.Try(func() { got = bag.seen[a].ContentEquals(bag.seen[b]) }); pv != nil {
				c.Fail(a+" and "+b, "comparing panics: %v", pv)
				continue
			}
			if want := content[i] == content[j]; got != want {
				c.Fail(a+" and "+b, "ContentEquals gives %v", got)
			}
			if got && i != j {
				c.Outcome("equal-elsewhere")
			}
		}
		if bag.seen[a].ContentEquals(nil) {
			c.Fail(a, "equals nothing")
		}
	}
	c.Outcome("compared")
}

func richASTs(x *eng.Gen, f func(c *eng.Ctx, what string, b ast.Branch), after func(c *eng.Ctx)) {
	for i := range richList {
		r := &richList[i]
		x.KCase("rich "+r.name, func(c *eng.Ctx) {
			newBag()
			if err := r.write(c.Work); err != nil {
				panic(err)
			}
			w, err := newWorld(r, c.Work)
			if err != nil {
				c.Fail("compile", "%v", err)
				return
			}
			for _, in := range r.inputs {
				b, ok := w.ast(in)
				if ok {
					f(c, fmt.Sprintf("%s on %q", r.text, in), b)
				}
			}
			after(c)
		})
	}
	// The ASTs of grammars are ASTs like others.
	x.KCase("grammars", func(c *eng.Ctx) {
		newBag()
		for i := range richList {
			p, err := richList[i].compile(c.Work)
			if err != nil {
				continue
			}
			if n, ok := p.Node().(interface{ GetAstNode() ast.Node }); ok {
				f(c, richList[i].text, n.GetAstNode().(ast.Branch))
			}
		}
		after(c)
	})
}

func genC28(x *eng.Gen) {
	genMode = "use"
	genTrees(x, 3, 4)
	richASTs(x, useAST, func(c *eng.Ctx) { compareBag(c, 1000) })
	handCompared(x)
}

// handCompared compares all pairs of hand-made ASTs of all shapes, in which
// lists may be empty.
func handCompared(x *eng.Gen) {
	size := 4
	if x.Thorough {
		size = 5
	}
	leaf := func(s string) ast.Node { return ast.Leaf(*parser.NewScanner(s)) }
	memo := map[int][]ast.Node{}
	var shapes func(n int) []ast.Node
	children := func(n int) []ast.Children {
		if n == 0 {
			return []ast.Children{ast.Many{}}
		}
		var out []ast.Children
		for _, k := range shapes(n) {
			out = append(out, ast.One{Node: k}, ast.Many{k})
		}
		for i := 1; i < n; i++ {
			for _, k := range shapes(i) {
				for _, l := range shapes(n - i) {
					out = append(out, ast.Many{k, l})
				}
			}
		}
		return out
	}
	shapes = func(n int) []ast.Node {
		if m, has := memo[n]; has {
			return m
		}
		var out []ast.Node
		if n == 1 {
			out = append(out, leaf("x"), leaf("y"), ast.Extra{Data: parser.Choice(0)}, ast.Extra{Data: parser.Rule("x")}, ast.Branch{})
		}
		for _, c := range children(n - 1) {
			for _, name := range []string{"a", "b"} {
				out = append(out, ast.Branch{name: c})
			}
		}
		for i := 0; i <= n-1; i++ {
			for _, c := range children(i) {
				for _, d := range children(n - 1 - i) {
					out = append(out, ast.Branch{"a": c, "b": d})
				}
			}
		}
		memo[n] = out
		return out
	}
	var all []ast.Node
	for n := 1; n <= size; n++ {
		all = append(all, shapes(n)...)
	}
	small := len(shapes(1)) + len(shapes(2)) + len(shapes(3))
	var content []string
	for _, n := range all {
		content = append(content, contentKey(n))
	}
	for from := 0; from < len(all); from += 64 {
		part := all[from:min(from+64, len(all))]
		x.Case(func() string { return fmt.Sprintf("hand-made ASTs from %d", from) }, func(c *eng.Ctx) {
			newBag()
			for i, a := range part {
				if b, ok := a.(ast.Branch); ok {
					useAST(c, "a hand-made AST", b)
				}
				for j, b := range all {
					if j >= small && from+i >= small {
						break // one of the two is small
					}
					c.Transitions++
					var got bool
					if pv := eng.Try(func() { got = a.ContentEquals(b) }); pv != nil {
						c.Fail(content[from+i]+" and "+content[j], "comparing panics: %v", pv)
						continue
					}
					if want := content[from+i] == content[j]; got != want {
						c.Fail(content[from+i]+" and "+content[j], "ContentEquals gives %v", got)
					}
				}
			}
		})
	}
	x.KCase("compared with nothing", func(c *eng.Ctx) {
		for i, a := range all[:small] {
			if pv := eng.Try(func() {
				if a.ContentEquals(nil) {
					c.Fail(content[i], "equals nothing")
				}
			}); pv != nil {
				c.Fail(content[i], "comparing with nothing panics: %v", pv)
			}
		}
	})
}

func genC27(x *eng.Gen) {
	genMode = "view"
	genTrees(x, 3, 4)
	richASTs(x, viewAST, func(*eng.Ctx) {})
	handMade(x)
	imitations(x)
	genericTrees(x)
	parseTrees(x)
}

// parseTrees looks at every place of every parse tree, and at the tree in the
// normal form that trees are compared in.
func parseTrees(x *eng.Gen) {
	for n := 1; n <= bound(x, 4, 5); n++ {
		trees := allTrees(n)
		const chunk = 1024
		for from := 0; from < len(trees); from += chunk {
			part := trees[from:min(from+chunk, len(trees))]
			x.Case(func() string { return fmt.Sprintf("parse trees of %d nodes from %d", n, from) }, func(c *eng.Ctx) {
				for _, e := range part {
					if t, ok := e.(parser.Node); ok {
						c.States++
						c.Guard(treeKey(t), func() { navigate(c, t) })
					}
				}
				c.OutcomeN("parse trees", c.States)
			})
		}
	}
}

func navigate(c *eng.Ctx, root parser.Node) {
	key := treeKey(root)
	made := *parser.NewNode(root.Tag, root.Extra, root.Children...)
	norm := root.Normalize()
	for what, t := range map[string]parser.Node{"NewNode": made, "Normalize": norm} {
		if got := treeKey(t); got != key {
			c.Fail(key, "%s makes it %s", what, got)
		}
	}
	var walk func(path []int, want parser.TreeElement)
	walk = func(path []int, want parser.TreeElement) {
		c.Evals++
		wk := treeKey(want)
		for _, t := range []parser.Node{root, norm} {
			if got := treeKey(t.Get(path...)); got != wk {
				c.Fail(key, "at %v there is %s, but Get gives %s", path, wk, got)
			}
		}
		switch want := want.(type) {
		case parser.Node:
			if got := root.GetNode(path...); treeKey(got) != wk || got.Count() != len(want.Children) {
				c.Fail(key, "at %v there is %s, but GetNode gives %s with %d children", path, wk, treeKey(got), got.Count())
			}
			for i, k := range want.Children {
				walk(append(path[:len(path):len(path)], i), k)
			}
		case parser.Scanner:
			if got := root.GetScanner(path...); got.String() != want.String() || got.Offset() != want.Offset() || root.GetString(path...) != want.String() {
				c.Fail(key, "at %v there is %s, but GetScanner gives %q, GetString %q", path, wk, got.String(), root.GetString(path...))
			}
		}
	}
	walk(nil, root)
	// The text has everything, in order.
	text := root.String()
	rest := text
	var shown func(e parser.TreeElement)
	find := func(what string) {
		i := strings.Index(rest, what)
		if i < 0 {
			c.Fail(key, "its text %q lacks %q after %q", text, what, text[:len(text)-len(rest)])
			return
		}
		rest = rest[i+len(what):]
	}
	shown = func(e parser.TreeElement) {
		switch e := e.(type) {
		case parser.Node:
			find(e.Tag)
			if e.Extra != nil {
				find("║" + fmt.Sprintf("%v", e.Extra))
			}
			find("[")
			for _, k := range e.Children {
				shown(k)
			}
			find("]")
		case parser.Scanner:
			find(e.String())
		}
	}
	shown(root)
	// What is done to the normal form does not reach the tree.
	for i := range norm.Children {
		norm.Children[i] = parser.Empty{}
	}
	if got := treeKey(root); got != key {
		c.Fail(key, "writing to its normal form made it %s", got)
	}
}

// imitations looks for leaves that make an AST look like another one, by taking
// as the text of a leaf every part of the text of the other AST that follows
// what a leaf begins with.
func imitations(x *eng.Gen) {
	size := 5
	if x.Thorough {
		size = 6
	}
	memo := map[int][]ast.Node{}
	var shapes func(n int) []ast.Node
	children := func(n int) []ast.Children {
		var out []ast.Children
		for _, k := range shapes(n) {
			out = append(out, ast.One{Node: k}, ast.Many{k})
		}
		for i := 1; i < n; i++ {
			for _, k := range shapes(i) {
				for _, l := range shapes(n - i) {
					out = append(out, ast.Many{k, l})
				}
			}
		}
		return out
	}
	shapes = func(n int) []ast.Node {
		if m, has := memo[n]; has {
			return m
		}
		var out []ast.Node
		if n == 1 {
			out = append(out, ast.Leaf{}, ast.Extra{Data: parser.Choice(0)}, ast.Branch{})
		} else {
			for _, c := range children(n - 1) {
				for _, name := range []string{"", "a"} {
					out = append(out, ast.Branch{name: c})
				}
			}
			for i := 1; i < n-1; i++ {
				for _, c := range children(i) {
					for _, d := range children(n - 1 - i) {
						out = append(out, ast.Branch{"": c, "a": d})
					}
				}
			}
		}
		memo[n] = out
		return out
	}
	var all []ast.Branch
	for n := 2; n <= size; n++ {
		for _, s := range shapes(n) {
			if b, ok := s.(ast.Branch); ok {
				all = append(all, b)
			}
		}
	}
	// The ASTs that may look like another have just one leaf.
	var single []func(l ast.Leaf) ast.Branch
	for _, name := range []string{"", "a"} {
		single = append(single,
			func(l ast.Leaf) ast.Branch { return ast.Branch{name: ast.One{Node: l}} },
			func(l ast.Leaf) ast.Branch { return ast.Branch{name: ast.Many{l}} })
		for _, inner := range []string{"", "a"} {
			single = append(single,
				func(l ast.Leaf) ast.Branch {
					return ast.Branch{name: ast.One{Node: ast.Branch{inner: ast.One{Node: l}}}}
				},
				func(l ast.Leaf) ast.Branch {
					return ast.Branch{name: ast.Many{ast.Branch{inner: ast.Many{l}}}}
				})
		}
	}
	words := []string{"x", "`", "\"", " "}
	for from := 0; from < len(all); from += 32 {
		part := all[from:min(from+32, len(all))]
		x.Case(func() string { return fmt.Sprintf("imitations of shapes from %d", from) }, func(c *eng.Ctx) {
			for _, s := range part {
				for _, word := range words {
					next := 0
					b := fill(s, word, &next).(ast.Branch)
					text := b.String()
					for at := range text {
						rest, ok := strings.CutPrefix(text[at:], "0‣")
						if !ok {
							continue
						}
						for _, mark := range []string{"", "\"", "`"} {
							body, ok := strings.CutPrefix(rest, mark)
							if !ok {
								continue
							}
							for end := 1; end <= len(body); end++ {
								leaf := ast.Leaf(*parser.NewScanner(body[:end]))
								for _, f := range single {
									o := f(leaf)
									c.Evals++
									c.States++
									if o.String() == text && showNode(o) != showNode(b) {
										c.Fail(text, "is the text of %s and of %s", showNode(b), showNode(o))
									}
								}
							}
						}
					}
				}
			}
			c.Outcome("no-imitation")
		})
	}
}

// fill copies a shape with text for its leaves.
func fill(n ast.Node, word string, next *int) ast.Node {
	switch n := n.(type) {
	case ast.Leaf:
		l := ast.Leaf(*parser.NewScannerAt(strings.Repeat(" ", *next)+word, *next, len(word)))
		*next += 3
		return l
	case ast.Branch:
		out := ast.Branch{}
		for _, name := range []string{"", "a"} {
			switch g := n[name].(type) {
			case ast.One:
				out[name] = ast.One{Node: fill(g.Node, word, next)}
			case ast.Many:
				m := ast.Many{}
				for _, k := range g {
					m = append(m, fill(k, word, next))
				}
				out[name] = m
			}
		}
		return out
	}
	return n
}

// handMade views ASTs of all shapes with leaves of all kinds of text.
func handMade(x *eng.Gen) {
	src := "ab\"`'\\,:(){}[]\n\t é\x00\xff‣...:1 a ‣ b@empty2,"
	var leaves []ast.Node
	for off := 0; off <= len(src); off++ {
		for _, n := range []int{0, 1, 2, 3, 5, len(src)} {
			if off+n <= len(src) {
				leaves = append(leaves, ast.Leaf(*parser.NewScannerAt(src, off, n)))
			}
		}
	}
	long := strings.Repeat("long ", 50)
	leaves = append(leaves, ast.Leaf(*parser.NewScanner(long)), ast.Leaf(*parser.NewScanner(long + "!")), ast.Leaf(*parser.NewScannerAt(strings.Repeat(" ", 12345)+"x", 12345, 1)), ast.Leaf(parser.Scanner{}))
	x.KCase("leaves of all kinds", func(c *eng.Ctx) {
		newBag()
		for _, l := range leaves {
			viewAST(c, "one leaf", ast.Branch{"": ast.One{Node: l}, "@rule": ast.One{Node: ast.Extra{Data: parser.Rule("a")}}})
		}
		for i, l := range leaves {
			for _, m := range leaves[:i] {
				if m.Scanner().Offset() > l.Scanner().Offset() {
					continue
				}
				viewAST(c, "two leaves", ast.Branch{"": ast.Many{m, l}})
				viewAST(c, "a leaf and a name", ast.Branch{"": ast.One{Node: m}, "n": ast.One{Node: ast.Branch{"": ast.One{Node: l}}}})
			}
		}
	})
	// All shapes: a node has up to two names, each with one node or a list.
	size := 5
	if x.Thorough {
		size = 6
	}
	names := []string{"a", "b"}
	var shapes func(n int) []ast.Node
	memo := map[int][]ast.Node{}
	children := func(n int) []ast.Children { // n nodes in all
		var out []ast.Children
		for _, k := range shapes(n) {
			out = append(out, ast.One{Node: k}, ast.Many{k})
		}
		for i := 1; i < n; i++ {
			for _, k := range shapes(i) {
				for _, l := range shapes(n - i) {
					out = append(out, ast.Many{k, l})
				}
			}
		}
		return out
	}
	shapes = func(n int) []ast.Node {
		if m, has := memo[n]; has {
			return m
		}
		var out []ast.Node
		if n == 1 {
			out = append(out, ast.Leaf{}, ast.Branch{})
		} else if n > 1 {
			for _, c := range children(n - 1) {
				for _, name := range names {
					out = append(out, ast.Branch{name: c})
				}
			}
			for i := 1; i < n-1; i++ {
				for _, c := range children(i) {
					for _, d := range children(n - 1 - i) {
						out = append(out, ast.Branch{"a": c, "b": d})
					}
				}
			}
		}
		memo[n] = out
		return out
	}
	for n := 1; n <= size; n++ {
		list := shapes(n)
		for from := 0; from < len(list); from += 512 {
			part := list[from:min(from+512, len(list))]
			x.Case(func() string { return fmt.Sprintf("shapes of %d nodes from %d", n, from) }, func(c *eng.Ctx) {
				newBag()
				for _, s := range part {
					b, ok := s.(ast.Branch)
					if !ok {
						continue
					}
					for start := range 2 {
						next := start * 9
						viewAST(c, "a shape", number(b, &next).(ast.Branch))
					}
				}
			})
		}
	}
}

const numberSrc = "abcdefghijklmnopqrstuvwxyz"

// number gives the leaves of a shape texts from left to right.
func number(n ast.Node, next *int) ast.Node {
	switch n := n.(type) {
	case ast.Leaf:
		l := ast.Leaf(*parser.NewScannerAt(numberSrc, *next, 1))
		*next++
		return l
	case ast.Branch:
		out := ast.Branch{}
		for _, k := range []string{"a", "b"} {
			switch c := n[k].(type) {
			case ast.One:
				out[k] = ast.One{Node: number(c.Node, next)}
			case ast.Many:
				var many ast.Many
				for _, c := range c {
					many = append(many, number(c, next))
				}
				out[k] = many
			}
		}
		return out
	}
	return n
}

// shape is a generic tree.
type shape struct {
	text string
	kids []*shape
}

func (s *shape) String() string { return fmt.Sprintf("%q%v", s.text, s.kids) }

func (s *shape) make() gotree.Tree {
	t := gotree.New(s.text)
	for i, k := range s.kids {
		if len(k.kids) == 0 && i%2 == 0 {
			t.Add(k.text)
		} else {
			t.AddTree(k.make())
		}
	}
	return t
}

// same compares a tree with a shape.
func (s *shape) same(t gotree.Tree) bool {
	if t.Text() != s.text || len(t.Items()) != len(s.kids) {
		return false
	}
	for i, k := range s.kids {
		if !k.same(t.Items()[i]) {
			return false
		}
	}
	return true
}

// rank is the number that a tree is sorted by.
func (s *shape) rank() string {
	n := 0
	for n < len(s.text) && s.text[n] >= '0' && s.text[n] <= '9' {
		n++
	}
	switch {
	case n > 0 && s.text[0] != '0':
		return fmt.Sprintf("%030s", s.text[:n])
	case len(s.kids) == 0:
		return ""
	}
	least := s.kids[0].rank()
	for _, k := range s.kids {
		least = min(least, k.rank())
	}
	return least
}

func genericTrees(x *eng.Gen) {
	size := 5
	if x.Thorough {
		size = 6
	}
	run := func(what string, texts []string, size int, sorting bool) {
		memo := map[int][]*shape{}
		var forests func(n int) [][]*shape
		var shapes func(n int) []*shape
		shapes = func(n int) []*shape {
			if m, has := memo[n]; has {
				return m
			}
			var out []*shape
			for _, f := range forests(n - 1) {
				for _, t := range texts {
					out = append(out, &shape{t, f})
				}
			}
			memo[n] = out
			return out
		}
		forests = func(n int) [][]*shape {
			if n == 0 {
				return [][]*shape{nil}
			}
			var out [][]*shape
			for i := 1; i <= n; i++ {
				for _, first := range shapes(i) {
					for _, rest := range forests(n - i) {
						out = append(out, append([]*shape{first}, rest...))
					}
				}
			}
			return out
		}
		x.KCase(what, func(c *eng.Ctx) {
			prints := map[string]*shape{}
			for n := 1; n <= size; n++ {
				for _, s := range shapes(n) {
					c.States++
					c.Evals++
					if pv := eng.Try(func() {
						t := s.make()
						if !s.same(t) {
							c.Fail(s.String(), "the tree that was made is not that")
						}
						p := t.Print()
						if other, has := prints[p]; has {
							c.Fail(s.String(), "prints like %s:\n%s", other, p)
						}
						prints[p] = s
						if again := t.Print(); again != p || !s.same(t) {
							c.Fail(s.String(), "printing changes the tree")
						}
						if !sorting {
							return
						}
						sorted := &shape{s.text, append([]*shape(nil), s.kids...)}
						sort.SliceStable(sorted.kids, func(i, j int) bool { return sorted.kids[i].rank() < sorted.kids[j].rank() })
						t.SortItems()
						if !sorted.same(t) {
							c.Fail(s.String(), "sorted:\n%s\nwant %s", t.Print(), sorted)
						}
					}); pv != nil {
						c.Fail(s.String(), "panics: %v", pv)
					}
				}
			}
			c.Outcome("generic trees")
		})
	}
	run("generic trees, lines", []string{"", "a", "a\nb", "b\n"}, size, false)
	run("generic trees, numbers", []string{"x", "2", "10y", "0", "99999999999999999999"}, size-1, true)
}
