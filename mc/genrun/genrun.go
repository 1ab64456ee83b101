// Package genrun drives generated parsers: it is linked with a batch of them and
// compares their typed trees and walkers with the plain AST.
package genrun

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// Prog is a generated parser.
type Prog struct {
	Index       int
	Text, Start string
	Inputs      []string
	Loose       bool // separators without names, which have no accessors, are among the tokens
	ParseString func(string) (any, error)
	Parse       func(*parser.Scanner) (any, error)
	New         func(ast.Node) any
	Ops         reflect.Type // its WalkerOps
	Exiter      any
	Aborter     any
}

// Result is what was found out about a program.
type Result struct {
	Index                                    int
	Input, Message                           string
	Parses, Nodes, Accessors, Walks, Rejects int
}

// Run checks every program, and writes the results.
func Run(progs []Prog) {
	enc := json.NewEncoder(os.Stdout)
	for i := range progs {
		r := runner{p: &progs[i]}
		r.res.Index = progs[i].Index
		r.run()
		enc.Encode(r.res)
	}
}

type runner struct {
	p     *Prog
	res   Result
	input string
}

type failure string

func (r *runner) fail(format string, args ...any) {
	panic(failure(fmt.Sprintf(format, args...)))
}

func (r *runner) run() {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case failure:
			r.res.Input, r.res.Message = r.input, string(e)
		default:
			r.res.Input, r.res.Message = r.input, fmt.Sprintf("panic: %v", e)
		}
	}()
	p, err := wbnf.Compile(r.p.Text, nil)
	if err != nil {
		r.fail("compiling: %v", err)
	}
	for _, in := range r.p.Inputs {
		r.input = in
		r.one(p, in)
	}
}

func (r *runner) one(p parser.Parsers, in string) {
	te, err := p.Parse(parser.Rule(r.p.Start), parser.NewScanner(in))
	got, gerr := r.p.ParseString(in)
	got2, gerr2 := r.p.Parse(parser.NewScanner(in))
	if fmt.Sprintf("%T", err) != fmt.Sprintf("%T", gerr) || fmt.Sprintf("%T", err) != fmt.Sprintf("%T", gerr2) {
		r.fail("ParseString gives the error %v, Parse %v, the grammar %v", gerr, gerr2, err)
	}
	r.res.Parses++
	if err != nil {
		r.res.Rejects++
		return
	}
	raw := ast.FromParserNode(p.Grammar(), te)
	want := Show(raw)
	for _, g := range []any{got, got2, r.p.New(raw)} {
		if s := Show(nodeOf(reflect.ValueOf(g))); s != want {
			r.fail("the AST is %s, that of the grammar %s", s, want)
		}
	}
	root := r.visit(reflect.ValueOf(got), raw)
	r.walks(got, root)
}

func nodeOf(v reflect.Value) ast.Node {
	for v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	n, _ := v.FieldByName("Node").Interface().(ast.Node)
	return n
}

// typed is a node as the accessors show it.
type typed struct {
	name string
	node ast.Node
	kids []*typed
}

func norm(s string) string {
	s = strings.ToLower(s)
	return strings.Map(func(c rune) rune {
		if c >= 'a' && c <= 'z' || c >= '0' && c <= '9' {
			return c
		}
		return -1
	}, s)
}

func text(n ast.Node) string {
	s := n.Scanner()
	if s.IsNil() {
		return ""
	}
	return s.String()
}

// visit compares what the accessors of v give with the AST.
func (r *runner) visit(v reflect.Value, node ast.Node) *typed {
	if v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	r.res.Nodes++
	t := &typed{name: v.Type().Name(), node: node}
	if s, w := Show(nodeOf(v)), Show(node); s != w {
		r.fail("%s holds %s where the AST has %s", t.name, s, w)
	}
	ptr := reflect.New(v.Type())
	ptr.Elem().Set(v)
	ones, alls, refs := map[string]reflect.Value{}, map[string]reflect.Value{}, map[string]reflect.Value{}
	own := reflect.TypeOf((*ast.Node)(nil)).Elem()
	for i := 0; i < ptr.NumMethod(); i++ {
		m, n := ptr.Method(i), ptr.Type().Method(i).Name
		mt := m.Type()
		if _, has := own.MethodByName(n); has && n != "String" || mt.NumIn() != 0 || mt.NumOut() != 1 {
			continue
		}
		switch {
		case n == "Choice":
			if got, want := m.Call(nil)[0].Interface(), choice(node); !reflect.DeepEqual(got, want) && want != nil {
				r.fail("%s.Choice() is %v, %v in the AST %s", t.name, got, want, Show(node))
			}
		case n == "String" && mt.Out(0).Kind() == reflect.String:
			if isOwn(ptr.Type()) {
				if got := m.Call(nil)[0].String(); got != text(node) {
					r.fail("%s.String() is %q, the text is %q", t.name, got, text(node))
				}
			}
		case n == "GetAstNode":
			if got := m.Call(nil)[0].Interface(); Show(got.(ast.Node)) != Show(node) {
				r.fail("%s.GetAstNode() isn't its node", t.name)
			}
		case strings.HasPrefix(n, "One"):
			ones[norm(n[3:])] = m
		case strings.HasPrefix(n, "All"):
			alls[norm(n[3:])] = m
		case strings.HasSuffix(n, "Ref"):
			refs[norm(n[:len(n)-3])] = m
		}
	}
	b, ok := node.(ast.Branch)
	if !ok && node != nil {
		return t
	}
	var names []string
	for k := range b {
		if !strings.HasPrefix(k, "@") {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	present := map[string]bool{}
	for _, name := range names {
		var kids []ast.Node
		switch c := b[name].(type) {
		case ast.One:
			kids = []ast.Node{c.Node}
		case ast.Many:
			kids = c
		}
		if len(kids) == 0 {
			continue
		}
		if _, ok := kids[0].(ast.Extra); ok {
			continue
		}
		key := norm(name)
		if name == "" {
			key = "token"
		}
		present[key] = true
		one, hasOne := ones[key]
		all, hasAll := alls[key]
		ref, hasRef := refs[key]
		if !hasOne && !hasAll && !hasRef {
			if name == "" {
				continue // separators have no accessors
			}
			r.fail("%s has no accessor for %q in %s", t.name, name, Show(node))
		}
		same := true
		for _, k := range kids {
			same = same && text(k) == text(kids[0])
		}
		var viaAll []*typed
		if hasAll {
			out := all.Call(nil)[0]
			r.res.Accessors++
			if out.Len() != len(kids) {
				r.fail("%s.All%s() gives %d of %d in %s", t.name, key, out.Len(), len(kids), Show(node))
			}
			for i, k := range kids {
				if x := r.match(t, "All"+key, out.Index(i), k); x != nil {
					viaAll = append(viaAll, x)
				}
			}
			t.kids = append(t.kids, viaAll...)
		}
		if hasOne {
			r.res.Accessors++
			out := one.Call(nil)[0]
			x := r.match(t, "One"+key, out, kids[0])
			if !hasAll && !(r.p.Loose && key == "token") {
				if len(kids) > 1 && (!same || x != nil) {
					r.fail("%s.One%s() gives one of %d in %s", t.name, key, len(kids), Show(node))
				}
				if x != nil {
					t.kids = append(t.kids, x)
				}
			}
		}
		if hasRef {
			r.res.Accessors++
			n, _ := ref.Call(nil)[0].Interface().(ast.Node)
			if n == nil || Show(n) != Show(kids[0]) {
				r.fail("%s.%sRef() gives %s of %s", t.name, key, Show(n), Show(node))
			}
		}
	}
	for k, m := range ones {
		if out := m.Call(nil)[0]; !present[k] && k != "token" && !out.IsZero() {
			r.fail("%s.One%s() gives %v, which is not in %s", t.name, k, out, Show(node))
		}
	}
	for k, m := range alls {
		if out := m.Call(nil)[0]; !present[k] && out.Len() != 0 {
			r.fail("%s.All%s() gives %v, which is not in %s", t.name, k, out, Show(node))
		}
	}
	for k, m := range refs {
		if out := m.Call(nil)[0]; !present[k] && !out.IsNil() {
			r.fail("%s.%sRef() gives %v, which is not in %s", t.name, k, out, Show(node))
		}
	}
	return t
}

// isOwn tells whether a type has a String method of its own.
func isOwn(t reflect.Type) bool {
	_, onValue := t.Elem().MethodByName("String")
	_, onNode := reflect.TypeOf((*ast.Node)(nil)).Elem().MethodByName("String")
	return !onValue || !onNode || t.Elem().NumField() != 1
}

func (r *runner) match(t *typed, what string, out reflect.Value, kid ast.Node) *typed {
	switch out.Kind() {
	case reflect.String:
		if out.String() != text(kid) {
			r.fail("%s.%s() gives %q for %s", t.name, what, out.String(), Show(kid))
		}
		return nil
	case reflect.Pointer:
		if out.IsNil() {
			r.fail("%s.%s() gives nothing for %s", t.name, what, Show(kid))
		}
	case reflect.Struct:
	default:
		r.fail("%s.%s() gives %v", t.name, what, out.Type())
	}
	// A name that stands for a rule may give the rule's node.
	if b, ok := kid.(ast.Branch); ok && Show(nodeOf(out)) != Show(kid) {
		for k, c := range b {
			if one, ok := c.(ast.One); ok && k != "" && len(b) == 1 && Show(one.Node) == Show(nodeOf(out)) {
				kid = one.Node
			}
		}
	}
	return r.visit(out, kid)
}

func choice(n ast.Node) any {
	b, ok := n.(ast.Branch)
	if !ok {
		return -1
	}
	switch c := b["@choice"].(type) {
	case nil:
		return -1
	case ast.One:
		return int(c.Node.(ast.Extra).Data.(parser.Choice))
	case ast.Many:
		return int(c[0].(ast.Extra).Data.(parser.Choice))
	}
	return nil
}

type event struct {
	enter bool
	name  string
	node  string
}

func (e event) String() string {
	if e.enter {
		return "enter " + e.name + " " + e.node
	}
	return "exit " + e.name + " " + e.node
}

// walk runs the walker; at the given event it returns stop.
func (r *runner) walk(tree any, at int, stop any) (evs []event, res any) {
	r.res.Walks++
	ops := reflect.New(r.p.Ops).Elem()
	for i := 0; i < ops.NumField(); i++ {
		f, name := ops.Field(i), r.p.Ops.Field(i).Name
		enter := strings.HasPrefix(name, "Enter")
		if f.Kind() != reflect.Func || !enter && !strings.HasPrefix(name, "Exit") {
			continue
		}
		ft := f.Type()
		f.Set(reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
			out := reflect.Zero(ft.Out(0))
			if len(evs) == at && stop != nil {
				out = reflect.New(ft.Out(0)).Elem()
				out.Set(reflect.ValueOf(stop))
			}
			evs = append(evs, event{enter, args[0].Type().Name(), Show(nodeOf(args[0]))})
			return []reflect.Value{out}
		}))
	}
	out := ops.MethodByName("Walk").Call([]reflect.Value{reflect.ValueOf(tree)})[0]
	return evs, out.Interface()
}

func showEvents(evs []event) string {
	var out []string
	for _, e := range evs {
		out = append(out, e.String())
	}
	return strings.Join(out, ", ")
}

func (r *runner) walks(tree any, root *typed) {
	evs, res := r.walk(tree, -1, nil)
	if res != nil {
		r.fail("walking to the end returns %v", res)
	}
	// Match the events with the tree.
	ends := make([]int, len(evs)) // of what is entered there
	pos := 0
	var match func(t *typed)
	match = func(t *typed) {
		start := pos
		if pos >= len(evs) || !evs[pos].enter || evs[pos].name != t.name || evs[pos].node != Show(t.node) {
			r.fail("walking %s: event %d is not the entry of %s %s: %s", Show(root.node), pos, t.name, Show(t.node), showEvents(evs))
		}
		pos++
		left := append([]*typed(nil), t.kids...)
		for len(left) > 0 && pos < len(evs) && evs[pos].enter {
			found := -1
			for i, k := range left {
				if evs[pos].name == k.name && evs[pos].node == Show(k.node) {
					found = i
					break
				}
			}
			if found < 0 {
				r.fail("walking %s: %v is not a part of %s %s: %s", Show(root.node), evs[pos], t.name, Show(t.node), showEvents(evs))
			}
			k := left[found]
			left = append(left[:found:found], left[found+1:]...)
			match(k)
		}
		if len(left) > 0 {
			r.fail("walking %s: %s %s is not visited: %s", Show(root.node), left[0].name, Show(left[0].node), showEvents(evs))
		}
		if pos < len(evs) && !evs[pos].enter && evs[pos].name == t.name && evs[pos].node == Show(t.node) {
			pos++
		} else if len(t.kids) > 0 {
			r.fail("walking %s: %s %s is not left: %s", Show(root.node), t.name, Show(t.node), showEvents(evs))
		}
		ends[start] = pos
	}
	match(root)
	if pos != len(evs) {
		r.fail("walking %s: more than the tree: %s", Show(root.node), showEvents(evs[pos:]))
	}
	if len(evs) > 40 {
		return
	}
	for at, e := range evs {
		want := append([]event(nil), evs...)
		if e.enter {
			want = append(append([]event(nil), evs[:at+1]...), evs[ends[at]:]...)
		}
		got, res := r.walk(tree, at, r.p.Exiter)
		if res != nil || showEvents(got) != showEvents(want) {
			r.fail("walking %s with NodeExiter from %s: %s (returns %v), want %s", Show(root.node), e, showEvents(got), res, showEvents(want))
		}
		got, res = r.walk(tree, at, r.p.Aborter)
		if res != r.p.Aborter || showEvents(got) != showEvents(evs[:at+1]) {
			r.fail("walking %s with Aborter from %s: %s (returns %v)", Show(root.node), e, showEvents(got), res)
		}
	}
}

// Show writes an AST node out.
func Show(n ast.Node) string {
	switch n := n.(type) {
	case ast.Leaf:
		s := n.Scanner()
		return fmt.Sprintf("%d:%q", s.Offset(), s.String())
	case ast.Extra:
		return fmt.Sprintf("!%v", n.Data)
	case ast.Branch:
		var keys []string
		for k := range n {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var sb strings.Builder
		sb.WriteByte('(')
		for _, k := range keys {
			sb.WriteString(k)
			switch c := n[k].(type) {
			case ast.One:
				sb.WriteString("=" + Show(c.Node))
			case ast.Many:
				sb.WriteString("=[")
				for _, c := range c {
					sb.WriteString(Show(c) + ",")
				}
				sb.WriteByte(']')
			}
			sb.WriteByte(';')
		}
		sb.WriteByte(')')
		return sb.String()
	}
	return fmt.Sprintf("%T", n)
}
