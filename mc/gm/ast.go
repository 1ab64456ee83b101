package gm

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Ast is a node of the model's abstract syntax: a leaf, a mark (the chosen
// alternative, a missing element, a rule name), or a branch with named groups.
type Ast struct {
	Leaf     bool
	Off, Len int
	Mark     string
	B        map[string]*Group
	Opaque   any
}

// Group is what a branch has under one name: a single node or a list.
type Group struct {
	Many bool
	L    []*Ast
}

func (a *Ast) Str(src string) string {
	switch {
	case a.Opaque != nil:
		return fmt.Sprintf("<%v>", a.Opaque)
	case a.Leaf:
		return fmt.Sprintf("%d:%q", a.Off, src[a.Off:a.Off+a.Len])
	case a.B == nil:
		return a.Mark
	}
	var keys []string
	for k := range a.B {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var sb strings.Builder
	sb.WriteByte('(')
	for i, k := range keys {
		if i > 0 {
			sb.WriteString(" ")
		}
		fmt.Fprintf(&sb, "%s=", k)
		g := a.B[k]
		if g.Many {
			sb.WriteByte('[')
		}
		for j, n := range g.L {
			if j > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(n.Str(src))
		}
		if g.Many {
			sb.WriteByte(']')
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

// Leaves calls f for every leaf below a.
func (a *Ast) Leaves(f func(*Ast)) {
	if a.Leaf {
		f(a)
	}
	for _, g := range a.B {
		for _, n := range g.L {
			n.Leaves(f)
		}
	}
}

// occ is how often a name may occur directly below a body, up to 2 ("many").
func occ(f frame, t *T) map[string]int {
	out := map[string]int{}
	addOcc(out, f, t, 1)
	return out
}

func addOcc(out map[string]int, f frame, t *T, mult int) {
	add := func(name string, n int) {
		if out[name] += n; out[name] > 2 {
			out[name] = 2
		}
	}
	switch t.Op {
	case Str, Re:
		add("", mult)
	case Ref:
		name := t.S
		if name == "@" {
			name = f.rule
		}
		add(name, mult)
	case Seq:
		for _, k := range t.Kids {
			addOcc(out, f, k, mult)
		}
	case Alt:
		most := map[string]int{}
		for _, k := range t.Kids {
			for name, n := range occ(f, k) {
				if n > most[name] {
					most[name] = n
				}
			}
		}
		for name, n := range most {
			add(name, n*mult)
		}
	case Rep:
		n := t.Max
		if n == 0 || n > 2 {
			n = 2
		}
		addOcc(out, f, t.Kids[0], cap2(n*mult))
	case Del:
		if t.Assoc != 0 {
			add(":", mult)
		}
		addOcc(out, f, t.Kids[0], 2)
		addOcc(out, f, t.Kids[1], 2)
	case Named:
		add(t.S, mult)
	case Look, Cut:
		addOcc(out, f, t.Kids[0], mult)
	case Back:
		add(t.S, 2)
	case Scoped:
		addOcc(out, f, t.Kids[0], 2) // always a list
	case Ext:
		add(t.S, mult)
	}
}

func cap2(n int) int {
	if n > 2 {
		return 2
	}
	return n
}

func (a *Ast) put(name string, many bool, n *Ast) {
	g := a.B[name]
	if g == nil {
		g = &Group{Many: many}
		a.B[name] = g
	}
	if g.Many != many || !many && len(g.L) > 0 {
		panic(fmt.Sprintf("model: %q occurs more often than counted", name))
	}
	g.L = append(g.L, n)
}

// AST is the abstract syntax of a tree that rule made (after Prepare).
func (g *Gram) AST(rule string, n *N) *Ast {
	if n.Leaf {
		a := &Ast{B: map[string]*Group{}}
		a.put("", false, &Ast{Leaf: true, Off: n.Off, Len: n.Len})
		return a
	}
	f, body := enter(frame{g: g}, rule)
	a := &Ast{B: map[string]*Group{}}
	a.put("@rule", false, &Ast{Mark: rule})
	a.build(f, body, occ(f, body), n)
	return a
}

// enter resolves a reference.
func enter(f frame, name string) (frame, *T) {
	if name == "@" {
		t, g := f.sg.lookup(f.rule)
		lv := (f.level + 1) % len(t.Kids)
		return frame{g: g, rule: f.rule, sg: g, level: lv}, t.Kids[lv]
	}
	t, g := f.g.lookup(name)
	if t.Op == Stack {
		return frame{g: g, rule: name, sg: g}, t.Kids[0]
	}
	return frame{g: g}, t
}

func (a *Ast) build(f frame, t *T, oc map[string]int, n *N) {
	many := func(name string) bool { return oc[name] > 1 }
	switch t.Op {
	case Str, Re:
		a.put("", many(""), &Ast{Leaf: true, Off: n.Off, Len: n.Len})
	case Ref:
		name := t.S
		nf, body := enter(f, name)
		if name == "@" {
			name = f.rule
		}
		b := &Ast{B: map[string]*Group{}}
		b.build(nf, body, occ(nf, body), n)
		a.put(name, many(name), b)
	case Named:
		b := &Ast{B: map[string]*Group{}}
		b.build(f, t.Kids[0], occ(f, t.Kids[0]), n)
		a.put(t.S, many(t.S), b)
	case Seq:
		for i, k := range n.Kids {
			a.build(f, t.Kids[i], oc, k)
		}
	case Alt:
		a.put("@choice", true, &Ast{Mark: strconv.Itoa(n.Extra)})
		a.build(f, t.Kids[n.Extra], oc, n.Kids[0])
	case Rep:
		for _, k := range n.Kids {
			a.build(f, t.Kids[0], oc, k)
		}
	case Look:
		a.build(f, t.Kids[0], oc, n.Kids[0])
	case Cut:
		a.build(f, t.Kids[0], oc, n)
	case Scoped:
		f.g = t.G
		a.build(f, t.Kids[0], oc, n)
	case Del:
		for i, k := range n.Kids {
			switch {
			case k.Empty && i == 0:
				a.put("@empty", true, &Ast{Mark: "@prefix"})
			case k.Empty:
				a.put("@empty", true, &Ast{Mark: "@suffix"})
			case n.ChainAt == i+1:
				b := &Ast{B: map[string]*Group{}}
				b.build(f, t, occ(f, t), k)
				_, counted := oc[k.Tag]
				a.put(k.Tag, counted && many(k.Tag), b)
			default:
				a.build(f, t.Kids[i%2], oc, k)
			}
		}
	case Back:
		a.put(t.S, true, backNode(t.S, n))
	case Ext:
		if sub, ok := n.Opaque.(*Ast); ok {
			a.put(t.S, many(t.S), sub)
		}
	default:
		panic("model: bad term")
	}
}

func backNode(name string, n *N) *Ast {
	if n.Leaf {
		return &Ast{Leaf: true, Off: n.Off, Len: n.Len}
	}
	b := &Ast{B: map[string]*Group{}}
	for _, k := range n.Kids {
		b.put(name, true, backNode(name, k))
	}
	return b
}

// direct collects the names that t may contribute to its body, and must those
// that it contributes whenever it matches.
func direct(f frame, t *T, must bool) map[string]bool {
	out := map[string]bool{}
	all := func(m map[string]bool) {
		for k := range m {
			out[k] = true
		}
	}
	switch t.Op {
	case Str, Re:
		out[""] = true
	case Ref:
		if t.S == "@" {
			out[f.rule] = true
		} else {
			out[t.S] = true
		}
	case Named, Back, Ext:
		out[t.S] = true
	case Seq:
		for _, k := range t.Kids {
			all(direct(f, k, must))
		}
	case Alt:
		for i, k := range t.Kids {
			m := direct(f, k, must)
			if !must || i == 0 {
				all(m)
				continue
			}
			for k := range out {
				if !m[k] {
					delete(out, k)
				}
			}
		}
		out["@choice"] = true
	case Rep:
		if !must || t.Min > 0 {
			all(direct(f, t.Kids[0], must))
		}
	case Del:
		all(direct(f, t.Kids[0], must))
		if !must {
			all(direct(f, t.Kids[1], must))
			if t.Lead || t.Trail {
				out["@empty"] = true
			}
		}
	case Look, Cut, Scoped:
		all(direct(f, t.Kids[0], must))
	}
	return out
}

func union(ms ...map[string]bool) map[string]bool {
	out := map[string]bool{}
	for _, m := range ms {
		for k := range m {
			out[k] = true
		}
	}
	return out
}

// telling reports whether some name always contributed by t does not come
// from what follows, so that its absence tells that t did not match again.
func telling(must, after map[string]bool) bool {
	for k := range must {
		if !after[k] {
			return true
		}
	}
	return false
}

// readable reports whether the tree of t can be read off a branch when the
// names in after are contributed by what follows in the same body.
func readable(f frame, t *T, after map[string]bool) bool {
	switch t.Op {
	case Ext:
		return false
	case Named:
		return readable(f, t.Kids[0], nil)
	case Seq:
		for i := len(t.Kids) - 1; i >= 0; i-- {
			if !readable(f, t.Kids[i], after) {
				return false
			}
			after = union(after, direct(f, t.Kids[i], false))
		}
	case Alt:
		for _, k := range t.Kids {
			if !readable(f, k, after) {
				return false
			}
		}
	case Rep:
		k := t.Kids[0]
		if (t.Min != t.Max || t.Max == 0) && !telling(direct(f, k, true), after) {
			return false
		}
		if t.Max != 1 {
			after = union(after, direct(f, k, false))
		}
		return readable(f, k, after)
	case Del:
		term, sep := t.Kids[0], t.Kids[1]
		if t.Assoc != 0 {
			return false
		}
		must := direct(f, term, true)
		if !t.Trail {
			must = union(must, direct(f, sep, true))
		}
		if (t.Lead || t.Trail) && after["@empty"] || !telling(must, after) {
			return false
		}
		after = union(after, direct(f, t, false))
		return readable(f, term, after) && readable(f, sep, after)
	case Look, Cut:
		return readable(f, t.Kids[0], after)
	case Scoped:
		f.g = t.G
		for _, r := range t.G.Rules {
			if !readableRule(t.G, r) {
				return false
			}
		}
		return readable(f, t.Kids[0], after)
	}
	return true
}

func readableRule(g *Gram, r Rule) bool {
	if r.T.Op == Stack {
		for lv, l := range r.T.Kids {
			if !readable(frame{g: g, rule: r.Name, sg: g, level: lv}, l, nil) {
				return false
			}
		}
		return true
	}
	return readable(frame{g: g}, r.T, nil)
}

// Readable reports whether every tree of the grammar can be read off its
// abstract syntax: wherever the number of elements of a repetition is open,
// some name tells them from what follows (after Prepare).
func (g *Gram) Readable() bool {
	for _, r := range g.Rules {
		if !readableRule(g, r) {
			return false
		}
	}
	return true
}

// HasStructuredRef reports whether a back-reference matched more than one
// terminal somewhere in the tree.
func (n *N) HasStructuredRef() bool {
	if n.Tag == "\x00any" {
		return true
	}
	for _, k := range n.Kids {
		if k.HasStructuredRef() {
			return true
		}
	}
	return false
}

// ReadableOnce is Readable, remembered.
func (g *Gram) ReadableOnce() bool {
	if g.readable == 0 {
		g.readable = 2
		if g.Readable() {
			g.readable = 1
		}
	}
	return g.readable == 1
}
