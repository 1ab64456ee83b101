// Package gm is the reference model of ωBNF: its own grammar representation,
// and a parsing-expression interpreter written from the documentation. It
// shares no code with the implementation.
package gm

import (
	"fmt"
	"regexp"
	"slices"
	"strconv"
	"strings"
)

type Op uint8

const (
	Str    Op = iota // S = text
	Re               // S = regular expression
	Ref              // S = rule
	Seq              // Kids
	Alt              // Kids
	Rep              // Kids[0], Min, Max (0 = unlimited)
	Del              // Kids[0] term, Kids[1] separator, Assoc, Lead, Trail
	Named            // S = name, Kids[0]
	Look             // Kids[0]
	Back             // S = name, HasDef, Def
	Ext              // S = name
	Scoped           // Kids[0], G
	Cut              // Kids[0]
	Stack            // Kids = layers
	Call             // S = macro, Kids = arguments; expanded before use
)

// T is a term of the model grammar.
type T struct {
	Op          Op
	S           string
	Kids        []*T
	Min, Max    int
	Assoc       int // -1 <:  0 :  1 :>
	Lead, Trail bool
	HasDef      bool
	Def         string
	G           *Gram

	id int
	re *regexp.Regexp
}

type Rule struct {
	Name string
	T    *T
}

// Wrap is a .wrapRE rule: text to exempt, and the pattern around "()".
type Wrap struct {
	Except []*T // Str or Re
	RE     string
}

// Gram is an ordered list of rules, optionally with a wrap rule.
type Gram struct {
	Rules []Rule
	Wrap  *Wrap

	readable int // 0 unknown, 1 yes, 2 no

	up  *Gram
	idx map[string]*T
	n   int
	ts  []*T
}

func L(s string) *T             { return &T{Op: Str, S: s} }
func R(s string) *T             { return &T{Op: Re, S: s} }
func Rf(s string) *T            { return &T{Op: Ref, S: s} }
func S(k ...*T) *T              { return &T{Op: Seq, Kids: k} }
func A(k ...*T) *T              { return &T{Op: Alt, Kids: k} }
func Q(t *T, min, max int) *T   { return &T{Op: Rep, Kids: []*T{t}, Min: min, Max: max} }
func Opt(t *T) *T               { return Q(t, 0, 1) }
func Any(t *T) *T               { return Q(t, 0, 0) }
func Some(t *T) *T              { return Q(t, 1, 0) }
func Nm(n string, t *T) *T      { return &T{Op: Named, S: n, Kids: []*T{t}} }
func Lk(t *T) *T                { return &T{Op: Look, Kids: []*T{t}} }
func Bk(n string) *T            { return &T{Op: Back, S: n} }
func BkDef(n, d string) *T      { return &T{Op: Back, S: n, HasDef: true, Def: d} }
func Ex(n string) *T            { return &T{Op: Ext, S: n} }
func Sc(t *T, g *Gram) *T       { return &T{Op: Scoped, Kids: []*T{t}, G: g} }
func Cp(t *T) *T                { return &T{Op: Cut, Kids: []*T{t}} }
func Mc(n string, k ...*T) *T   { return &T{Op: Call, S: n, Kids: k} }
func St(k ...*T) *T             { return &T{Op: Stack, Kids: k} }
func D(t, sep *T, assoc int) *T { return &T{Op: Del, Kids: []*T{t, sep}, Assoc: assoc} }
func DLT(t, sep *T, assoc int, lead, trail bool) *T {
	return &T{Op: Del, Kids: []*T{t, sep}, Assoc: assoc, Lead: lead, Trail: trail}
}

func G(rules ...Rule) *Gram { return &Gram{Rules: rules} }
func Ru(n string, t *T) Rule {
	return Rule{n, t}
}

// Clone copies a term deeply (ids are per grammar).
func (t *T) Clone() *T {
	c := *t
	c.Kids = make([]*T, len(t.Kids))
	for i, k := range t.Kids {
		c.Kids[i] = k.Clone()
	}
	if t.G != nil {
		c.G = t.G.Clone()
	}
	return &c
}

func (g *Gram) Clone() *Gram {
	c := &Gram{}
	for _, r := range g.Rules {
		c.Rules = append(c.Rules, Rule{r.Name, r.T.Clone()})
	}
	if g.Wrap != nil {
		w := *g.Wrap
		c.Wrap = &w
	}
	return c
}

// ---------------------------------------------------------------- results

// N is a tree produced by the model.
type N struct {
	Leaf, Empty bool
	Off, Len    int
	Tag         string
	Extra       int  // choice or associativity
	HasX        byte // 0 none, 'c' choice, 'a' associativity
	Kids        []*N
	Opaque      any // result of an external parser
	Foreign     bool
	ChainAt     int // 1 + index of the child that is the rest of an associative chain
}

func (n *N) Str(src string) string {
	var sb strings.Builder
	n.str(&sb, src)
	return sb.String()
}

func (n *N) str(sb *strings.Builder, src string) {
	switch {
	case n == nil:
		sb.WriteString("<nil>")
	case n.Opaque != nil:
		fmt.Fprintf(sb, "<%v>", n.Opaque)
	case n.Empty:
		sb.WriteString("ε")
	case n.Leaf:
		fmt.Fprintf(sb, "%d:%q", n.Off, src[n.Off:n.Off+n.Len])
	default:
		sb.WriteString(n.Tag)
		if n.HasX != 0 {
			fmt.Fprintf(sb, "%c%d", n.HasX, n.Extra)
		}
		sb.WriteByte('[')
		for i, k := range n.Kids {
			if i > 0 {
				sb.WriteByte(' ')
			}
			k.str(sb, src)
		}
		sb.WriteByte(']')
	}
}

type Status uint8

const (
	OK Status = iota
	Fail
	Fatal
	Stop // an external callback asked to stop
)

func (s Status) String() string { return [...]string{"ok", "fail", "fatal", "stop"}[s] }

// Res is the outcome of evaluating a term.
type Res struct {
	St  Status
	Pos int
	N   *N
}

// ExtFn models an external parser: it gets the text and position and answers
// with a result.
type ExtFn func(m *M, env *Env, pos int) Res

// Env is the dynamic environment of back-references.
type Env struct {
	name string
	val  *N
	up   *Env
}

func (e *Env) Get(name string) (*N, bool) {
	for ; e != nil; e = e.up {
		if e.name == name {
			return e.val, true
		}
	}
	return nil, false
}

// Names lists the names bound, in order.
func (e *Env) Names() (out []string) {
	for ; e != nil; e = e.up {
		if !slices.Contains(out, e.name) {
			out = append(out, e.name)
		}
	}
	slices.Sort(out)
	return out
}

// frame is the lexical context of a rule body.
type frame struct {
	g     *Gram
	rule  string // for '@'
	sg    *Gram  // where that rule is
	level int
	depth int
}

// M evaluates a grammar over one input.
type M struct {
	Src         string
	Exts        map[string]ExtFn
	Memo        bool // packrat memo (only sound without back-references and externals)
	States      int64
	Transitions int64
	Limit       int64 // give up after so many transitions (0 = none)
	GaveUp      bool
	NoCut       bool
	Esc         *Escape
	// Unsure is set when a back-reference was made to something that an escape
	// stands in for: what its text is isn't said anywhere.
	Unsure bool
	// OnFail is called for every attempt of a terminal that fails.
	OnFail func(t *T, pos int)
	// Trace of (term,pos) states for coverage, keyed id*(len+1)+pos
	seen map[int64]struct{}
	memo map[int64]Res
	// Left-recursion guard
	depth int
	Deep  bool
}

// Escape models a parse escape: open/close literals and the handler.
type Escape struct {
	Open, Close string
	Fn          func(m *M, t *T, pos int) Res // result after the opening
}

func (g *Gram) prepare(up *Gram) {
	g.up = up
	g.idx = map[string]*T{}
	root := g
	for root.up != nil {
		root = root.up
	}
	for i := range g.Rules {
		g.Rules[i].T = g.Rules[i].T.Clone() // terms may be shared by the caller
		g.idx[g.Rules[i].Name] = g.Rules[i].T
	}
	for i := range g.Rules {
		root.number(g, g.Rules[i].T)
	}
}

func (root *Gram) number(g *Gram, t *T) {
	root.ts = append(root.ts, t)
	t.id = root.n
	root.n++
	w := g.wrap()
	switch t.Op {
	case Re:
		if t.re != nil {
			break
		}
		t.re = regexp.MustCompile(`(?m)\A(` + t.S + `)`)
	}
	_ = w
	for _, k := range t.Kids {
		if t.Op == Scoped {
			continue
		}
		root.number(g, k)
	}
	if t.Op == Scoped {
		t.G.prepare(g)
		root.number(t.G, t.Kids[0])
	}
}

func (g *Gram) wrap() *Wrap {
	for ; g != nil; g = g.up {
		if g.Wrap != nil {
			return g.Wrap
		}
	}
	return nil
}

// Prepare must be called once on a top-level grammar.
func (g *Gram) Prepare() *Gram {
	g.n = 0
	g.ts = nil
	g.prepare(nil)
	return g
}

// Terms lists every term of the grammar (after Prepare).
func (g *Gram) Terms() []*T { return g.ts }

func (g *Gram) lookup(name string) (*T, *Gram) {
	for ; g != nil; g = g.up {
		if t, ok := g.idx[name]; ok {
			return t, g
		}
	}
	return nil, nil
}

// Parse evaluates rule on the whole of m.Src from the start. The result's
// Pos is where the parse ended; anything after it is residue.
func (m *M) Parse(g *Gram, rule string) Res {
	if m.Memo {
		m.memo = map[int64]Res{}
	}
	m.seen = nil
	r := m.rule(frame{g: g}, rule, 0, nil, false)
	if n := r.N; r.St == OK && !n.Leaf && !n.Empty && n.Opaque == nil && !n.Foreign && n.Tag != "\x00any" {
		// whatever the rule reduces to, its tree bears its name
		root := *n
		root.Tag = rule
		r.N = &root
	}
	return r
}

// rule evaluates a reference to a rule in frame f.
func (m *M) rule(f frame, name string, pos int, env *Env, cut bool) Res {
	if name == "@" && f.rule == "" {
		return Res{St: Fail} // outside a stack
	}
	if name == "@" {
		t, g := f.sg.lookup(f.rule)
		n := len(t.Kids)
		lv := (f.level + 1) % n
		tag := f.rule
		if lv > 0 {
			tag = f.rule + "@" + strconv.Itoa(lv)
		}
		return m.body(frame{g: g, rule: f.rule, sg: g, level: lv, depth: f.depth}, t.Kids[lv], tag, pos, env, cut)
	}
	t, g := f.g.lookup(name)
	if t == nil {
		panic("model: no rule " + name)
	}
	if t.Op == Stack {
		return m.body(frame{g: g, rule: name, sg: g, depth: f.depth}, t.Kids[0], name, pos, env, cut)
	}
	return m.body(frame{g: g, depth: f.depth}, t, name, pos, env, cut)
}

// body evaluates a rule's body under a tag. A body that is just a reference
// to another rule is an alias: it produces what the other rule produces,
// tagged with this rule's name.
func (m *M) body(f frame, t *T, tag string, pos int, env *Env, cut bool) Res {
	for t.Op == Ref {
		if t.S == "@" && f.rule == "" {
			return Res{St: Fail}
		}
		if t.S == "@" {
			u, g := f.sg.lookup(f.rule)
			lv := (f.level + 1) % len(u.Kids)
			f = frame{g: g, rule: f.rule, sg: g, level: lv, depth: f.depth}
			t = u.Kids[lv]
			continue
		}
		u, g := f.g.lookup(t.S)
		if g != f.g {
			// a rule of an enclosing scope comes with its own name
			return m.rule(f, t.S, pos, env, cut)
		}
		f = frame{g: g, depth: f.depth}
		if u.Op == Stack {
			f.rule, f.sg = t.S, g
			u = u.Kids[0]
		}
		t = u
	}
	f.depth++
	if f.depth > 4000 {
		m.Deep = true
		return Res{St: Fatal}
	}
	return m.eval(f, t, tag, pos, env, cut)
}

// foreign marks what an external parser made.
func foreign(r Res) Res {
	if r.N != nil {
		n := *r.N
		n.Foreign = true
		r.N = &n
	}
	return r
}

func tagOr(tag, alt string) string {
	if tag == "" {
		return alt
	}
	return tag
}

func identOf(t *T) string {
	switch t.Op {
	case Named:
		return t.S
	case Ref:
		return t.S
	case Rep:
		return identOf(t.Kids[0])
	}
	return ""
}

func (m *M) eval(f frame, t *T, tag string, pos int, env *Env, cut bool) Res {
	m.Transitions++
	if m.Limit > 0 && m.Transitions > m.Limit {
		m.GaveUp = true
		return Res{St: Fatal}
	}
	key := int64(t.id)*int64(len(m.Src)+1) + int64(pos)
	mkey := key << 1
	if cut {
		mkey |= 1
	}
	if m.Memo && tag == "" {
		if r, ok := m.memo[mkey]; ok {
			return r
		}
	}
	if m.seen == nil {
		m.seen = map[int64]struct{}{}
	}
	if _, ok := m.seen[key]; !ok {
		m.seen[key] = struct{}{}
		m.States++
	}
	r := m.eval1(f, t, tag, pos, env, cut)
	if m.Memo && tag == "" {
		m.memo[mkey] = r
	}
	return r
}

// isCut reports whether parsing t commits the enclosing sequence.
func (m *M) isCut(f frame, t *T) bool {
	for t.Op == Named {
		t = t.Kids[0]
	}
	return t.Op == Cut
}

func (m *M) failure(cut bool) Res {
	if cut && !m.NoCut {
		return Res{St: Fatal}
	}
	return Res{St: Fail}
}

func (m *M) escape(t *T, pos int) (Res, bool) {
	if m.Esc == nil || !strings.HasPrefix(m.Src[pos:], m.Esc.Open) {
		return Res{}, false
	}
	r := foreign(m.Esc.Fn(m, t, pos+len(m.Esc.Open)))
	if r.St != OK {
		return r, true
	}
	if !strings.HasPrefix(m.Src[r.Pos:], m.Esc.Close) {
		return Res{St: Fail}, true
	}
	r.Pos += len(m.Esc.Close)
	return r, true
}

func (m *M) eval1(f frame, t *T, tag string, pos int, env *Env, cut bool) Res {
	if t.Op != Ref && t.Op != Named && t.Op != Cut && t.Op != Scoped {
		if r, ok := m.escape(t, pos); ok {
			return r
		}
	}
	switch t.Op {
	case Str, Re:
		off, n, end, ok := m.terminal(f.g, t, pos)
		if !ok {
			if m.OnFail != nil {
				m.OnFail(t, pos)
			}
			return m.failure(cut)
		}
		return Res{OK, end, &N{Leaf: true, Off: off, Len: n}}
	case Ref:
		return m.rule(f, t.S, pos, env, cut)
	case Named:
		return m.eval(f, t.Kids[0], t.S, pos, env, cut)
	case Cut:
		return m.eval(f, t.Kids[0], tag, pos, env, cut)
	case Scoped:
		f.g = t.G
		return m.eval(f, t.Kids[0], tag, pos, env, cut)
	case Seq:
		n := &N{Tag: tagOr(tag, "_")}
		p := pos
		for _, k := range t.Kids {
			r := m.eval(f, k, "", p, env, cut)
			if r.St == Fatal || r.St == Stop {
				return r
			}
			if r.St == Fail {
				return m.failure(cut)
			}
			if m.isCut(f, k) {
				cut = true
			}
			if id := identOf(k); id != "" {
				env = &Env{id, r.N, env}
			}
			n.Kids = append(n.Kids, r.N)
			p = r.Pos
		}
		return Res{OK, p, n}
	case Alt:
		for i, k := range t.Kids {
			r := m.eval(f, k, "", pos, env, false)
			if r.St == Fatal || r.St == Stop {
				return r
			}
			if r.St == OK {
				return Res{OK, r.Pos, &N{Tag: tagOr(tag, "|"), HasX: 'c', Extra: i, Kids: []*N{r.N}}}
			}
		}
		return m.failure(cut)
	case Rep:
		n := &N{Tag: tagOr(tag, "?")}
		p := pos
		for t.Max == 0 || len(n.Kids) < t.Max {
			r := m.eval(f, t.Kids[0], "", p, env, false)
			if r.St == Fatal || r.St == Stop {
				return r
			}
			if r.St == Fail {
				break
			}
			if t.Max == 0 && r.Pos == p && len(n.Kids) >= t.Min {
				break // an iteration that consumes nothing ends an unbounded repetition
			}
			n.Kids = append(n.Kids, r.N)
			p = r.Pos
		}
		if len(n.Kids) >= t.Min {
			return Res{OK, p, n}
		}
		return m.failure(cut)
	case Look:
		r := m.eval(f, t.Kids[0], "", pos, env, cut)
		if r.St != OK {
			return r
		}
		return Res{OK, pos, &N{Tag: tagOr(tag, "?="), Kids: []*N{r.N}}}
	case Del:
		return m.delim(f, t, tag, pos, env, cut)
	case Back:
		if v, ok := env.Get(t.S); ok {
			if m.Esc != nil && v.hasForeign() {
				m.Unsure = true
			}
			return m.matchVal(v, pos, cut)
		}
		if t.HasDef {
			if strings.HasPrefix(m.Src[pos:], t.Def) {
				return Res{OK, pos + len(t.Def), &N{Leaf: true, Off: pos, Len: len(t.Def)}}
			}
			if m.OnFail != nil {
				m.OnFail(L(t.Def), pos)
			}
			return m.failure(cut)
		}
		return Res{St: Fail}
	case Ext:
		fn := m.Exts[t.S]
		if fn == nil {
			return Res{St: Fatal}
		}
		return foreign(fn(m, env, pos))
	}
	panic("model: bad term")
}

func (n *N) hasForeign() bool {
	if n.Foreign {
		return true
	}
	for _, k := range n.Kids {
		if k.hasForeign() {
			return true
		}
	}
	return false
}

// matchVal re-matches previously parsed text, leaf by leaf.
func (m *M) matchVal(v *N, pos int, cut bool) Res {
	if v.Leaf {
		s := m.Src[v.Off : v.Off+v.Len]
		if strings.HasPrefix(m.Src[pos:], s) {
			return Res{OK, pos + v.Len, &N{Leaf: true, Off: pos, Len: v.Len}}
		}
		if m.OnFail != nil {
			m.OnFail(L(s), pos)
		}
		return m.failure(cut)
	}
	n := &N{Tag: "\x00any"}
	p := pos
	for _, k := range v.Kids {
		r := m.matchVal(k, p, cut)
		if r.St != OK {
			return r
		}
		n.Kids = append(n.Kids, r.N)
		p = r.Pos
	}
	return Res{OK, p, n}
}

func (m *M) delim(f frame, t *T, tag string, pos int, env *Env, cut bool) Res {
	term, sep := t.Kids[0], t.Kids[1]
	var items []*N
	p := pos
	optSep := func() (Res, bool) {
		// an optional separator never fails except fatally
		r := m.eval(f, sep, "", p, env, false)
		return r, r.St == OK
	}
	senv := env
	bind := func(k *T, v *N) {
		if id := identOf(k); id != "" {
			senv = &Env{id, v, senv}
		}
	}
	if t.Lead {
		r, ok := optSep()
		if r.St >= Fatal {
			return r
		}
		lead := &N{Tag: "?"}
		if ok {
			items = append(items, &N{Empty: true}, r.N)
			p = r.Pos
			lead.Kids = []*N{r.N}
		}
		if id := identOf(sep); id != "" {
			env = &Env{id, lead, env}
			senv = env
		}
	}
	r := m.eval(f, term, "", p, env, cut)
	if r.St != OK {
		if r.St == Fail {
			return m.failure(cut)
		}
		return r
	}
	items = append(items, r.N)
	p = r.Pos
	bind(term, r.N)
	inner := senv
	sepCut := m.isCut(f, sep)
	for {
		// sep term, as one repeated unit
		rs := m.eval(f, sep, "", p, inner, false)
		if rs.St >= Fatal {
			return rs
		}
		if rs.St == Fail {
			break
		}
		ie := inner
		if id := identOf(sep); id != "" {
			ie = &Env{id, rs.N, inner}
		}
		rt := m.eval(f, term, "", rs.Pos, ie, sepCut)
		if rt.St >= Fatal {
			return rt
		}
		if rt.St == Fail {
			if sepCut && !m.NoCut {
				return Res{St: Fatal}
			}
			break
		}
		if rt.Pos == p {
			break
		}
		items = append(items, rs.N, rt.N)
		p = rt.Pos
	}
	if t.Trail {
		r, ok := optSep()
		if r.St >= Fatal {
			return r
		}
		if ok {
			items = append(items, r.N, &N{Empty: true})
			p = r.Pos
		}
	}
	tg := tagOr(tag, ":")
	mk := func(a int, k ...*N) *N { return &N{Tag: tg, HasX: 'a', Extra: a, Kids: k} }
	if len(items) > 1 {
		switch t.Assoc {
		case 1:
			v := items[0]
			for i := 1; i < len(items); i += 2 {
				w := mk(1, v, items[i], items[i+1])
				if i > 1 {
					w.ChainAt = 1
				}
				v = w
			}
			return Res{OK, p, v}
		case -1:
			v := items[len(items)-1]
			for i := len(items) - 2; i > 0; i -= 2 {
				w := mk(-1, items[i-1], items[i], v)
				if i < len(items)-2 {
					w.ChainAt = 3
				}
				v = w
			}
			return Res{OK, p, v}
		}
	}
	return Res{OK, p, mk(0, items...)}
}

// ---------------------------------------------------------------- terminals

// terminal matches a literal or regular expression at pos, applying the wrap
// rule. It returns the leaf's range and where the input continues.
func (m *M) terminal(g *Gram, t *T, pos int) (off, n, end int, ok bool) {
	w := g.wrap()
	if w != nil {
		for _, e := range w.Except {
			// exemption is by the text of the terminal
			if e.S == t.S {
				w = nil
				break
			}
		}
	}
	if w == nil {
		return m.raw(t, pos)
	}
	i := strings.Index(w.RE, "()")
	pre := wrapRE(w.RE[:i])
	post := wrapRE(w.RE[i+2:])
	// the surrounding pattern prefers its longest match and gives back
	for _, p := range prefixes(pre, m.Src[pos:]) {
		off, n, end, ok = m.raw(t, pos+p)
		if ok {
			for _, q := range prefixes(post, m.Src[end:]) {
				return off, n, end + q, true
			}
			return 0, 0, 0, false
		}
	}
	return 0, 0, 0, false
}

func (m *M) raw(t *T, pos int) (off, n, end int, ok bool) {
	if t.Op == Str {
		if strings.HasPrefix(m.Src[pos:], t.S) {
			return pos, len(t.S), pos + len(t.S), true
		}
		return 0, 0, 0, false
	}
	loc := t.re.FindStringSubmatchIndex(m.Src[pos:])
	if loc == nil {
		return 0, 0, 0, false
	}
	if len(loc) > 4 {
		if loc[4] < 0 {
			return pos, loc[1], pos + loc[1], true // the group took no part: the whole match
		}
		return pos + loc[4], loc[5] - loc[4], pos + loc[1], true
	}
	return pos, loc[1], pos + loc[1], true
}

// wrapRE understands the surrounding patterns the checks use, by hand.
type wrapPat struct {
	set string // greedy run of these bytes
	min int
}

func wrapRE(s string) wrapPat {
	switch s {
	case "":
		return wrapPat{}
	case `\s*`:
		return wrapPat{set: " \t\n\f\r"}
	case `\s+`:
		return wrapPat{set: " \t\n\f\r", min: 1}
	case `-*`:
		return wrapPat{set: "-"}
	case `[ ]*`:
		return wrapPat{set: " "}
	}
	panic("model: wrap pattern " + s)
}

func prefixes(p wrapPat, s string) []int {
	max := 0
	for max < len(s) && strings.IndexByte(p.set, s[max]) >= 0 {
		max++
	}
	var out []int
	for i := max; i >= p.min; i-- {
		out = append(out, i)
	}
	return out
}
