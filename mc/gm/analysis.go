package gm

// LeftRec reports whether the (flat or scoped) grammar can recurse without
// consuming input.
func LeftRec(g *Gram) bool { return leftRec(g, false) }

// LeftRecExact is LeftRec where external parsers are taken to consume
// something, and back-references only when something that consumes nothing can
// be bound to the name.
func LeftRecExact(g *Gram) bool { return leftRec(g, true) }

func leftRec(g *Gram, exact bool) bool {
	a := &lr{null: map[lrKey]bool{}, exact: exact, names: map[string]bool{}}
	// fixpoint of nullability
	for changed := true; changed; {
		changed = false
		a.walk(g, func(f frame, key lrKey, t *T) {
			if !a.null[key] && a.nullable(f, t) {
				a.null[key] = true
				changed = true
			}
			if exact && a.bindings(f, t) {
				changed = true
			}
		})
	}
	edges := map[lrKey]map[lrKey]bool{}
	a.walk(g, func(f frame, key lrKey, t *T) {
		m := map[lrKey]bool{}
		a.first(f, t, m)
		edges[key] = m
	})
	// reachability
	for k := range edges {
		seen := map[lrKey]bool{}
		var dfs func(x lrKey) bool
		dfs = func(x lrKey) bool {
			for y := range edges[x] {
				if y == k {
					return true
				}
				if !seen[y] {
					seen[y] = true
					if dfs(y) {
						return true
					}
				}
			}
			return false
		}
		if dfs(k) {
			return true
		}
	}
	return false
}

type lrKey struct {
	g    *Gram
	rule string
	lv   int
}

type lr struct {
	null  map[lrKey]bool
	names map[string]bool // names that may be bound to nothing
	exact bool
}

// bindings notes the names bound by members of sequences.
func (a *lr) bindings(f frame, t *T) (changed bool) {
	bind := func(k *T, null bool) {
		if n := identOf(k); n != "" && null && !a.names[n] {
			a.names[n] = true
			changed = true
		}
	}
	switch t.Op {
	case Seq:
		for _, k := range t.Kids {
			bind(k, a.nullable(f, k) || a.yieldsNothing(k))
		}
	case Del:
		bind(t.Kids[0], a.nullable(f, t.Kids[0]))
		bind(t.Kids[1], a.nullable(f, t.Kids[1]) || t.Lead)
	case Scoped:
		return a.bindings(a.scoped(f, t), t.Kids[0])
	}
	for _, k := range t.Kids {
		if a.bindings(f, k) {
			changed = true
		}
	}
	return changed
}

// yieldsNothing tells whether a regular expression's text may be shorter than
// what it consumes.
func (a *lr) yieldsNothing(t *T) bool {
	switch t.Op {
	case Re:
		return t.re.NumSubexp() > 1
	case Named, Rep, Cut:
		return a.yieldsNothing(t.Kids[0])
	}
	return false
}

func (a *lr) scoped(f frame, t *T) frame {
	f.g = t.G
	return f
}

func (a *lr) walk(g *Gram, fn func(f frame, key lrKey, t *T)) {
	for _, r := range g.Rules {
		if r.T.Op == Stack {
			for i, k := range r.T.Kids {
				f := frame{g: g, rule: r.Name, sg: g, level: i}
				fn(f, lrKey{g, r.Name, i}, k)
				a.walkScoped(k, fn)
			}
		} else {
			fn(frame{g: g}, lrKey{g, r.Name, 0}, r.T)
			a.walkScoped(r.T, fn)
		}
	}
}

func (a *lr) walkScoped(t *T, fn func(f frame, key lrKey, t *T)) {
	if t.Op == Scoped {
		a.walk(t.G, fn)
	}
	for _, k := range t.Kids {
		a.walkScoped(k, fn)
	}
}

func (a *lr) key(f frame, name string) lrKey {
	if name == "@" && f.rule == "" {
		return lrKey{} // matches nothing
	}
	if name == "@" {
		t, g := f.sg.lookup(f.rule)
		return lrKey{g, f.rule, (f.level + 1) % len(t.Kids)}
	}
	_, g := f.g.lookup(name)
	return lrKey{g, name, 0}
}

func (a *lr) nullable(f frame, t *T) bool {
	switch t.Op {
	case Str:
		return t.S == ""
	case Re:
		return t.re.MatchString("") || t.re.MatchString("\n") && t.re.FindStringIndex("\n")[1] == 0
	case Ref:
		return a.null[a.key(f, t.S)]
	case Seq:
		for _, k := range t.Kids {
			if !a.nullable(f, k) {
				return false
			}
		}
		return true
	case Alt:
		for _, k := range t.Kids {
			if a.nullable(f, k) {
				return true
			}
		}
		return false
	case Rep:
		return t.Min == 0 || a.nullable(f, t.Kids[0])
	case Del:
		return a.nullable(f, t.Kids[0])
	case Named, Cut:
		return a.nullable(f, t.Kids[0])
	case Look:
		return true
	case Back:
		return !a.exact || t.HasDef && t.Def == "" || a.names[t.S]
	case Ext:
		return !a.exact
	case Scoped:
		return a.nullable(a.scoped(f, t), t.Kids[0])
	}
	panic("bad term")
}

func (a *lr) first(f frame, t *T, out map[lrKey]bool) {
	switch t.Op {
	case Ref:
		out[a.key(f, t.S)] = true
	case Seq:
		for _, k := range t.Kids {
			a.first(f, k, out)
			if !a.nullable(f, k) {
				return
			}
		}
	case Alt:
		for _, k := range t.Kids {
			a.first(f, k, out)
		}
	case Rep, Named, Cut, Look:
		a.first(f, t.Kids[0], out)
	case Del:
		if t.Lead {
			a.first(f, t.Kids[1], out)
		}
		a.first(f, t.Kids[0], out)
		if a.nullable(f, t.Kids[0]) {
			a.first(f, t.Kids[1], out)
			if a.nullable(f, t.Kids[1]) {
				a.first(f, t.Kids[0], out)
			}
		}
	case Scoped:
		a.first(a.scoped(f, t), t.Kids[0], out)
	}
}

// Has reports whether any term in the grammar satisfies p.
func (g *Gram) Has(p func(*T) bool) bool {
	for _, r := range g.Rules {
		if r.T.Has(p) {
			return true
		}
	}
	return false
}

func (t *T) Has(p func(*T) bool) bool {
	if p(t) {
		return true
	}
	for _, k := range t.Kids {
		if k.Has(p) {
			return true
		}
	}
	if t.G != nil && t.G.Has(p) {
		return true
	}
	return false
}

// Vocabulary describes a bounded space of terms.
type Vocab struct {
	Leaves []*T
	Unary  []func(*T) *T
	Binary []func(a, b *T) *T
	Tern   []func(a, b, c *T) *T
}

// BySize lists every term of exactly n constructors, smallest first.
func (v *Vocab) BySize(max int) [][]*T {
	out := make([][]*T, max+1)
	if max >= 1 {
		out[1] = v.Leaves
	}
	for n := 2; n <= max; n++ {
		for _, u := range v.Unary {
			for _, t := range out[n-1] {
				out[n] = append(out[n], u(t))
			}
		}
		for _, b := range v.Binary {
			for i := 1; i < n-1; i++ {
				for _, x := range out[i] {
					for _, y := range out[n-1-i] {
						out[n] = append(out[n], b(x, y))
					}
				}
			}
		}
		for _, c := range v.Tern {
			for i := 1; i < n-2; i++ {
				for j := 1; i+j < n-1; j++ {
					for _, x := range out[i] {
						for _, y := range out[j] {
							for _, z := range out[n-1-i-j] {
								out[n] = append(out[n], c(x, y, z))
							}
						}
					}
				}
			}
		}
	}
	return out
}

// Strings lists every string over the alphabet with at most n symbols,
// shortest first.
func Strings(alpha []string, n int) []string {
	out := []string{""}
	last := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range last {
			for _, a := range alpha {
				next = append(next, s+a)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// AutoCuts returns the grammar with a commit point on every literal that is
// written exactly once, as compiling from text inserts them. The separator of
// a delimited repetition counts once more for each end where it is optional;
// lookahead neither counts nor commits, precedence layers do not commit.
func (g *Gram) AutoCuts() *Gram {
	g = g.Clone()
	n := map[string]int{}
	var countG func(g *Gram)
	var count func(t *T)
	count = func(t *T) {
		switch t.Op {
		case Str:
			n[t.S]++
		case Back:
			if t.HasDef {
				n[t.Def]++
			}
		case Look:
			return
		case Del:
			if t.Lead {
				count(t.Kids[1])
			}
			if t.Trail {
				count(t.Kids[1])
			}
		}
		for _, k := range t.Kids {
			count(k)
		}
		if t.G != nil {
			countG(t.G)
		}
	}
	countG = func(g *Gram) {
		for _, r := range g.Rules {
			count(r.T)
		}
		if g.Wrap != nil {
			for _, e := range g.Wrap.Except {
				count(e)
			}
		}
	}
	countG(g)
	var fixG func(g *Gram)
	var fix func(t *T) *T
	fix = func(t *T) *T {
		switch t.Op {
		case Str:
			if n[t.S] == 1 {
				return Cp(t)
			}
		case Look:
			return t
		case Stack: // resolving a layer drops its commit points
			var scopes func(t *T)
			scopes = func(t *T) {
				for _, k := range t.Kids {
					scopes(k)
				}
				if t.G != nil {
					fixG(t.G)
				}
			}
			scopes(t)
			return t
		}
		for i, k := range t.Kids {
			t.Kids[i] = fix(k)
		}
		if t.G != nil {
			fixG(t.G)
		}
		return t
	}
	fixG = func(g *Gram) {
		for i, r := range g.Rules {
			g.Rules[i].T = fix(r.T)
		}
	}
	fixG(g)
	return g
}

// Size counts the constructors of a term.
func (t *T) Size() int {
	n := 1
	for _, k := range t.Kids {
		n += k.Size()
	}
	return n
}
