package gm

import (
	"fmt"
	"strconv"
	"strings"
)

// Text writes the grammar in ωBNF, in one plain spelling.
func (g *Gram) Text() string {
	var sb strings.Builder
	for _, r := range g.Rules {
		fmt.Fprintf(&sb, "%s -> %s;", r.Name, r.T.text(pTop))
		sb.WriteByte(' ')
	}
	if g.Wrap != nil {
		sb.WriteString(".wrapRE -> ")
		for _, e := range g.Wrap.Except {
			sb.WriteString(e.text(pAtom) + " | ")
		}
		fmt.Fprintf(&sb, "/{%s};", g.Wrap.RE)
	}
	return strings.TrimSpace(sb.String())
}

const (
	pTop   = iota // stack or scoped allowed
	pAlt          // alternatives allowed
	pSeq          // sequence allowed
	pQuant        // a quantified term
	pNamed        // name=atom
	pAtom
)

func Quote(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '"', '\\':
			sb.WriteByte('\\')
			sb.WriteByte(c)
		case '\n':
			sb.WriteString(`\n`)
		case '\t':
			sb.WriteString(`\t`)
		case '\r':
			sb.WriteString(`\r`)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// ReText writes a regular expression so that the grammar reads it back.
func ReText(re string) string {
	re = strings.ReplaceAll(re, " ", `\_`)
	return "/{" + re + "}"
}

func (t *T) String() string { return t.text(pTop) }

func (t *T) text(level int) string {
	var s string
	prec := pAtom
	switch t.Op {
	case Str:
		s = Quote(t.S)
	case Re:
		s = ReText(t.S)
	case Ref:
		s = t.S
	case Seq:
		switch len(t.Kids) {
		case 0:
			s = "()"
		default:
			prec = pSeq
			if len(t.Kids) == 1 {
				prec = pTop // not expressible; shown only
			}
			s = join(t.Kids, " ", pQuant)
		}
	case Alt:
		prec = pAlt
		s = join(t.Kids, " | ", pSeq)
	case Stack:
		prec = pTop
		s = join(t.Kids, " > ", pAlt)
	case Rep:
		prec = pQuant
		s = t.Kids[0].text(pNamed)
		if t.Kids[0].Op == Rep || t.Kids[0].Op == Del {
			s = "(" + t.Kids[0].text(pTop) + ")"
		}
		switch {
		case t.Min == 0 && t.Max == 0:
			s += "*"
		case t.Min == 0 && t.Max == 1:
			s += "?"
		case t.Min == 1 && t.Max == 0:
			s += "+"
		default:
			s += "{"
			if t.Min > 0 {
				s += strconv.Itoa(t.Min)
			}
			s += ","
			if t.Max > 0 {
				s += strconv.Itoa(t.Max)
			}
			s += "}"
		}
	case Del:
		prec = pQuant
		s = t.Kids[0].text(pNamed)
		if t.Kids[0].Op == Rep || t.Kids[0].Op == Del {
			s = "(" + t.Kids[0].text(pTop) + ")"
		}
		s += map[int]string{0: ":", 1: ":>", -1: "<:"}[t.Assoc]
		if t.Lead {
			s += ","
		}
		s += t.Kids[1].text(pNamed)
		if t.Trail {
			s += ","
		}
	case Named:
		prec = pNamed
		s = t.S + "=" + t.Kids[0].text(pAtom)
	case Look:
		s = "(?=" + t.Kids[0].text(pTop) + ")"
	case Back:
		s = "%" + t.S
		if t.HasDef {
			s += "=" + Quote(t.Def)
		}
	case Call:
		args := make([]string, len(t.Kids))
		for i, k := range t.Kids {
			args[i] = k.text(pTop)
			if i < len(t.Kids)-1 && k.Has(func(t *T) bool { return t.Op == Del }) {
				args[i] = k.text(pAtom) // else its separator would take the comma
			}
		}
		s = "%!" + t.S + "(" + strings.Join(args, ", ") + ")"
	case Ext:
		s = "%%" + t.S
	case Scoped:
		prec = pTop
		s = t.Kids[0].text(pAlt) + " { " + t.G.Text() + " }"
	case Cut:
		return t.Kids[0].text(level)
	}
	if prec < level {
		return "(" + s + ")"
	}
	return s
}

func join(ts []*T, sep string, level int) string {
	out := make([]string, len(ts))
	for i, t := range ts {
		out[i] = t.text(level)
	}
	return strings.Join(out, sep)
}

// Macro is a macro definition.
type Macro struct {
	Name   string
	Params []string
	Body   *T
}

func (m Macro) Text() string {
	return ".macro " + m.Name + "(" + strings.Join(m.Params, ", ") + ") { " + m.Body.text(pTop) + " }"
}

// Expand replaces calls by the bodies of the macros, with the parameters
// replaced by the (expanded) arguments.
func (t *T) Expand(ms []Macro) *T {
	return t.expand(ms, nil)
}

func (t *T) expand(ms []Macro, args map[string]*T) *T {
	if t.Op == Ref {
		if a, ok := args[t.S]; ok {
			return a
		}
	}
	if t.Op == Call {
		inner := map[string]*T{}
		for _, m := range ms {
			if m.Name == t.S {
				for i, p := range m.Params {
					inner[p] = t.Kids[i].expand(ms, args)
				}
				return m.Body.expand(ms, inner)
			}
		}
		panic("unknown macro " + t.S)
	}
	c := *t
	c.Kids = make([]*T, len(t.Kids))
	for i, k := range t.Kids {
		c.Kids[i] = k.expand(ms, args)
	}
	if t.G != nil {
		c.G = t.G.expand(ms, args)
	}
	return &c
}

// ExpandMacros expands every rule of a grammar.
func (g *Gram) ExpandMacros(ms []Macro) *Gram { return g.expand(ms, nil) }

func (g *Gram) expand(ms []Macro, args map[string]*T) *Gram {
	c := &Gram{Wrap: g.Wrap}
	for _, r := range g.Rules {
		c.Rules = append(c.Rules, Rule{r.Name, r.T.expand(ms, args)})
	}
	return c
}
