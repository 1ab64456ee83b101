// Package im binds the reference model to the implementation: it converts
// model grammars to the implementation's terms and to grammar text, and
// compares implementation trees with model trees.
package im

import (
	"fmt"
	"strings"

	"github.com/arr-ai/wbnf/parser"

	. "verif/mc/gm"
)

func Term(t *T) parser.Term {
	switch t.Op {
	case Str:
		return parser.S(t.S)
	case Re:
		return parser.RE(t.S)
	case Ref:
		return parser.Rule(t.S)
	case Seq:
		return append(parser.Seq{}, terms(t.Kids)...)
	case Alt:
		return append(parser.Oneof{}, terms(t.Kids)...)
	case Stack:
		return append(parser.Stack{}, terms(t.Kids)...)
	case Rep:
		return parser.Quant{Term: Term(t.Kids[0]), Min: t.Min, Max: t.Max}
	case Del:
		return parser.Delim{Term: Term(t.Kids[0]), Sep: Term(t.Kids[1]), Assoc: parser.Associativity(t.Assoc),
			CanStartWithSep: t.Lead, CanEndWithSep: t.Trail}
	case Named:
		return parser.Named{Name: t.S, Term: Term(t.Kids[0])}
	case Look:
		return parser.LookAhead{Term: Term(t.Kids[0])}
	case Back:
		r := parser.REF{Ident: t.S}
		if t.HasDef {
			r.Default = parser.S(t.Def)
		}
		return r
	case Ext:
		return parser.ExtRef(t.S)
	case Scoped:
		return parser.ScopedGrammar{Term: Term(t.Kids[0]), Grammar: Grammar(t.G)}
	case Cut:
		return parser.CutPoint{Term: Term(t.Kids[0])}
	}
	panic("im: bad term")
}

func terms(ts []*T) []parser.Term {
	out := make([]parser.Term, len(ts))
	for i, t := range ts {
		out[i] = Term(t)
	}
	return out
}

// Grammar converts to a fresh implementation grammar.
func Grammar(g *Gram) parser.Grammar {
	out := parser.Grammar{}
	for _, r := range g.Rules {
		out[parser.Rule(r.Name)] = Term(r.T)
	}
	if g.Wrap != nil {
		w := parser.Term(parser.RE(g.Wrap.RE))
		if len(g.Wrap.Except) > 0 {
			o := parser.Oneof{}
			for _, e := range g.Wrap.Except {
				o = append(o, Term(e))
			}
			w = append(o, w)
		}
		out[".wrapRE"] = w
	}
	return out
}

// Diff compares an implementation tree with a model tree; "" means equal.
// base is added to model offsets (for scanners that view part of a source).
func Diff(te parser.TreeElement, n *N, src string, base int) string {
	if te == nil {
		return "implementation tree is nil, model " + n.Str(src)
	}
	if _, ok := n.Opaque.(*Ast); ok {
		return "" // compared as an AST
	}
	if n.Opaque != nil {
		if fmt.Sprint(te) != fmt.Sprint(n.Opaque) {
			return fmt.Sprintf("external result %v, want %v", te, n.Opaque)
		}
		return ""
	}
	switch e := te.(type) {
	case parser.Scanner:
		if !n.Leaf {
			return fmt.Sprintf("leaf %d:%q where the model has %s", e.Offset(), e.String(), n.Str(src))
		}
		if e.Offset() != n.Off+base {
			return fmt.Sprintf("leaf %q at offset %d, model has it at %d", e.String(), e.Offset(), n.Off+base)
		}
		if e.String() != src[n.Off:n.Off+n.Len] {
			return fmt.Sprintf("leaf at %d reads %q, model has %q", e.Offset(), e.String(), src[n.Off:n.Off+n.Len])
		}
		return ""
	case parser.Empty:
		if !n.Empty {
			return "empty marker where the model has " + n.Str(src)
		}
		return ""
	case parser.Node:
		if n.Leaf || n.Empty {
			return fmt.Sprintf("node %s where the model has %s", e.Tag, n.Str(src))
		}
		if n.Tag != "\x00any" && e.Tag != n.Tag {
			return fmt.Sprintf("node tagged %q, model has %q", e.Tag, n.Tag)
		}
		if n.Tag != "\x00any" {
			switch n.HasX {
			case 0:
				if e.Extra != nil {
					return fmt.Sprintf("node %q carries %v, model has none", e.Tag, e.Extra)
				}
			case 'c':
				if c, ok := e.Extra.(parser.Choice); !ok || int(c) != n.Extra {
					return fmt.Sprintf("node %q carries %T %v, model has alternative %d", e.Tag, e.Extra, e.Extra, n.Extra)
				}
			case 'a':
				if c, ok := e.Extra.(parser.Associativity); !ok || int(c) != n.Extra {
					return fmt.Sprintf("node %q carries %T %v, model has associativity %d", e.Tag, e.Extra, e.Extra, n.Extra)
				}
			}
		}
		if len(e.Children) != len(n.Kids) {
			return fmt.Sprintf("node %q has %d children, model has %d", e.Tag, len(e.Children), len(n.Kids))
		}
		for i, c := range e.Children {
			if d := Diff(c, n.Kids[i], src, base); d != "" {
				return fmt.Sprintf("%s.%d: %s", e.Tag, i, d)
			}
		}
		return ""
	}
	return fmt.Sprintf("unexpected element %T", te)
}

// Show writes an implementation tree the way the model's are written.
func Show(te parser.TreeElement) string {
	switch e := te.(type) {
	case nil:
		return "<nil>"
	case parser.Scanner:
		if e.IsNil() {
			return "<nil scanner>"
		}
		return fmt.Sprintf("%d:%q", e.Offset(), e.String())
	case parser.Empty:
		return "ε"
	case parser.Node:
		var sb strings.Builder
		sb.WriteString(e.Tag)
		switch x := e.Extra.(type) {
		case nil:
		case parser.Choice:
			fmt.Fprintf(&sb, "c%d", int(x))
		case parser.Associativity:
			fmt.Fprintf(&sb, "a%d", int(x))
		default:
			fmt.Fprintf(&sb, "%T", x)
		}
		sb.WriteByte('[')
		for i, c := range e.Children {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(Show(c))
		}
		sb.WriteByte(']')
		return sb.String()
	}
	return fmt.Sprintf("<%T>", te)
}

// Outcome is what the implementation answered.
type Outcome struct {
	Err      error
	Tree     parser.TreeElement
	Residue  *parser.Scanner // unconsumed input, if the rule matched a prefix
	Rejected bool
}

// Parse runs the implementation and classifies its answer.
func Parse(p parser.Parsers, rule, src string, exts parser.ExternalRefs) Outcome {
	return ParseScanner(p, rule, parser.NewScanner(src), exts)
}

func ParseScanner(p parser.Parsers, rule string, s *parser.Scanner, exts parser.ExternalRefs) Outcome {
	var te parser.TreeElement
	var err error
	if exts == nil {
		te, err = p.Parse(parser.Rule(rule), s)
	} else {
		te, err = p.ParseWithExternals(parser.Rule(rule), s, exts)
	}
	if err == nil {
		return Outcome{Tree: te}
	}
	if u, ok := err.(parser.UnconsumedInputError); ok {
		return Outcome{Err: err, Tree: u.Result(), Residue: u.Residue()}
	}
	return Outcome{Err: err, Rejected: true}
}

// Check compares an outcome with the model's result; "" means they agree.
func Check(o Outcome, r Res, src string, base int) string {
	accepted := r.St == OK
	switch {
	case o.Rejected && accepted:
		return fmt.Sprintf("rejected, but the model accepts up to %d: %s", r.Pos, r.N.Str(src))
	case !o.Rejected && !accepted:
		return fmt.Sprintf("accepted with %s, but the model rejects", Show(o.Tree))
	case !accepted:
		return ""
	}
	if o.Residue == nil && r.Pos != len(src) {
		return fmt.Sprintf("consumed everything, but the model stops at %d: %s", r.Pos, r.N.Str(src))
	}
	if o.Residue != nil {
		if r.Pos == len(src) {
			return fmt.Sprintf("left %q unconsumed, but the model consumes everything: %s", o.Residue.String(), r.N.Str(src))
		}
		if o.Residue.Offset() != r.Pos+base || o.Residue.String() != src[r.Pos:] {
			return fmt.Sprintf("residue %d:%q, model has %d:%q", o.Residue.Offset(), o.Residue.String(), r.Pos+base, src[r.Pos:])
		}
	}
	if d := Diff(o.Tree, r.N, src, base); d != "" {
		return d + "\n  got  " + Show(o.Tree) + "\n  want " + r.N.Str(src)
	}
	return ""
}
