package im

import (
	"fmt"
	"sort"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"

	. "verif/mc/gm"
)

// DiffAST compares an implementation AST with the model's; "" means equal.
func DiffAST(n ast.Node, a *Ast, src string) string {
	switch n := n.(type) {
	case ast.Leaf:
		s := n.Scanner()
		if !a.Leaf {
			return fmt.Sprintf("leaf %q, want %s", s.String(), a.Str(src))
		}
		if s.Offset() != a.Off || s.String() != src[a.Off:a.Off+a.Len] {
			return fmt.Sprintf("leaf %d:%q, want %s", s.Offset(), s.String(), a.Str(src))
		}
		return ""
	case ast.Extra:
		got := fmt.Sprint(n.Data)
		if a.Leaf || a.B != nil || a.Mark != got {
			return fmt.Sprintf("mark %q, want %s", got, a.Str(src))
		}
		return ""
	case ast.Branch:
		if a.B == nil {
			return fmt.Sprintf("branch %v, want %s", n, a.Str(src))
		}
		var keys []string
		for k := range n {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			g := a.B[k]
			if g == nil {
				return fmt.Sprintf("%q is there", k)
			}
			var got []ast.Node
			switch c := n[k].(type) {
			case ast.One:
				if g.Many {
					return fmt.Sprintf("%q is a single node, want a list", k)
				}
				got = []ast.Node{c.Node}
			case ast.Many:
				if !g.Many {
					return fmt.Sprintf("%q is a list, want a single node", k)
				}
				got = c
			}
			if len(got) != len(g.L) {
				return fmt.Sprintf("%q has %d nodes, want %d", k, len(got), len(g.L))
			}
			for i := range got {
				if d := DiffAST(got[i], g.L[i], src); d != "" {
					return fmt.Sprintf("%s.%d: %s", k, i, d)
				}
			}
		}
		for k := range a.B {
			if _, ok := n[k]; !ok {
				return fmt.Sprintf("%q is missing", k)
			}
		}
		return ""
	}
	return fmt.Sprintf("unexpected node %T", n)
}

// SameTree compares two implementation trees; "" means equal.
func SameTree(a, b parser.TreeElement) string {
	if x, y := Show(a), Show(b); x != y {
		return fmt.Sprintf("%s, want %s", y, x)
	}
	return ""
}
