//go:build verifov

package main

import (
	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/cmd"
	"github.com/arr-ai/wbnf/cmd/codegen"
	"github.com/arr-ai/wbnf/errors"
	"github.com/arr-ai/wbnf/gotree"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/parser/diff"
	"github.com/arr-ai/wbnf/wbnf"
)

func init() {
	globalsOf = func() map[string]any {
		return map[string]any{
			"ast":     ast.VerifGlobals(),
			"cmd":     cmd.VerifGlobals(),
			"codegen": codegen.VerifGlobals(),
			"diff":    diff.VerifGlobals(),
			"errors":  errors.VerifGlobals(),
			"gotree":  gotree.VerifGlobals(),
			"parser":  parser.VerifGlobals(),
			"wbnf":    wbnf.VerifGlobals(),
		}
	}
}
