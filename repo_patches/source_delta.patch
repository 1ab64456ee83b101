From c90ae95c9e519c0d51d33522f77f03c3e9610a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:51 +0000
Subject: [PATCH 01/65] fix: error of a failed repetition refers to its cause,
 not to itself

---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index a1f6ff7..5308791 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -582,10 +582,12 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 		return p.put(output, nil, result...)
 	}
 
+	// out is the named result and is about to be overwritten; keep the cause.
+	cause := out
 	return newParseError(p.rule,
 		"quant failed, expected: (%d, %d), have %d value(s)",
 		p.t.Min, p.t.Max, len(result),
-	)(prevcp, func() error { return out }, func() error { return stk })
+	)(prevcp, func() error { return cause }, func() error { return stk })
 }
 func (p *quantParser) AsTerm() Term { return p.t }
 
-- 
2.43.0


From 434b9a1d4b28c76b4a58c35cf240b196332fb286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:51 +0000
Subject: [PATCH 02/65] fix: resolve productions that reduce to a rule
 reference

---
 parser/parser.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 5308791..8798324 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -121,6 +121,20 @@ func (g Grammar) Compile(node any) Parsers {
 		c.parsers[rule] = term.Parser(rule, c)
 	}
 
+	// A production may itself reduce to a rule reference, e.g. a -> x=b;
+	for rule, parser := range c.parsers {
+		seen := map[Rule]bool{rule: true}
+		for {
+			ref, ok := parser.(ruleParser)
+			if !ok || seen[ref.t] {
+				break
+			}
+			seen[ref.t] = true
+			parser = c.parsers[ref.t]
+		}
+		c.parsers[rule] = parser
+	}
+
 	for rule, rulePtrs := range c.rulePtrses {
 		p := c.parsers[rule]
 		for _, rulePtr := range rulePtrs {
-- 
2.43.0


From f648c1d2fcd952166d55d559469d4671d41c8989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:51 +0000
Subject: [PATCH 03/65] fix: regular expressions with several capturing groups,
 or one that took no part

---
 parser/parser.go  |  4 ++++
 parser/scanner.go | 10 ++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 8798324..4ca5802 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -211,6 +211,10 @@ func eatRegexp(input *Scanner, re *regexp.Regexp, output *TreeElement) bool {
 	var eaten [2]Scanner
 	if n, ok := input.EatRegexp(re, nil, eaten[:]); ok {
 		*output = eaten[n-1]
+		if eaten[n-1].IsNil() {
+			// The group took no part in the match.
+			*output = eaten[0]
+		}
 		return true
 	}
 	return false
diff --git a/parser/scanner.go b/parser/scanner.go
index eb6334f..3707742 100644
--- a/parser/scanner.go
+++ b/parser/scanner.go
@@ -193,10 +193,16 @@ func (s *Scanner) EatRegexp(re *regexp.Regexp, match *Scanner, captures []Scanne
 		skip := loc[1]
 		loc = loc[2:]
 		n = len(loc) / 2
-		if len(captures) > n {
-			captures = captures[:n]
+		if n > len(captures) {
+			n = len(captures)
 		}
+		captures = captures[:n]
 		for i := range captures {
+			if loc[2*i] < 0 {
+				// The group took no part in the match.
+				captures[i] = Scanner{}
+				continue
+			}
 			captures[i] = *s.Slice(loc[2*i], loc[2*i+1])
 		}
 
-- 
2.43.0


From e83eef2a8fd1972f03caab5cb7e85672b231ac28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:51 +0000
Subject: [PATCH 04/65] fix: unbounded repetition of a term that consumes
 nothing terminates

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 4ca5802..05fa167 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -592,6 +592,10 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 			}
 			break
 		}
+		if p.t.Max == 0 && len(result) >= p.t.Min && start == *input {
+			// No progress: an unbounded repetition would never end.
+			break
+		}
 		result = append(result, v)
 		*input = start
 	}
-- 
2.43.0


From f0be51d928189fc124a7ed6e0f96dc023820b553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:25 +0000
Subject: [PATCH 05/65] fix: back-reference to a delimited repetition that
 starts or ends with a separator

---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 05fa167..a1353e4 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -328,6 +328,9 @@ func identFromTerm(term Term) string {
 }
 
 func nodesEqual(a, b any) bool {
+	if _, ok := b.(Empty); ok {
+		b = Node{}
+	}
 	aType := reflect.TypeOf(a)
 	bType := reflect.TypeOf(b)
 	if aType == bType {
@@ -702,6 +705,9 @@ func termFromRefVal(from TreeElement) Term {
 		term = s
 	case Scanner:
 		term = S(n.String())
+	case Empty:
+		// Marks where a delimited repetition starts or ends with a separator.
+		term = Seq{}
 	}
 	return term
 }
-- 
2.43.0


From 1290ba3bcbf5909ed05715b2c0b1f2e2cd148fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:40 +0000
Subject: [PATCH 06/65] fix: parse escape next to a delimited repetition

---
 parser/parser.go | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a1353e4..83ba364 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -310,6 +310,7 @@ type seqParser struct {
 	t       Seq
 	parsers []Parser
 	put     putter
+	inner   bool // part of the expansion of a delimited repetition
 }
 
 func identFromTerm(term Term) string {
@@ -357,8 +358,10 @@ func nodesEqual(a, b any) bool {
 
 func (p *seqParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) (out error) {
 	// defer enterf("%s: %T %[2]v", p.rule, p.t).exitf("%v %v", &out, output)
-	if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
-		return err
+	if !p.inner {
+		if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
+			return err
+		}
 	}
 	result := make([]TreeElement, 0, len(p.parsers))
 	furthest := *input
@@ -495,6 +498,23 @@ func (t Delim) Parser(rule Rule, c cache) Parser {
 		child: seq.Parser(rule, c),
 		put:   tag(rule, delimTag),
 	}
+	// An escape may replace the terms and separators but not the structure
+	// around them, which Parse relies on.
+	outer := p.child.(*seqParser)
+	outer.inner = true
+	for i, part := range outer.parsers {
+		switch part := part.(type) {
+		case *quantParser:
+			part.inner = true
+		case *seqParser:
+			part.inner = true
+			rest := part.parsers[1].(*quantParser)
+			rest.inner = true
+			rest.term.(*seqParser).inner = true
+		default:
+			panic(fmt.Errorf("unexpected part %d of a delimited repetition: %T", i, part))
+		}
+	}
 	c.registerRule(&p.child)
 
 	return p
@@ -570,16 +590,19 @@ func (t LookAhead) Parser(rule Rule, c cache) Parser {
 //-----------------------------------------------------------------------------
 
 type quantParser struct {
-	rule Rule
-	t    Quant
-	term Parser
-	put  putter
+	rule  Rule
+	t     Quant
+	term  Parser
+	put   putter
+	inner bool // part of the expansion of a delimited repetition
 }
 
 func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) (out error) {
 	// defer enterf("%s: %T %[2]v", p.rule, p.t).exitf("%v %v", &out, output)
-	if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
-		return err
+	if !p.inner {
+		if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
+			return err
+		}
 	}
 	result := make([]TreeElement, 0, p.t.Min)
 	var v TreeElement
-- 
2.43.0


From 7d63ac3d3762e88f8ea533dd6bcaec0c6b9b65d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:10 +0000
Subject: [PATCH 07/65] fix: scoped grammars whose term or rules reduce to a
 rule reference

---
 parser/parser.go | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 83ba364..7c9cea7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -816,8 +816,10 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 		for {
 			switch r := term.(type) {
 			case Rule:
-				term = t.Grammar[r]
-				continue
+				if local, has := t.Grammar[r]; has {
+					term = local
+					continue
+				}
 			}
 			break
 		}
@@ -827,20 +829,30 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 	// At this point we have the nested grammar cache populated with the grammar rules
 	// We now need to hook up the correct terms from the original grammar
 
-	result := t.Term.Parser(name, cc)
-	cc.registerRule(&result)
-	for rule, rulePtrs := range cc.rulePtrses {
-		if _, has := t.Grammar[rule]; has {
-			// local rule, simply hook up the pointers
-			p := cc.parsers[rule]
-			for _, rulePtr := range rulePtrs {
-				*rulePtr = p
+	// local follows references to local rules, which may themselves reduce to
+	// references. What remains a reference is from the previous scope.
+	local := func(p Parser) Parser {
+		seen := map[Rule]bool{}
+		for {
+			ref, ok := p.(ruleParser)
+			if !ok || seen[ref.t] {
+				return p
 			}
-		} else {
-			// must be from the previous scope, add it to the previous scopes cache
-			for _, rulePtr := range rulePtrs {
-				c.registerRule(rulePtr)
+			next, has := cc.parsers[ref.t]
+			if !has {
+				return p
 			}
+			seen[ref.t] = true
+			p = next
+		}
+	}
+
+	result := local(t.Term.Parser(name, cc))
+	for _, rulePtrs := range cc.rulePtrses {
+		for _, rulePtr := range rulePtrs {
+			*rulePtr = local(*rulePtr)
+			// references from the previous scope go to the previous scope's cache
+			c.registerRule(rulePtr)
 		}
 	}
 	return result
-- 
2.43.0


From 7ef9e6e936b230812feb1f397d682b070cc736a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:58 +0000
Subject: [PATCH 08/65] fix: an optional trailing separator is not a cut point

---
 wbnf/cutpoints.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wbnf/cutpoints.go b/wbnf/cutpoints.go
index 2e2cc76..10b47fc 100644
--- a/wbnf/cutpoints.go
+++ b/wbnf/cutpoints.go
@@ -89,6 +89,10 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 				// ensure that a starting sep will never be a cutpoint
 				out = out.Merge(forTerm(t.Sep), mergeFn)
 			}
+			if t.CanEndWithSep {
+				// nor will a trailing one, which has no term after it
+				out = out.Merge(forTerm(t.Sep), mergeFn)
+			}
 		case parser.Quant:
 			out = out.Merge(forTerm(t.Term), mergeFn)
 		case parser.Named:
-- 
2.43.0


From 180d56b985883e5e8c7ade9b99d18f61cdd11002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:58 +0000
Subject: [PATCH 09/65] fix: literals repeated in a scoped grammar are not
 unique

---
 wbnf/cutpoints.go   | 7 +++----
 wbnf/wbnfgrammar.go | 6 +++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/wbnf/cutpoints.go b/wbnf/cutpoints.go
index 10b47fc..8539d9a 100644
--- a/wbnf/cutpoints.go
+++ b/wbnf/cutpoints.go
@@ -99,10 +99,9 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 			out = out.Merge(forTerm(t.Term), mergeFn)
 		case parser.ScopedGrammar:
 			out = out.Merge(forTerm(t.Term), mergeFn)
-			incoming := frozen.NewMapFromKeys(
-				findUniqueStrings(t.Grammar),
-				func(string) int { return 1 })
-			out = out.Merge(incoming, mergeFn)
+			for _, t := range t.Grammar {
+				out = out.Merge(forTerm(t), mergeFn)
+			}
 		case parser.REF:
 			out = out.Merge(forTerm(t.Default), mergeFn)
 		case parser.CutPoint:
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index b7bf441..d9d1f87 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -58,7 +58,7 @@ func Grammar() parser.Parsers {
 							parser.RE(`[a-zA-Z0-9.:]+`)},
 							Sep:             parser.S(`/`),
 							CanStartWithSep: true}),
-					parser.Opt(parser.CutPoint{parser.S(`;`)})},
+					parser.Opt(parser.S(`;`))},
 				"macrodef": parser.Seq{parser.CutPoint{parser.S(`.macro`)},
 					parser.Eq(`name`,
 						parser.Rule(`IDENT`)),
@@ -70,11 +70,11 @@ func Grammar() parser.Parsers {
 					parser.S(`{`),
 					parser.Rule(`term`),
 					parser.S(`}`),
-					parser.Opt(parser.CutPoint{parser.S(`;`)})}}},
+					parser.Opt(parser.S(`;`))}}},
 		"prod": parser.Seq{parser.Rule(`IDENT`),
 			parser.CutPoint{parser.S(`->`)},
 			parser.Some(parser.Rule(`term`)),
-			parser.CutPoint{parser.S(`;`)}},
+			parser.S(`;`)},
 		"quant": parser.Oneof{parser.Eq(`op`,
 			parser.RE(`[?*+]`)),
 			parser.Seq{parser.S(`{`),
-- 
2.43.0


From 1d167ec206eb9c69852cc8e460ab7beb95d2c3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:16 +0000
Subject: [PATCH 10/65] fix: a rule that is a single cut point does not commit
 every sequence that refers to it

---
 parser/parser.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 7c9cea7..599e610 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -379,7 +379,7 @@ func (p *seqParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk
 				func() error { return stk },
 			)
 		}
-		if _, ok := item.(*cutPointParser); ok {
+		if _, ok := item.(*cutPointParser); ok && isCutPoint(p.t[i]) {
 			scope, _, _ = scope.ReplaceCutPoint(true)
 		}
 		scope = scope.WithVal(ident, p.parsers[i], v)
@@ -867,6 +867,20 @@ func (t *cutPointParser) Parse(scope Scope, input *Scanner, output *TreeElement,
 	return t.p.Parse(scope, input, output, stk)
 }
 func (t *cutPointParser) AsTerm() Term { return t.t }
+
+// isCutPoint tells whether a member of a sequence is itself a cut point, as
+// opposed to a reference to a rule that is one: other sequences may refer to
+// the same rule, so this one isn't committed yet.
+func isCutPoint(t Term) bool {
+	switch t := t.(type) {
+	case CutPoint:
+		return true
+	case Named:
+		return isCutPoint(t.Term)
+	}
+	return false
+}
+
 func (t CutPoint) Parser(rule Rule, c cache) Parser {
 	return &cutPointParser{t.Term.Parser(rule, c), t}
 }
-- 
2.43.0


From 21739bc45fa94e42ecf365c266a52100d1d421c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:51 +0000
Subject: [PATCH 11/65] fix: escapes in grammar strings, and malformed ones are
 reported

---
 wbnf/compile.go    | 66 ++++++++++++++++++++++++++++++----------------
 wbnf/validation.go | 16 +++++++++++
 2 files changed, 59 insertions(+), 23 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index d89e7ab..35b9fea 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -7,6 +7,8 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/arr-ai/wbnf/ast"
 
@@ -19,6 +21,34 @@ func unfakeBackquote(s string) string {
 	return strings.ReplaceAll(s, "‵", "`")
 }
 
+// parseEscapedRune returns the number written with n digits at s[i:].
+func parseEscapedRune(s string, i, n, base int) rune {
+	if i+n > len(s) {
+		panic(fmt.Errorf("incomplete \\-escape: %q", s[i:]))
+	}
+	x, err := strconv.ParseUint(s[i:i+n], base, 32)
+	if err != nil {
+		panic(fmt.Errorf("invalid \\-escape: %w", err))
+	}
+	if x > unicode.MaxRune || (0xd800 <= x && x < 0xe000) {
+		panic(fmt.Errorf("\\-escape is not a character: %q", s[i:i+n]))
+	}
+	return rune(x)
+}
+
+// checkString tells whether a string token is well formed.
+func checkString(s string) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r)
+		}
+	}()
+	if !utf8.ValidString(parseString(s)) {
+		return fmt.Errorf("not valid UTF-8")
+	}
+	return nil
+}
+
 func parseString(s string) string {
 	var sb strings.Builder
 	quote, s := s[0], s[1:len(s)-1]
@@ -32,33 +62,21 @@ func parseString(s string) string {
 			i++
 			switch s[i] {
 			case 'x':
-				n, err := strconv.ParseInt(s[i:i+2], 16, 8)
-				if err != nil {
-					panic(err)
-				}
-				sb.WriteByte(uint8(n))
-				i++
-			case 'u':
-				n, err := strconv.ParseInt(s[i:i+4], 16, 16)
-				if err != nil {
-					panic(err)
-				}
-				sb.WriteByte(uint8(n))
+				sb.WriteByte(byte(parseEscapedRune(s, i+1, 2, 16)))
 				i += 2
-			case 'U':
-				n, err := strconv.ParseInt(s[i:i+8], 16, 32)
-				if err != nil {
-					panic(err)
-				}
-				sb.WriteByte(uint8(n))
+			case 'u':
+				sb.WriteRune(parseEscapedRune(s, i+1, 4, 16))
 				i += 4
+			case 'U':
+				sb.WriteRune(parseEscapedRune(s, i+1, 8, 16))
+				i += 8
 			case '0', '1', '2', '3', '4', '5', '6', '7':
-				n, err := strconv.ParseInt(s[i:i+3], 8, 8)
-				if err != nil {
-					panic(err)
+				n := parseEscapedRune(s, i, 3, 8)
+				if n > 0xff {
+					panic(fmt.Errorf("octal escape out of range: %q", s[i:i+3]))
 				}
-				sb.WriteByte(uint8(n))
-				i++
+				sb.WriteByte(byte(n))
+				i += 2
 			case 'a':
 				sb.WriteByte('\a')
 			case 'b':
@@ -77,6 +95,8 @@ func parseString(s string) string {
 				sb.WriteByte('\\')
 			case '\'':
 				sb.WriteByte('\'')
+			case '"':
+				sb.WriteByte('"')
 			case quote:
 				sb.WriteByte(quote)
 			default:
diff --git a/wbnf/validation.go b/wbnf/validation.go
index 80995c5..fd1ff9d 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -75,6 +75,7 @@ const (
 	PossibleCycleDetected
 	NotAMacro
 	IncorrectMacroArgCount
+	InvalidString
 )
 
 type validationError struct {
@@ -169,10 +170,25 @@ func (v *validator) validateAtom(tree AtomNode) Stopper {
 				args: []any{err},
 			})
 		}
+	} else if x := tree.OneStr(); x != nil {
+		v.validateString(*x)
+	} else if ref := tree.OneRef(); ref != nil && ref.OneDefault() != nil {
+		v.validateString(*ref.OneDefault())
 	}
 	return nil
 }
 
+func (v *validator) validateString(str StrNode) {
+	if err := checkString(str.String()); err != nil {
+		v.err = append(v.err, validationError{
+			s:    str.Scanner(),
+			msg:  "string '%s' is not valid, %s",
+			kind: InvalidString,
+			args: []any{err},
+		})
+	}
+}
+
 func (v *validator) validateQuant(tree QuantNode) Stopper {
 	switch tree.Choice() {
 	case 0:
-- 
2.43.0


From 788339597a2e7c79cf6f33f52b4771b11a18c68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:06 +0000
Subject: [PATCH 12/65] fix: regular expressions are validated as they will be
 used

---
 wbnf/compile.go    | 21 +++++++++++++--------
 wbnf/validation.go |  8 +++++++-
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 35b9fea..7c0c39e 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -112,6 +112,18 @@ func parseString(s string) string {
 var whitespaceRE = regexp.MustCompile(`\s`)
 var escapedSpaceRE = regexp.MustCompile(`((?:\A|[^\\])(?:\\\\)*)\\_`)
 
+// parseRegexp returns the regular expression that an RE token stands for.
+func parseRegexp(name string) string {
+	s := whitespaceRE.ReplaceAllString(name, "")
+	// Do this twice to cover adjacent escaped spaces `\_\_`.
+	s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
+	s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
+	if strings.HasPrefix(s, "/{") {
+		s = s[2 : len(s)-1]
+	}
+	return s
+}
+
 type grammarBuilder struct {
 	macros map[string]PragmaMacrodefNode
 }
@@ -150,14 +162,7 @@ func (gb grammarBuilder) buildAtom(atom AtomNode) parser.Term {
 	case "STR":
 		return parser.S(parseString(name))
 	case "RE":
-		s := whitespaceRE.ReplaceAllString(name, "")
-		// Do this twice to cover adjacent escaped spaces `\_\_`.
-		s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
-		s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
-		if strings.HasPrefix(s, "/{") {
-			s = s[2 : len(s)-1]
-		}
-		return parser.RE(s)
+		return parser.RE(parseRegexp(name))
 	case "REF":
 		refNode := atom.OneRef()
 		ref := parser.REF{
diff --git a/wbnf/validation.go b/wbnf/validation.go
index fd1ff9d..abdd969 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -162,7 +162,13 @@ func (v *validator) validateAtom(tree AtomNode) Stopper {
 			}
 		}
 	} else if x := tree.OneRe(); x != nil {
-		if _, err := regexp.Compile(x.String()); err != nil {
+		// The expression must stand on its own and inside a group.
+		re := parseRegexp(x.String())
+		_, err := regexp.Compile(re)
+		if err == nil {
+			_, err = regexp.Compile("(" + re + ")")
+		}
+		if err != nil {
 			v.err = append(v.err, validationError{
 				s:    tree.OneRe().Scanner(),
 				msg:  "regex '%s' is not valid, %s",
-- 
2.43.0


From 14970b79eda3d29f37ecec3540143e7cea5cbd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:26 +0000
Subject: [PATCH 13/65] fix: block comments of any length in grammars

---
 README.md           | 2 +-
 wbnf/wbnfgrammar.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index b018ee9..15cb466 100644
--- a/README.md
+++ b/README.md
@@ -320,7 +320,7 @@ REF         -> "%" IDENT ("=" default=STR)?;
 
 // Terminals
 COMMENT -> /{ //.*$
-            | (?s: /\* (?: [^*] | \*+[^*/] ) \*/ )
+            | (?s: /\* (?: [^*] | \*+[^*/] )* \*+/ )
             };
 IDENT   -> /{@|\.?[A-Za-z_]\w*};
 INT     -> \d+;
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index d9d1f87..f53544c 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -9,7 +9,7 @@ import (
 
 func Grammar() parser.Parsers {
 	return parser.Grammar{".wrapRE": parser.RE(`\s*()\s*`),
-		"COMMENT": parser.RE(`//.*$|(?s:/\*(?:[^*]|\*+[^*/])\*/)`),
+		"COMMENT": parser.RE(`//.*$|(?s:/\*(?:[^*]|\*+[^*/])*\*+/)`),
 		"IDENT":   parser.RE(`@|\.?[A-Za-z_]\w*`),
 		"INT":     parser.RE(`\d+`),
 		"RE":      parser.RE(`/{(?:\\.|{(?:(?:\d+(?:,\d*)?|,\d+)\})?|\[(?:\\.|\[:^?[a-z]+:\]|[^\]])+]|[^\\{\}])*\}|(?:(?:\[(?:\\.|\[:^?[a-z]+:\]|[^\]])+]|\\[pP](?:[a-z]|\{[a-zA-Z_]+\})|\\[a-zA-Z]|[.^$])(?:(?:[+*?]|\{\d+,?\d?\})\??)?)+`),
@@ -1487,7 +1487,7 @@ REF         -> "%" IDENT ("=" default=STR)?;
 
 // Terminals
 COMMENT -> /{ //.*$
-            | (?s: /\* (?: [^*] | \*+[^*/] ) \*/ )
+            | (?s: /\* (?: [^*] | \*+[^*/] )* \*+/ )
             };
 IDENT   -> /{@|\.?[A-Za-z_]\w*};
 INT     -> \d+;
-- 
2.43.0


From 62b90d33088fd21bb1d619538a2e5ab39c4e4ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:45 +0000
Subject: [PATCH 14/65] fix: parsing from an unknown rule is an error

---
 parser/terms.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/terms.go b/parser/terms.go
index 0142725..7f55188 100644
--- a/parser/terms.go
+++ b/parser/terms.go
@@ -49,6 +49,9 @@ func (p Parsers) Unparse(e TreeElement, w io.Writer) (n int, err error) {
 
 // Parse parses some source per a given rule.
 func (p Parsers) ParseWithExternals(rule Rule, input *Scanner, exts ExternalRefs) (TreeElement, error) {
+	if !p.HasRule(rule) {
+		return nil, fmt.Errorf("unknown rule: %s", rule)
+	}
 	scope := Scope{}.WithExternals(exts)
 	var e TreeElement
 	if err := p.parsers[rule].Parse(scope, input, &e, nil); err != nil {
-- 
2.43.0


From bef6ae2543f86d5e1bc3bd8d375962a0e5b75ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:42 +0000
Subject: [PATCH 15/65] fix: bare regular expressions accept \pL and {m,nn} as
 documented

---
 README.md           | 4 ++--
 wbnf/wbnfgrammar.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/README.md b/README.md
index 15cb466..430f277 100644
--- a/README.md
+++ b/README.md
@@ -340,10 +340,10 @@ RE      -> /{
            | (?:
                (?:
                  \[ (?: \\. | \[:^?[a-z]+:\] | [^\]] )+ ]
-               | \\[pP](?:[a-z]|\{[a-zA-Z_]+\})
+               | \\[pP](?:[a-zA-Z]|\{[a-zA-Z_]+\})
                | \\[a-zA-Z]
                | [.^$]
-               )(?: (?:[+*?]|\{\d+,?\d?\}) \?? )?
+               )(?: (?:[+*?]|\{\d+,?\d*\}) \?? )?
              )+
            };
 
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index f53544c..e4a5ce8 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -12,7 +12,7 @@ func Grammar() parser.Parsers {
 		"COMMENT": parser.RE(`//.*$|(?s:/\*(?:[^*]|\*+[^*/])*\*+/)`),
 		"IDENT":   parser.RE(`@|\.?[A-Za-z_]\w*`),
 		"INT":     parser.RE(`\d+`),
-		"RE":      parser.RE(`/{(?:\\.|{(?:(?:\d+(?:,\d*)?|,\d+)\})?|\[(?:\\.|\[:^?[a-z]+:\]|[^\]])+]|[^\\{\}])*\}|(?:(?:\[(?:\\.|\[:^?[a-z]+:\]|[^\]])+]|\\[pP](?:[a-z]|\{[a-zA-Z_]+\})|\\[a-zA-Z]|[.^$])(?:(?:[+*?]|\{\d+,?\d?\})\??)?)+`),
+		"RE":      parser.RE(`/{(?:\\.|{(?:(?:\d+(?:,\d*)?|,\d+)\})?|\[(?:\\.|\[:^?[a-z]+:\]|[^\]])+]|[^\\{\}])*\}|(?:(?:\[(?:\\.|\[:^?[a-z]+:\]|[^\]])+]|\\[pP](?:[a-zA-Z]|\{[a-zA-Z_]+\})|\\[a-zA-Z]|[.^$])(?:(?:[+*?]|\{\d+,?\d*\})\??)?)+`),
 		"REF": parser.Seq{parser.CutPoint{parser.S(`%`)},
 			parser.Rule(`IDENT`),
 			parser.Opt(parser.Seq{parser.S(`=`),
@@ -1507,10 +1507,10 @@ RE      -> /{
            | (?:
                (?:
                  \[ (?: \\. | \[:^?[a-z]+:\] | [^\]] )+ ]
-               | \\[pP](?:[a-z]|\{[a-zA-Z_]+\})
+               | \\[pP](?:[a-zA-Z]|\{[a-zA-Z_]+\})
                | \\[a-zA-Z]
                | [.^$]
-               )(?: (?:[+*?]|\{\d+,?\d?\}) \?? )?
+               )(?: (?:[+*?]|\{\d+,?\d*\}) \?? )?
              )+
            };
 
-- 
2.43.0


From 1709842291cb65cad33d7d52d9da0faf18ca0bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:01 +0000
Subject: [PATCH 16/65] fix: writing out a term repeated exactly once

---
 parser/terms.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/parser/terms.go b/parser/terms.go
index 7f55188..8931abe 100644
--- a/parser/terms.go
+++ b/parser/terms.go
@@ -245,8 +245,6 @@ func (t Quant) String() string {
 		sb.WriteString("?")
 	case [2]int{1, 0}:
 		sb.WriteString("+")
-	case [2]int{1, 1}:
-		panic(errors.Inconceivable)
 	default:
 		sb.WriteString("{")
 		if t.Min != 0 {
-- 
2.43.0


From 0cec4f11be2cfda786478f784fdbf78f63f2d894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:42 +0000
Subject: [PATCH 17/65] fix: a reference to a rule that isn't there is a parse
 error

---
 parser/parser.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 599e610..680b311 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -113,8 +113,10 @@ func (g Grammar) Compile(node any) Parsers {
 		for {
 			switch r := term.(type) {
 			case Rule:
-				term = g[r]
-				continue
+				if next, has := g[r]; has {
+					term = next
+					continue
+				}
 			}
 			break
 		}
@@ -130,13 +132,20 @@ func (g Grammar) Compile(node any) Parsers {
 				break
 			}
 			seen[ref.t] = true
-			parser = c.parsers[ref.t]
+			next, has := c.parsers[ref.t]
+			if !has {
+				next = unknownRuleParser{ref}
+			}
+			parser = next
 		}
 		c.parsers[rule] = parser
 	}
 
 	for rule, rulePtrs := range c.rulePtrses {
 		p := c.parsers[rule]
+		if p == nil {
+			p = unknownRuleParser{ruleParser{rule: rule, t: rule}}
+		}
 		for _, rulePtr := range rulePtrs {
 			*rulePtr = p
 		}
@@ -189,6 +198,15 @@ func (p ruleParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk
 }
 func (p ruleParser) AsTerm() Term { return p.t }
 
+// unknownRuleParser stands for a reference to a rule that isn't there.
+type unknownRuleParser struct {
+	ruleParser
+}
+
+func (p unknownRuleParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) error {
+	return newParseError(p.rule, "unknown rule")(scope.GetCutPoint())
+}
+
 func (t Rule) Parser(rule Rule, c cache) Parser {
 	return ruleParser{
 		rule: rule,
-- 
2.43.0


From 3c0626299ec5f1982d4e1c241fdd53dee0cb8c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:42 +0000
Subject: [PATCH 18/65] fix: left recursion, unknown references and misplaced
 stacks are reported

---
 wbnf/check.go   | 353 ++++++++++++++++++++++++++++++++++++++++++++++++
 wbnf/compile.go |   6 +-
 2 files changed, 358 insertions(+), 1 deletion(-)
 create mode 100644 wbnf/check.go

diff --git a/wbnf/check.go b/wbnf/check.go
new file mode 100644
index 0000000..6231796
--- /dev/null
+++ b/wbnf/check.go
@@ -0,0 +1,353 @@
+package wbnf
+
+import (
+	"fmt"
+	"regexp"
+	"regexp/syntax"
+	"sort"
+	"strings"
+
+	"github.com/arr-ai/wbnf/parser"
+)
+
+// checkGrammar looks for what makes a grammar unusable although each of its
+// productions is well formed: references to nowhere, misplaced precedence
+// stacks, unusable wrap rules, and rules that get back to themselves without
+// consuming anything, which would never end.
+func checkGrammar(g parser.Grammar) error {
+	c := &grammarChecker{nullableNames: map[string]bool{}}
+	c.addRules(&checkScope{g: g, rules: map[parser.Rule][]*checkRule{}})
+	if len(c.err) == 0 {
+		c.checkCycles()
+	}
+	if len(c.err) > 0 {
+		return &validator{err: c.err}
+	}
+	return nil
+}
+
+// checkScope is a grammar, possibly nested in another one.
+type checkScope struct {
+	g     parser.Grammar
+	rules map[parser.Rule][]*checkRule
+	up    *checkScope
+}
+
+// checkRule is a rule, or one layer of a rule that is a precedence stack.
+type checkRule struct {
+	rule     parser.Rule
+	name     string
+	stack    []*checkRule
+	layer    int
+	body     *checkTerm
+	nullable bool
+	done     bool
+}
+
+// checkTerm is a term whose references are resolved.
+type checkTerm struct {
+	t    parser.Term
+	ref  *checkRule
+	kids []*checkTerm
+}
+
+type grammarChecker struct {
+	rules         []*checkRule
+	nullableNames map[string]bool // names that may be bound to nothing
+	changed       bool
+	err           []error
+}
+
+func (c *grammarChecker) fail(kind validationErrorKind, format string, args ...any) {
+	msg := strings.ReplaceAll(fmt.Sprintf(format, args...), "%", "%%")
+	c.err = append(c.err, validationError{msg: msg, kind: kind})
+}
+
+func (c *grammarChecker) addRules(s *checkScope) {
+	names := make([]string, 0, len(s.g))
+	for name := range s.g {
+		names = append(names, string(name))
+	}
+	sort.Strings(names)
+
+	var added []*checkRule
+	for _, name := range names {
+		term := s.g[parser.Rule(name)]
+		if parser.Rule(name) == parser.WrapRE {
+			c.checkWrap(term)
+			continue
+		}
+		layers := 1
+		if stack, is := term.(parser.Stack); is {
+			layers = len(stack)
+		}
+		rules := make([]*checkRule, 0, layers)
+		for i := 0; i < layers; i++ {
+			r := &checkRule{rule: parser.Rule(name), name: name, layer: i}
+			if i > 0 {
+				r.name = fmt.Sprintf("%s%s%d", name, parser.StackDelim, i)
+			}
+			rules = append(rules, r)
+		}
+		if _, is := term.(parser.Stack); is {
+			for _, r := range rules {
+				r.stack = rules
+			}
+		}
+		s.rules[parser.Rule(name)] = rules
+		added = append(added, rules...)
+	}
+	c.rules = append(c.rules, added...)
+	for _, r := range added {
+		body := s.g[r.rule]
+		if stack, is := body.(parser.Stack); is {
+			body = stack[r.layer]
+		}
+		r.body = c.resolve(body, s, r)
+	}
+}
+
+// resolve links the references in a term of rule r that stands in scope s.
+func (c *grammarChecker) resolve(t parser.Term, s *checkScope, r *checkRule) *checkTerm {
+	out := &checkTerm{t: t}
+	add := func(terms ...parser.Term) {
+		for _, t := range terms {
+			out.kids = append(out.kids, c.resolve(t, s, r))
+		}
+	}
+	switch t := t.(type) {
+	case parser.Rule:
+		if t == parser.At {
+			if r.stack != nil {
+				out.ref = r.stack[(r.layer+1)%len(r.stack)]
+			}
+			break // elsewhere, it matches nothing
+		}
+		for up := s; up != nil && out.ref == nil; up = up.up {
+			if rules, has := up.rules[t]; has {
+				out.ref = rules[0]
+			}
+		}
+		if out.ref == nil {
+			c.fail(UnknownRule, "%s: identifier '%s' is not a defined rule", r.name, t)
+		}
+	case parser.Stack:
+		c.fail(UnknownRule, "%s: a precedence stack must be a rule of its own", r.name)
+	case parser.Seq:
+		add(t...)
+	case parser.Oneof:
+		add(t...)
+	case parser.Delim:
+		add(t.Term, t.Sep)
+	case parser.Quant:
+		add(t.Term)
+	case parser.Named:
+		add(t.Term)
+	case parser.LookAhead:
+		add(t.Term)
+	case parser.CutPoint:
+		add(t.Term)
+	case parser.ScopedGrammar:
+		s = &checkScope{g: t.Grammar, rules: map[parser.Rule][]*checkRule{}, up: s}
+		c.addRules(s)
+		add(t.Term)
+	}
+	return out
+}
+
+func (c *grammarChecker) checkWrap(t parser.Term) {
+	t = uncut(t)
+	if oneof, is := t.(parser.Oneof); is {
+		t = uncut(oneof[len(oneof)-1])
+	}
+	re, is := t.(parser.RE)
+	if !is {
+		c.fail(InvalidRegex, "%s must be a regular expression, not %v", parser.WrapRE, t)
+		return
+	}
+	wrapped := strings.Replace(string(re), "()", "(?:([x]))", 1)
+	if _, err := regexp.Compile(wrapped); err != nil {
+		c.fail(InvalidRegex, "%s cannot wrap other expressions: %v", parser.WrapRE, err)
+	}
+}
+
+func uncut(t parser.Term) parser.Term {
+	for {
+		cut, is := t.(parser.CutPoint)
+		if !is {
+			return t
+		}
+		t = cut.Term
+	}
+}
+
+func (c *grammarChecker) checkCycles() {
+	// Grow the set of rules that may consume nothing until it is complete.
+	for c.changed = true; c.changed; {
+		c.changed = false
+		for _, r := range c.rules {
+			if c.nullable(r.body) && !r.nullable {
+				r.nullable = true
+				c.changed = true
+			}
+		}
+	}
+	for _, r := range c.rules {
+		if cycle := c.findCycle(r, nil); cycle != "" {
+			c.fail(PossibleCycleDetected, "Possible cycle(s) detected: \n\t%s", cycle)
+			return
+		}
+	}
+}
+
+func (c *grammarChecker) findCycle(r *checkRule, path []*checkRule) string {
+	for i, p := range path {
+		if p == r {
+			names := make([]string, 0, len(path)-i+1)
+			for _, p := range append(path[i:len(path):len(path)], r) {
+				names = append(names, p.name)
+			}
+			return strings.Join(names, " > ")
+		}
+	}
+	if r.done {
+		return ""
+	}
+	var next []*checkRule
+	c.leftmost(r.body, &next)
+	path = append(path[:len(path):len(path)], r)
+	for _, n := range next {
+		if cycle := c.findCycle(n, path); cycle != "" {
+			return cycle
+		}
+	}
+	r.done = true
+	return ""
+}
+
+// nullable tells whether a term may match without consuming anything. It also
+// notes which names may be bound to such a match.
+func (c *grammarChecker) nullable(t *checkTerm) bool {
+	bind := func(t *checkTerm, nullable bool) {
+		if name := t.bound(); nullable && name != "" && !c.nullableNames[name] {
+			c.nullableNames[name] = true
+			c.changed = true
+		}
+	}
+	switch x := t.t.(type) {
+	case parser.S:
+		return x == ""
+	case parser.RE:
+		return regexpNullable(string(x))
+	case parser.REF:
+		def, is := x.Default.(parser.S)
+		return c.nullableNames[x.Ident] || (is && def == "")
+	case parser.ExtRef:
+		return false
+	case parser.Rule:
+		return t.ref != nil && t.ref.nullable
+	case parser.Seq:
+		all := true
+		for _, k := range t.kids {
+			n := c.nullable(k)
+			bind(k, n)
+			all = all && n
+		}
+		return all
+	case parser.Oneof:
+		some := false
+		for _, k := range t.kids {
+			n := c.nullable(k)
+			some = some || n
+		}
+		return some
+	case parser.Quant:
+		return c.nullable(t.kids[0]) || x.Min == 0
+	case parser.Delim:
+		term, sep := c.nullable(t.kids[0]), c.nullable(t.kids[1])
+		bind(t.kids[0], term)
+		bind(t.kids[1], sep || x.CanStartWithSep)
+		return term
+	case parser.LookAhead:
+		c.nullable(t.kids[0])
+		return true
+	}
+	return c.nullable(t.kids[0]) // Named, CutPoint, ScopedGrammar
+}
+
+// bound returns the name that the match of a member of a sequence goes by.
+func (t *checkTerm) bound() string {
+	switch x := t.t.(type) {
+	case parser.Named:
+		return x.Name
+	case parser.Rule:
+		return string(x)
+	case parser.Quant:
+		return t.kids[0].bound()
+	}
+	return ""
+}
+
+// leftmost lists the rules that a term may start with.
+func (c *grammarChecker) leftmost(t *checkTerm, out *[]*checkRule) {
+	switch x := t.t.(type) {
+	case parser.Rule:
+		if t.ref != nil {
+			*out = append(*out, t.ref)
+		}
+	case parser.Seq:
+		for _, k := range t.kids {
+			c.leftmost(k, out)
+			if !c.nullable(k) {
+				return
+			}
+		}
+	case parser.Delim:
+		if x.CanStartWithSep || c.nullable(t.kids[0]) {
+			c.leftmost(t.kids[1], out)
+		}
+		c.leftmost(t.kids[0], out)
+	default:
+		for _, k := range t.kids {
+			c.leftmost(k, out)
+		}
+	}
+}
+
+// regexpNullable tells whether an expression may match the empty string
+// somewhere.
+func regexpNullable(re string) bool {
+	parsed, err := syntax.Parse(re, syntax.Perl)
+	if err != nil {
+		return true
+	}
+	var nullable func(re *syntax.Regexp) bool
+	nullable = func(re *syntax.Regexp) bool {
+		switch re.Op {
+		case syntax.OpLiteral:
+			return len(re.Rune) == 0
+		case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL, syntax.OpNoMatch:
+			return false
+		case syntax.OpCapture, syntax.OpPlus:
+			return nullable(re.Sub[0])
+		case syntax.OpRepeat:
+			return re.Min == 0 || nullable(re.Sub[0])
+		case syntax.OpConcat:
+			for _, sub := range re.Sub {
+				if !nullable(sub) {
+					return false
+				}
+			}
+			return true
+		case syntax.OpAlternate:
+			for _, sub := range re.Sub {
+				if nullable(sub) {
+					return true
+				}
+			}
+			return false
+		}
+		return true
+	}
+	return nullable(parsed)
+}
diff --git a/wbnf/compile.go b/wbnf/compile.go
index 7c0c39e..662d428 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -393,7 +393,11 @@ func Compile(grammar string, resolver ImportResolver) (parser.Parsers, error) {
 	if err := validate(node); err != nil {
 		return parser.Parsers{}, err
 	}
-	return NewFromAst(node).Compile(node), nil
+	g := NewFromAst(node)
+	if err := checkGrammar(g); err != nil {
+		return parser.Parsers{}, err
+	}
+	return g.Compile(node), nil
 }
 
 func MustCompile(grammar string, resolver ImportResolver) parser.Parsers {
-- 
2.43.0


From 836dbdfa21b32a1fe19caf59d7ce13216f0c2cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:10 +0000
Subject: [PATCH 19/65] fix: macro arguments in lookaheads and scoped grammars
 are substituted

---
 wbnf/compile.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 662d428..73cf7c8 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -133,8 +133,15 @@ func (gb grammarBuilder) expandMacro(node MacrocallNode) parser.Term {
 	macro := gb.macros[name]
 	g := parser.Grammar{parser.Rule(name): gb.buildTerm(*macro.OneTerm())}
 
-	newg := rebuildGrammar(g, func(t parser.Term) parser.Term {
+	var substitute func(t parser.Term) parser.Term
+	substitute = func(t parser.Term) parser.Term {
 		switch t := t.(type) {
+		case parser.LookAhead:
+			t.Term = fixTerm(t.Term, substitute)
+			return t
+		case parser.ScopedGrammar:
+			t.Grammar = rebuildGrammar(t.Grammar, substitute)
+			return t
 		case parser.Rule:
 			for i, arg := range macro.AllArgs() {
 				if arg.String() == string(t) {
@@ -143,7 +150,8 @@ func (gb grammarBuilder) expandMacro(node MacrocallNode) parser.Term {
 			}
 		}
 		return t
-	})
+	}
+	newg := rebuildGrammar(g, substitute)
 	return newg[parser.Rule(name)]
 }
 
-- 
2.43.0


From 3188e3b87ea740dafb64fe8aa5c6b8a84dd7ab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:44 +0000
Subject: [PATCH 20/65] fix: scoped grammars of precedence stack layers

---
 parser/resolve.go |  3 ++-
 wbnf/compile.go   | 40 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/parser/resolve.go b/parser/resolve.go
index a96f059..7be87af 100644
--- a/parser/resolve.go
+++ b/parser/resolve.go
@@ -62,7 +62,8 @@ func (t Named) Resolve(oldRule, newRule Rule) Term {
 }
 
 func (t ScopedGrammar) Resolve(oldRule, newRule Rule) Term {
-	panic(errors.Inconceivable)
+	t.Term = t.Term.Resolve(oldRule, newRule)
+	return t
 }
 
 func (t CutPoint) Resolve(oldRule, newRule Rule) Term {
diff --git a/wbnf/compile.go b/wbnf/compile.go
index 73cf7c8..0468dc0 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -249,12 +249,52 @@ func (gb grammarBuilder) buildNamed(n NamedNode) parser.Term {
 	return atom
 }
 
+// firstOffset returns where a node starts in its source, or -1.
+func firstOffset(n ast.Node) int {
+	first := -1
+	add := func(n ast.Node) {
+		if offset := firstOffset(n); offset >= 0 && (first < 0 || offset < first) {
+			first = offset
+		}
+	}
+	switch n := n.(type) {
+	case ast.Leaf:
+		return n.Scanner().Offset()
+	case ast.Branch:
+		for name, children := range n {
+			if strings.HasPrefix(name, "@") {
+				continue // not from the source
+			}
+			switch children := children.(type) {
+			case ast.One:
+				add(children.Node)
+			case ast.Many:
+				for _, child := range children {
+					add(child)
+				}
+			}
+		}
+	}
+	return first
+}
+
 func (gb grammarBuilder) buildTerm(t TermNode) parser.Term {
 	if len(t.AllTerm()) > 0 {
 		var terms []parser.Term
 		for _, t := range t.AllTerm() {
 			terms = append(terms, gb.buildTerm(t))
 		}
+		if t.OneOp() == ">" {
+			// Each scoped grammar belongs to the layer it comes after.
+			for _, g := range t.AllGrammar() {
+				for i := len(terms) - 1; i >= 0; i-- {
+					if firstOffset(t.AllTerm()[i].Node) < firstOffset(g.Node) {
+						terms[i] = parser.ScopedGrammar{Term: terms[i], Grammar: gb.buildGrammar(g.Node)}
+						break
+					}
+				}
+			}
+		}
 		switch t.OneOp() {
 		case "|":
 			return append(parser.Oneof{}, terms...)
-- 
2.43.0


From dd4a2bf375bb824fdd9e08ef9485d6838c8697f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:31 +0000
Subject: [PATCH 21/65] fix: scoped grammars, macro cycles and quantifier
 bounds are validated

---
 wbnf/validation.go | 65 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 61 insertions(+), 4 deletions(-)

diff --git a/wbnf/validation.go b/wbnf/validation.go
index abdd969..2ad545a 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -50,6 +50,7 @@ func validate(tree GrammarNode) error {
 		knownRules: rules,
 		macros:     macros,
 	}
+	v.addMacros(tree)
 	v.walk(tree)
 
 	if cycles := checkForRecursion(tree); cycles != nil {
@@ -62,6 +63,46 @@ func validate(tree GrammarNode) error {
 	return &v
 }
 
+// addMacros finds the macros of scoped grammars too, which share a single
+// namespace, and checks that no macro depends on its own expansion.
+func (v *validator) addMacros(tree GrammarNode) {
+	macros := map[string]PragmaMacrodefNode{}
+	var names []string
+	WalkerOps{EnterPragmaMacrodefNode: func(node PragmaMacrodefNode) Stopper {
+		name := node.OneName().String()
+		if _, has := macros[name]; has {
+			v.err = append(v.err, validationError{s: node.OneName().Scanner(),
+				msg: "macro '%s' is defined multiple times", kind: DuplicatedRule})
+		}
+		macros[name] = node
+		names = append(names, name)
+		return nil
+	}}.Walk(tree)
+	v.macros = macros
+
+	done := map[string]bool{}
+	var visit func(name string, path frozen.Set[string]) bool
+	visit = func(name string, path frozen.Set[string]) bool {
+		macro, has := macros[name]
+		if path.Has(name) || !has || done[name] {
+			return path.Has(name)
+		}
+		cyclic := false
+		WalkerOps{EnterMacrocallNode: func(call MacrocallNode) Stopper {
+			cyclic = cyclic || visit(call.OneName().String(), path.With(name))
+			return nil
+		}}.Walk(*macro.OneTerm())
+		done[name] = true
+		return cyclic
+	}
+	for _, name := range names {
+		if visit(name, frozen.NewSet[string]()) {
+			v.err = append(v.err, validationError{s: macros[name].OneName().Scanner(),
+				msg: "macro '%s' expands to itself", kind: PossibleCycleDetected})
+		}
+	}
+}
+
 type validationErrorKind int
 
 const (
@@ -123,7 +164,12 @@ func (v *validator) Error() string {
 
 func (v *validator) validateTerm(tree TermNode) Stopper {
 	if len(tree.AllGrammar()) != 0 {
-		//fixme: This doesnt work for scoped grammars yet, abort!
+		//fixme: This doesnt work for scoped grammars yet, check only what doesn't depend on names.
+		WalkerOps{
+			EnterAtomNode:      v.validateAtomText,
+			EnterQuantNode:     v.validateQuant,
+			EnterMacrocallNode: v.validateMacroCall,
+		}.Walk(tree)
 		return NodeExiter
 	}
 	if tree.OneOp() == "" {
@@ -161,7 +207,13 @@ func (v *validator) validateAtom(tree AtomNode) Stopper {
 					msg: "identifier '%s' is not a defined rule", kind: UnknownRule})
 			}
 		}
-	} else if x := tree.OneRe(); x != nil {
+		return nil
+	}
+	return v.validateAtomText(tree)
+}
+
+func (v *validator) validateAtomText(tree AtomNode) Stopper {
+	if x := tree.OneRe(); x != nil {
 		// The expression must stand on its own and inside a group.
 		re := parseRegexp(x.String())
 		_, err := regexp.Compile(re)
@@ -204,14 +256,14 @@ func (v *validator) validateQuant(tree QuantNode) Stopper {
 		if x := tree.OneMin().String(); x != "" {
 			val, err := strconv.Atoi(x)
 			if err != nil {
-				panic("should not get here")
+				v.invalidQuant(x, err)
 			}
 			min = val
 		}
 		if x := tree.OneMax().String(); x != "" {
 			val, err := strconv.Atoi(x)
 			if err != nil {
-				panic("should not get here")
+				v.invalidQuant(x, err)
 			}
 			max = val
 		}
@@ -226,6 +278,11 @@ func (v *validator) validateQuant(tree QuantNode) Stopper {
 	return nil
 }
 
+func (v *validator) invalidQuant(x string, err error) {
+	v.err = append(v.err, validationError{
+		msg: fmt.Sprintf("quant: %s is not usable, %v", x, err), kind: MinMaxQuantError})
+}
+
 func (v *validator) validateMacro(node PragmaMacrodefNode) Stopper {
 	prevRules := v.knownRules
 	defer func() { v.knownRules = prevRules }()
-- 
2.43.0


From 8d104fc04c7104f8935d0d0c8537f0f6df20c463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:31 +0000
Subject: [PATCH 22/65] fix: large lower bound of a repetition

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 680b311..ae99456 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -622,7 +622,7 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 			return err
 		}
 	}
-	result := make([]TreeElement, 0, p.t.Min)
+	result := []TreeElement{}
 	var v TreeElement
 	start := *input
 
-- 
2.43.0


From d0fd8fbd8a1806aad87284ace7c0056b102bc402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:01 +0000
Subject: [PATCH 23/65] fix: import cycles terminate

---
 wbnf/compile.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 0468dc0..ca3c4db 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -420,6 +420,8 @@ func (c *compiler) loadGrammarFile(filename string) (GrammarNode, error) {
 		if err != nil {
 			return GrammarNode{}, err
 		}
+		// An import cycle adds nothing new.
+		c.imports[filename] = GrammarNode{}
 		g, err := c.makeGrammar(filename, string(text))
 		if err != nil {
 			return GrammarNode{}, err
-- 
2.43.0


From 7d5e6ec1a2a90c6bba8aebf91fa178c1c5ba3789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:24 +0000
Subject: [PATCH 24/65] fix: imports of imported files resolve against the
 importing file

---
 cmd/test.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/test.go b/cmd/test.go
index 79ba003..39786ed 100644
--- a/cmd/test.go
+++ b/cmd/test.go
@@ -76,7 +76,8 @@ func (r resolver) Resolve(from, file string) string {
 	if from == "" {
 		return filepath.Clean(filepath.Join(r.base, file))
 	}
-	return filepath.Clean(filepath.Join(r.base, from, file))
+	// from is what Resolve returned for the importing file.
+	return filepath.Clean(filepath.Join(filepath.Dir(from), file))
 }
 
 func makeResolver(firstFilename string) resolver {
-- 
2.43.0


From 0aac0ba116d92f9aa4cf9a6b9816110d7ea4ec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:26 +0000
Subject: [PATCH 25/65] fix: gen reports unwritable output and unknown start
 rules

---
 cmd/gen.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/gen.go b/cmd/gen.go
index c43687b..30eae1f 100644
--- a/cmd/gen.go
+++ b/cmd/gen.go
@@ -2,12 +2,14 @@ package cmd
 
 import (
 	"bytes"
+	"fmt"
 	"go/format"
 	"os"
 	"strings"
 
 	"github.com/arr-ai/wbnf/cmd/codegen"
 
+	"github.com/arr-ai/wbnf/parser"
 	"github.com/arr-ai/wbnf/wbnf"
 	"github.com/urfave/cli"
 )
@@ -53,6 +55,9 @@ var genCommand = cli.Command{
 
 func gen(c *cli.Context) error {
 	g := loadTestGrammar()
+	if !g.HasRule(parser.Rule(startingRule)) {
+		return fmt.Errorf("starting rule '%s' not in grammar", startingRule)
+	}
 	tree := g.Node().(wbnf.GrammarNode)
 
 	types := codegen.MakeTypes(tree)
@@ -81,7 +86,7 @@ func gen(c *cli.Context) error {
 	case "", "-":
 		os.Stdout.Write(out)
 	default:
-		os.WriteFile(outFile, out, 0644) //nolint:errcheck,gosec
+		return os.WriteFile(outFile, out, 0644) //nolint:gosec
 	}
 
 	return nil
-- 
2.43.0


From 5705dde8a81e67ce0054990daf6227b3ee90bef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:58 +0000
Subject: [PATCH 26/65] fix: macro bodies are validated

---
 wbnf/validation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wbnf/validation.go b/wbnf/validation.go
index 2ad545a..0b40a42 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -295,7 +295,7 @@ func (v *validator) validateMacro(node PragmaMacrodefNode) Stopper {
 			v.knownRules = v.knownRules.With(arg.String())
 		}
 	}
-	v.walk(node.OneTerm())
+	v.walk(*node.OneTerm())
 	return NodeExiter
 }
 
-- 
2.43.0


From 94489472e3bf30b0967a85c7e8aba382784a418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:16 +0000
Subject: [PATCH 27/65] fix: rules that cannot match nothing end a search for
 left recursion

---
 wbnf/validation.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/wbnf/validation.go b/wbnf/validation.go
index 0b40a42..7f23d04 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -53,9 +53,8 @@ func validate(tree GrammarNode) error {
 	v.addMacros(tree)
 	v.walk(tree)
 
-	if cycles := checkForRecursion(tree); cycles != nil {
-		v.err = append(v.err, cycles)
-	}
+	// checkGrammar looks for recursion, knowing which rules may match nothing;
+	// checkForRecursion suspects every rule of it.
 
 	if len(v.err) == 0 {
 		return nil
-- 
2.43.0


From 9d7b47fda17d1649fe11aa46aecb25fccc8ec141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:57 +0000
Subject: [PATCH 28/65] fix: rules of scoped grammars defined twice are
 reported

---
 wbnf/validation.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/wbnf/validation.go b/wbnf/validation.go
index 7f23d04..a37915f 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -168,6 +168,7 @@ func (v *validator) validateTerm(tree TermNode) Stopper {
 			EnterAtomNode:      v.validateAtomText,
 			EnterQuantNode:     v.validateQuant,
 			EnterMacrocallNode: v.validateMacroCall,
+			EnterGrammarNode:   v.validateScopedRules,
 		}.Walk(tree)
 		return NodeExiter
 	}
@@ -188,6 +189,22 @@ func (v *validator) validateTerm(tree TermNode) Stopper {
 	return nil
 }
 
+// validateScopedRules checks that each rule of a scoped grammar is defined once.
+func (v *validator) validateScopedRules(tree GrammarNode) Stopper {
+	seen := map[string]bool{}
+	for _, stmt := range tree.AllStmt() {
+		if prod := stmt.OneProd(); prod != nil {
+			name := prod.OneIdent().String()
+			if seen[name] {
+				v.err = append(v.err, validationError{s: prod.OneIdent().Scanner(),
+					msg: "rule '%s' is defined multiple times", kind: DuplicatedRule})
+			}
+			seen[name] = true
+		}
+	}
+	return nil
+}
+
 func (v *validator) validateNamed(tree NamedNode) Stopper {
 	if x := tree.OneIdent(); x != nil {
 		if v.knownRules.Has(x.String()) {
-- 
2.43.0


From 8196d4167780215147281593ea6c04746e807b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:25 +0000
Subject: [PATCH 29/65] fix: back-references to text that isn't valid UTF-8

---
 parser/parser.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index ae99456..189c8eb 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -5,6 +5,7 @@ import (
 	"reflect"
 	"regexp"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/arr-ai/wbnf/errors"
 )
@@ -271,7 +272,7 @@ func (p *sParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *c
 	if escaped, err := parseEscape(p, scope, string(p.rule), p.t, input, output); escaped || err != nil {
 		return err
 	}
-	if ok := eatRegexp(input, p.re, output); !ok {
+	if ok := p.eat(input, output); !ok {
 		return newParseError(p.rule, "")(scope.GetCutPoint(),
 			func() error { return fmt.Errorf("expect: %s", NewScanner(p.t.String()).Context(DefaultLimit)) },
 			func() error { return fmt.Errorf("actual: %s", getErrorStrings(input)) },
@@ -282,7 +283,24 @@ func (p *sParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *c
 }
 func (p *sParser) AsTerm() Term { return p.t }
 
+func (p *sParser) eat(input *Scanner, output *TreeElement) bool {
+	if p.re != nil {
+		return eatRegexp(input, p.re, output)
+	}
+	var eaten Scanner
+	if !input.EatString(string(p.t), &eaten) {
+		return false
+	}
+	*output = eaten
+	return true
+}
+
 func (t S) Parser(rule Rule, c cache) Parser {
+	if !utf8.ValidString(string(t)) {
+		// The text a back-reference looks for may be any bytes, which a regexp
+		// can't express.
+		return &sParser{rule: rule, t: t}
+	}
 	re := applyWrapRE(string(t), func(re string) string { return "(" + regexp.QuoteMeta(re) + ")" }, c)
 	return &sParser{
 		rule: rule,
-- 
2.43.0


From 0ee86cea738e21d6db341528c2c4f89bf4b0bcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:02 +0000
Subject: [PATCH 30/65] fix: trees of rules that reduce to a named term or
 reference bear the rule's name

---
 parser/terms.go | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/parser/terms.go b/parser/terms.go
index 8931abe..030e603 100644
--- a/parser/terms.go
+++ b/parser/terms.go
@@ -23,6 +23,45 @@ func (g Grammar) Unparse(e TreeElement, w io.Writer) (n int, err error) {
 	return g[rule].Unparse(g, e, w)
 }
 
+// reducesTo tells whether the production of a rule is, names and scoped
+// grammars aside, the term or rule of the given name. The tree of such a rule
+// would otherwise not tell which rule it is the tree of.
+func (g Grammar) reducesTo(rule Rule, name string) bool {
+	scopes := []Grammar{g}
+	seen := map[Rule]bool{rule: true}
+	for term := g[rule]; ; {
+		switch t := term.(type) {
+		case Named:
+			if t.Name == name {
+				return true
+			}
+			term = t.Term
+		case CutPoint:
+			term = t.Term
+		case ScopedGrammar:
+			scopes = append(scopes, t.Grammar)
+			seen = map[Rule]bool{}
+			term = t.Term
+		case Rule:
+			if string(t) == name {
+				return true
+			}
+			for term = nil; len(scopes) > 0; scopes = scopes[:len(scopes)-1] {
+				if next, has := scopes[len(scopes)-1][t]; has {
+					term = next
+					break
+				}
+			}
+			if seen[t] {
+				return false
+			}
+			seen[t] = true
+		default:
+			return false
+		}
+	}
+}
+
 // Parsers holds Parsers generated by Grammar.Compile.
 type Parsers struct {
 	parsers map[Rule]Parser
@@ -57,6 +96,10 @@ func (p Parsers) ParseWithExternals(rule Rule, input *Scanner, exts ExternalRefs
 	if err := p.parsers[rule].Parse(scope, input, &e, nil); err != nil {
 		return nil, err
 	}
+	if node, ok := e.(Node); ok && p.grammar.reducesTo(rule, node.Tag) {
+		node.Tag = string(rule)
+		e = node
+	}
 
 	if input.String() == "" {
 		return e, nil
-- 
2.43.0


From e02ca9736f925ff725017cf250a12b9badca2c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:46 +0000
Subject: [PATCH 31/65] fix: ASTs of scoped grammars follow their scopes and
 leave the grammar alone

---
 ast/from_parsernode.go | 36 ++++++++++++++++--------------------
 ast/node.go            | 20 ++++++++++++++++++++
 ast/to_parsernode.go   | 32 ++++++++++++++------------------
 parser/parser.go       | 30 +++++++++++++++---------------
 4 files changed, 65 insertions(+), 53 deletions(-)

diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index f247f80..5107ca8 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -29,7 +29,7 @@ func FromParserNode(g parser.Grammar, e parser.TreeElement) Branch {
 	result := Branch{}
 	result.one("@rule", Extra{rule})
 	ctrs := newCounters(term)
-	result.fromParserNode(g, term, ctrs, e)
+	result.fromParserNode(newScope(g, nil), term, ctrs, e)
 	return result.collapse(0).(Branch)
 }
 
@@ -115,18 +115,18 @@ func (b Branch) many(name string, node Node) {
 	}
 }
 
-func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters, e parser.TreeElement) {
+func (b Branch) fromParserNode(sc *scope, term parser.Term, ctrs counters, e parser.TreeElement) {
 	var tag string
 	// defer enterf("fromParserNode(term=%T(%[1]v), ctrs=%v, v=%v)", term, ctrs, e).exitf("tag=%q, n=%v", &tag, &n)
 	switch t := term.(type) {
 	case parser.S, parser.RE:
 		b.add("", Leaf(e.(parser.Scanner)), ctrs[""])
 	case parser.Rule:
-		rule := g[t]
+		rule, rsc := sc.find(t)
 		childCtrs := newCounters(rule)
 		b2 := Branch{}
-		unleveled, level := unlevel(string(t), g)
-		b2.fromParserNode(g, rule, childCtrs, e)
+		unleveled, level := unlevel(string(t), sc.g)
+		b2.fromParserNode(rsc, rule, childCtrs, e)
 		var node Node = b2
 		// if name := childCtrs.singular(); name != nil {
 		// 	node = b2[*name].(One).Node
@@ -135,20 +135,16 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 		node = node.collapse(level)
 		b.add(unleveled, node, ctrs[string(t)])
 	case parser.ScopedGrammar:
-		gcopy := g
-		for rule, terms := range t.Grammar {
-			gcopy[rule] = terms
-		}
-		b.fromParserNode(gcopy, t.Term, ctrs, e)
+		b.fromParserNode(newScope(t.Grammar, sc), t.Term, ctrs, e)
 	case parser.Seq:
 		node := e.(parser.Node)
 		for i, child := range node.Children {
-			b.fromParserNode(g, t[i], ctrs, child)
+			b.fromParserNode(sc, t[i], ctrs, child)
 		}
 	case parser.Oneof:
 		node := e.(parser.Node)
 		b.many(ChoiceTag, Extra{Data: node.Extra.(parser.Choice)})
-		b.fromParserNode(g, t[node.Extra.(parser.Choice)], ctrs, node.Children[0])
+		b.fromParserNode(sc, t[node.Extra.(parser.Choice)], ctrs, node.Children[0])
 	case parser.Delim:
 		node := e.(parser.Node)
 		tag = node.Tag
@@ -163,25 +159,25 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 						childCtrs := newCounters(lrTerm)
 						b2 := Branch{}
 						childCtrs.termCountChildren(t, ctrs[""])
-						b2.fromParserNode(g, lrTerm, childCtrs, child)
+						b2.fromParserNode(sc, lrTerm, childCtrs, child)
 						b.one(tag, b2)
 					} else {
-						b.fromParserNode(g, t.Term, ctrs, child)
+						b.fromParserNode(sc, t.Term, ctrs, child)
 					}
 				} else {
-					b.fromParserNode(g, lrTerm, ctrs, child)
+					b.fromParserNode(sc, lrTerm, ctrs, child)
 				}
 			}
 		}
 	case parser.Quant:
 		node := e.(parser.Node)
 		for _, child := range node.Children {
-			b.fromParserNode(g, t.Term, ctrs, child)
+			b.fromParserNode(sc, t.Term, ctrs, child)
 		}
 	case parser.Named:
 		childCtrs := newCounters(t.Term)
 		b2 := Branch{}
-		b2.fromParserNode(g, t.Term, childCtrs, e)
+		b2.fromParserNode(sc, t.Term, childCtrs, e)
 		var node Node = b2
 		// if name := childCtrs.singular(); name != nil {
 		// 	node = b2[*name].(One).Node
@@ -195,12 +191,12 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 		case parser.Node:
 			b2 := Branch{}
 			for _, child := range e.Children {
-				b2.fromParserNode(g, term, ctrs, child)
+				b2.fromParserNode(sc, term, ctrs, child)
 			}
 			b.add(t.Ident, b2, ctrs[t.Ident])
 		}
 	case parser.CutPoint:
-		b.fromParserNode(g, t.Term, ctrs, e)
+		b.fromParserNode(sc, t.Term, ctrs, e)
 	case parser.ExtRef:
 		if node, ok := e.(parser.Node); ok {
 			if b2, ok := node.Extra.(Branch); ok {
@@ -211,7 +207,7 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 	case parser.LookAhead:
 		node := e.(parser.Node)
 		for _, child := range node.Children {
-			b.fromParserNode(g, t.Term, ctrs, child)
+			b.fromParserNode(sc, t.Term, ctrs, child)
 		}
 	default:
 		panic(fmt.Errorf("branch.fromParserNode: unexpected term type: %v %[1]T", t))
diff --git a/ast/node.go b/ast/node.go
index 46b9c30..08e8ce6 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -106,6 +106,26 @@ func (e Extra) collapse(level int) Node {
 
 var stackLevelRE = regexp.MustCompile(`^(\w+)@(\d+)$`)
 
+// scope is a grammar together with the grammars around it.
+type scope struct {
+	g  parser.Grammar
+	up *scope
+}
+
+func newScope(g parser.Grammar, up *scope) *scope {
+	return &scope{g: g.ResolveStacks(), up: up}
+}
+
+// find returns a rule's term and the scope in which it is defined.
+func (s *scope) find(rule parser.Rule) (parser.Term, *scope) {
+	for ; s != nil; s = s.up {
+		if term, has := s.g[rule]; has {
+			return term, s
+		}
+	}
+	return nil, nil
+}
+
 func unlevel(name string, g parser.Grammar) (string, int) {
 	if m := stackLevelRE.FindStringSubmatch(name); m != nil {
 		i, err := strconv.Atoi(m[2])
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 04a334d..edbd166 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -13,7 +13,7 @@ func ToParserNode(g parser.Grammar, branch Branch) parser.TreeElement {
 	term := g[rule]
 	ctrs := newCounters(term)
 	branch = expandNode(branch, string(rule)).(Branch)
-	return relabelNode(string(rule), branch.toParserNode(g, term, ctrs))
+	return relabelNode(string(rule), branch.toParserNode(newScope(g, nil), term, ctrs))
 }
 
 func relabelNode(name string, e parser.TreeElement) parser.TreeElement {
@@ -74,8 +74,8 @@ func (b Branch) pullFromMany(name string) Node {
 	return nil
 }
 
-func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters) (out parser.TreeElement) {
-	// defer enterf("%v.toParserNode(g, term=%T(%[2]v), ctrs=%v)", n, term, ctrs).exitf("%v", &out)
+func (b Branch) toParserNode(sc *scope, term parser.Term, ctrs counters) (out parser.TreeElement) {
+	// defer enterf("%v.toParserNode(sc, term=%T(%[2]v), ctrs=%v)", n, term, ctrs).exitf("%v", &out)
 	switch t := term.(type) {
 	case parser.S, parser.RE:
 		if node := b.pull("", ctrs[""]); node != nil {
@@ -84,8 +84,8 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		return nil
 	case parser.Rule:
 		name := string(t)
-		term := g[t]
-		unleveled, level := unlevel(name, g)
+		term, rsc := sc.find(t)
+		unleveled, level := unlevel(name, sc.g)
 		if node := b.pull(unleveled, ctrs[name]); node != nil {
 			if level > 0 {
 				node = expandNode(node, unleveled)
@@ -96,7 +96,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 			// }
 			switch node := node.(type) {
 			case Branch:
-				return relabelNode(string(t), node.toParserNode(g, term, childCtrs))
+				return relabelNode(string(t), node.toParserNode(rsc, term, childCtrs))
 			case Leaf:
 				return parser.Scanner(node)
 			default:
@@ -105,15 +105,11 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		}
 		return nil
 	case parser.ScopedGrammar:
-		gcopy := g
-		for rule, terms := range t.Grammar {
-			gcopy[rule] = terms
-		}
-		return b.toParserNode(gcopy, t.Term, ctrs)
+		return b.toParserNode(newScope(t.Grammar, sc), t.Term, ctrs)
 	case parser.Seq:
 		result := parser.Node{Tag: seqTag}
 		for _, child := range t {
-			if node := b.toParserNode(g, child, ctrs); node != nil {
+			if node := b.toParserNode(sc, child, ctrs); node != nil {
 				result.Children = append(result.Children, node)
 			} else {
 				return nil
@@ -126,7 +122,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 			return parser.Node{
 				Tag:      oneofTag,
 				Extra:    extra,
-				Children: []parser.TreeElement{b.toParserNode(g, t[extra], ctrs)},
+				Children: []parser.TreeElement{b.toParserNode(sc, t[extra], ctrs)},
 			}
 		}
 		return nil
@@ -138,7 +134,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		terms := [2]parser.Term{t.Term, t.Sep}
 		i := 0
 		for ; ; i++ {
-			if child := b.toParserNode(g, terms[i%2], ctrs); child != nil {
+			if child := b.toParserNode(sc, terms[i%2], ctrs); child != nil {
 				v.Children = append(v.Children, child)
 			} else {
 				break
@@ -151,7 +147,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 	case parser.Quant:
 		result := parser.Node{Tag: quantTag}
 		for i := 0; !t.MaxLessThan(i); i++ {
-			if v := b.toParserNode(g, t.Term, ctrs); v != nil {
+			if v := b.toParserNode(sc, t.Term, ctrs); v != nil {
 				result.Children = append(result.Children, v)
 			} else {
 				break
@@ -169,7 +165,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 			// }
 			switch node := node.(type) {
 			case Branch:
-				return relabelNode(t.Name, node.toParserNode(g, t.Term, childCtrs))
+				return relabelNode(t.Name, node.toParserNode(sc, t.Term, childCtrs))
 			case Leaf:
 				return parser.Scanner(node)
 			default:
@@ -178,9 +174,9 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		}
 		return nil
 	case parser.CutPoint:
-		return b.toParserNode(g, t.Term, ctrs)
+		return b.toParserNode(sc, t.Term, ctrs)
 	case parser.LookAhead:
-		return b.toParserNode(g, t.Term, ctrs)
+		return b.toParserNode(sc, t.Term, ctrs)
 	default:
 		panic(fmt.Errorf("branch.toParserNode: unexpected term type: %v %[1]T", t))
 	}
diff --git a/parser/parser.go b/parser/parser.go
index 189c8eb..c6d18ab 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -78,6 +78,19 @@ func (g Grammar) clone() Grammar {
 	return clone
 }
 
+// ResolveStacks returns a grammar in which every layer of a precedence stack is
+// a rule of its own.
+func (g Grammar) ResolveStacks() Grammar {
+	for _, term := range g {
+		if _, ok := term.(Stack); ok {
+			g = g.clone()
+			g.resolveStacks()
+			break
+		}
+	}
+	return g
+}
+
 func (g Grammar) resolveStacks() {
 	for rule, term := range g {
 		if stack, ok := term.(Stack); ok {
@@ -97,14 +110,7 @@ func (g Grammar) resolveStacks() {
 // Compile prepares a grammar for parsing. The parser holds a copy of the
 // grammar modified to support parser execution.
 func (g Grammar) Compile(node any) Parsers {
-	for _, term := range g {
-		if _, ok := term.(Stack); ok {
-			g = g.clone()
-			g.resolveStacks()
-			break
-		}
-	}
-
+	g = g.ResolveStacks()
 	c := cache{
 		parsers:    map[Rule]Parser{},
 		grammar:    g,
@@ -830,13 +836,7 @@ func (t ExtRef) AsTerm() Term { return t }
 //-----------------------------------------------------------------------------
 
 func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
-	for _, term := range t.Grammar {
-		if _, ok := term.(Stack); ok {
-			t.Grammar = t.Grammar.clone()
-			t.Grammar.resolveStacks()
-			break
-		}
-	}
+	t.Grammar = t.Grammar.ResolveStacks()
 	if wrap, has := c.grammar[WrapRE]; has {
 		if _, has := t.Grammar[WrapRE]; !has {
 			t.Grammar[WrapRE] = wrap
-- 
2.43.0


From 6025087ea22ab694e429a2b5eea54b2738a44ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:52 +0000
Subject: [PATCH 32/65] fix: ASTs of stacks whose rule is referred to at
 several levels

---
 ast/counter.go         | 3 ++-
 ast/from_parsernode.go | 2 +-
 ast/node.go            | 2 +-
 ast/to_parsernode.go   | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ast/counter.go b/ast/counter.go
index 3bb31a0..6a0e914 100644
--- a/ast/counter.go
+++ b/ast/counter.go
@@ -99,7 +99,8 @@ func (ctrs counters) termCountChildren(term parser.Term, parent counter) {
 	case parser.S, parser.RE:
 		ctrs.count("", parent)
 	case parser.Rule:
-		ctrs.count(string(t), parent)
+		unleveled, _ := unlevel(string(t), nil)
+		ctrs.count(unleveled, parent)
 	case parser.Seq:
 		for _, child := range t {
 			ctrs.termCountChildren(child, parent)
diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index 5107ca8..12ed21e 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -133,7 +133,7 @@ func (b Branch) fromParserNode(sc *scope, term parser.Term, ctrs counters, e par
 		// 	// TODO: zeroOrOne
 		// }
 		node = node.collapse(level)
-		b.add(unleveled, node, ctrs[string(t)])
+		b.add(unleveled, node, ctrs[unleveled])
 	case parser.ScopedGrammar:
 		b.fromParserNode(newScope(t.Grammar, sc), t.Term, ctrs, e)
 	case parser.Seq:
diff --git a/ast/node.go b/ast/node.go
index 08e8ce6..e2c0ce4 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -104,7 +104,7 @@ func (e Extra) collapse(level int) Node {
 	return e
 }
 
-var stackLevelRE = regexp.MustCompile(`^(\w+)@(\d+)$`)
+var stackLevelRE = regexp.MustCompile(`^(.+)@(\d+)$`)
 
 // scope is a grammar together with the grammars around it.
 type scope struct {
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index edbd166..82acca0 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -86,7 +86,7 @@ func (b Branch) toParserNode(sc *scope, term parser.Term, ctrs counters) (out pa
 		name := string(t)
 		term, rsc := sc.find(t)
 		unleveled, level := unlevel(name, sc.g)
-		if node := b.pull(unleveled, ctrs[name]); node != nil {
+		if node := b.pull(unleveled, ctrs[unleveled]); node != nil {
 			if level > 0 {
 				node = expandNode(node, unleveled)
 			}
-- 
2.43.0


From 05e39904514f72d20fd4eafedbd9ec6ea3d5c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:54 +0000
Subject: [PATCH 33/65] fix: ASTs of associative repetitions of several
 elements

---
 ast/counter.go         |  3 ++
 ast/from_parsernode.go | 86 ++++++++++++++++++++++++++++++++----------
 parser/terms.go        |  6 +--
 3 files changed, 73 insertions(+), 22 deletions(-)

diff --git a/ast/counter.go b/ast/counter.go
index 6a0e914..3ba2d93 100644
--- a/ast/counter.go
+++ b/ast/counter.go
@@ -112,6 +112,9 @@ func (ctrs counters) termCountChildren(term parser.Term, parent counter) {
 		}
 		ctrs.mul(ds, parent)
 	case parser.Delim:
+		if t.Assoc != parser.NonAssociative {
+			ctrs.count(delimTag, parent.mul(zeroOrOne))
+		}
 		ctrs.termCountChildren(t.Term, parent.mul(oneOrMore))
 		ctrs.termCountChildren(t.Sep, parent.mul(zeroOrMore))
 	case parser.Quant:
diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index 12ed21e..a6a50c2 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -24,12 +24,13 @@ func FromParserNode(g parser.Grammar, e parser.TreeElement) Branch {
 		result.one("", Leaf(s))
 		return result
 	}
-	rule := parser.NodeRule(e.(parser.Node))
+	node := e.(parser.Node)
+	rule := parser.NodeRule(node)
 	term := g[rule]
 	result := Branch{}
 	result.one("@rule", Extra{rule})
 	ctrs := newCounters(term)
-	result.fromParserNode(newScope(g, nil), term, ctrs, e)
+	result.fromParserNode(newScope(g, nil), term, ctrs, unrooted(g, rule, node))
 	return result.collapse(0).(Branch)
 }
 
@@ -116,8 +117,7 @@ func (b Branch) many(name string, node Node) {
 }
 
 func (b Branch) fromParserNode(sc *scope, term parser.Term, ctrs counters, e parser.TreeElement) {
-	var tag string
-	// defer enterf("fromParserNode(term=%T(%[1]v), ctrs=%v, v=%v)", term, ctrs, e).exitf("tag=%q, n=%v", &tag, &n)
+	// defer enterf("fromParserNode(term=%T(%[1]v), ctrs=%v, v=%v)", term, ctrs, e).exitf("n=%v", &n)
 	switch t := term.(type) {
 	case parser.S, parser.RE:
 		b.add("", Leaf(e.(parser.Scanner)), ctrs[""])
@@ -147,26 +147,20 @@ func (b Branch) fromParserNode(sc *scope, term parser.Term, ctrs counters, e par
 		b.fromParserNode(sc, t[node.Extra.(parser.Choice)], ctrs, node.Children[0])
 	case parser.Delim:
 		node := e.(parser.Node)
-		tag = node.Tag
-		tgen := t.LRTerms(node)
+		terms := [2]parser.Term{t.Term, t.Sep}
 		for i, child := range node.Children {
-			lrTerm := tgen.Next()
 			if _, ok := child.(parser.Empty); ok {
 				b.many("@empty", Extra{map[bool]string{true: "@prefix", false: "@suffix"}[i == 0]})
-			} else {
-				if lrTerm == t {
-					if _, ok := child.(parser.Node); ok {
-						childCtrs := newCounters(lrTerm)
-						b2 := Branch{}
-						childCtrs.termCountChildren(t, ctrs[""])
-						b2.fromParserNode(sc, lrTerm, childCtrs, child)
-						b.one(tag, b2)
-					} else {
-						b.fromParserNode(sc, t.Term, ctrs, child)
-					}
+			} else if isChain(t, node, i) {
+				b2 := Branch{}
+				b2.fromParserNode(sc, t, newCounters(t), child)
+				if ctr, has := ctrs[node.Tag]; has {
+					b.add(node.Tag, b2, ctr)
 				} else {
-					b.fromParserNode(sc, lrTerm, ctrs, child)
+					b.one(node.Tag, b2)
 				}
+			} else {
+				b.fromParserNode(sc, terms[i%2], ctrs, child)
 			}
 		}
 	case parser.Quant:
@@ -213,3 +207,57 @@ func (b Branch) fromParserNode(sc *scope, term parser.Term, ctrs counters, e par
 		panic(fmt.Errorf("branch.fromParserNode: unexpected term type: %v %[1]T", t))
 	}
 }
+
+// unrooted returns the tree of a rule that reduces to an associative term with
+// the name that the rest of the chain has.
+func unrooted(g parser.Grammar, rule parser.Rule, node parser.Node) parser.Node {
+	i := 0
+	switch node.Extra {
+	case parser.RightToLeft:
+		i = 2
+	case parser.LeftToRight:
+	default:
+		return node
+	}
+	if child, ok := node.Children[i].(parser.Node); ok && child.Extra == node.Extra && g.ReducesTo(rule, child.Tag) {
+		node.Tag = child.Tag
+	}
+	return node
+}
+
+// isChain tells whether the i'th child of an associative node is the rest of
+// the chain, as opposed to an element of it.
+func isChain(t parser.Delim, node parser.Node, i int) bool {
+	assoc, ok := node.Extra.(parser.Associativity)
+	if !ok || assoc == parser.NonAssociative || (assoc < 0) != (i == 2) || i%2 == 1 {
+		return false
+	}
+	same := func(e parser.TreeElement, assoc parser.Extra) bool {
+		n, ok := e.(parser.Node)
+		return ok && n.Tag == node.Tag && n.Extra == assoc
+	}
+	child := node.Children[i]
+	if !same(child, assoc) {
+		return false
+	}
+	if node.Tag == delimTag && delimAssoc(t.Term) == assoc {
+		// The elements look the same. In the rest of the chain the other
+		// operand is such an element, too.
+		other := child.(parser.Node).Children[2-i]
+		return same(other, assoc) || same(other, parser.NonAssociative)
+	}
+	return true
+}
+
+// delimAssoc returns the associativity of a term that is a delimited repetition.
+func delimAssoc(t parser.Term) parser.Associativity {
+	switch t := t.(type) {
+	case parser.Delim:
+		return t.Assoc
+	case parser.CutPoint:
+		return delimAssoc(t.Term)
+	case parser.ScopedGrammar:
+		return delimAssoc(t.Term)
+	}
+	return parser.NonAssociative
+}
diff --git a/parser/terms.go b/parser/terms.go
index 030e603..914a43e 100644
--- a/parser/terms.go
+++ b/parser/terms.go
@@ -23,10 +23,10 @@ func (g Grammar) Unparse(e TreeElement, w io.Writer) (n int, err error) {
 	return g[rule].Unparse(g, e, w)
 }
 
-// reducesTo tells whether the production of a rule is, names and scoped
+// ReducesTo tells whether the production of a rule is, names and scoped
 // grammars aside, the term or rule of the given name. The tree of such a rule
 // would otherwise not tell which rule it is the tree of.
-func (g Grammar) reducesTo(rule Rule, name string) bool {
+func (g Grammar) ReducesTo(rule Rule, name string) bool {
 	scopes := []Grammar{g}
 	seen := map[Rule]bool{rule: true}
 	for term := g[rule]; ; {
@@ -96,7 +96,7 @@ func (p Parsers) ParseWithExternals(rule Rule, input *Scanner, exts ExternalRefs
 	if err := p.parsers[rule].Parse(scope, input, &e, nil); err != nil {
 		return nil, err
 	}
-	if node, ok := e.(Node); ok && p.grammar.reducesTo(rule, node.Tag) {
+	if node, ok := e.(Node); ok && p.grammar.ReducesTo(rule, node.Tag) {
 		node.Tag = string(rule)
 		e = node
 	}
-- 
2.43.0


From 833645886261249b8034f7c5808e82db5a91cfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:11 +0000
Subject: [PATCH 34/65] fix: scanner of a list in which some nodes are without
 text

---
 ast/node_string.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ast/node_string.go b/ast/node_string.go
index bd19985..56590a7 100644
--- a/ast/node_string.go
+++ b/ast/node_string.go
@@ -117,7 +117,9 @@ func (c One) Scanner() parser.Scanner {
 func (c Many) Scanner() parser.Scanner {
 	childrenScanners := make([]parser.Scanner, 0, len(c))
 	for _, n := range c {
-		childrenScanners = append(childrenScanners, n.Scanner())
+		if s := n.Scanner(); !s.IsNil() {
+			childrenScanners = append(childrenScanners, s)
+		}
 	}
 
 	if len(childrenScanners) > 0 {
-- 
2.43.0


From f53e67fb0a27407ac46c0e514de33508eebd5eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:00 +0000
Subject: [PATCH 35/65] fix: parse trees rebuilt from ASTs with lookaheads,
 back-references and repetitions

---
 ast/node.go          |   2 +
 ast/to_parsernode.go | 120 +++++++++++++++++++++++++++++++++++++------
 2 files changed, 106 insertions(+), 16 deletions(-)

diff --git a/ast/node.go b/ast/node.go
index e2c0ce4..5eb02e7 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -16,6 +16,8 @@ const (
 	delimTag = ":"
 	quantTag = "?"
 
+	lookaheadTag = "?="
+
 	RuleTag   = "@rule"
 	ChoiceTag = "@choice"
 	SkipTag   = "@skip"
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 82acca0..d663ea0 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -8,6 +8,10 @@ import (
 )
 
 func ToParserNode(g parser.Grammar, branch Branch) parser.TreeElement {
+	if leaf := branch.One(""); leaf != nil && len(branch) == 1 {
+		// A rule that is a single terminal, see FromParserNode.
+		return parser.Scanner(leaf.(Leaf))
+	}
 	branch = branch.clone().(Branch)
 	rule := branch.pullFromOne(RuleTag).(Extra).Data.(parser.Rule)
 	term := g[rule]
@@ -74,6 +78,45 @@ func (b Branch) pullFromMany(name string) Node {
 	return nil
 }
 
+// pullEmpty pulls the mark of a leading or trailing separator, if it's next.
+func (b Branch) pullEmpty(mark string) bool {
+	if marks := b.Many("@empty"); len(marks) > 0 && marks[0] == (Extra{Data: mark}) {
+		b.pullFromMany("@empty")
+		return true
+	}
+	return false
+}
+
+// copy copies the branch but not its nodes.
+func (b Branch) copy() Branch {
+	result := make(Branch, len(b))
+	for name, children := range b {
+		result[name] = children
+	}
+	return result
+}
+
+// restore gives back what has been pulled since the branch was copied.
+func (b Branch) restore(saved Branch) {
+	for name, children := range saved {
+		b[name] = children
+	}
+}
+
+// size returns the number of nodes that haven't been pulled.
+func (b Branch) size() int {
+	n := 0
+	for _, children := range b {
+		switch children := children.(type) {
+		case One:
+			n++
+		case Many:
+			n += len(children)
+		}
+	}
+	return n
+}
+
 func (b Branch) toParserNode(sc *scope, term parser.Term, ctrs counters) (out parser.TreeElement) {
 	// defer enterf("%v.toParserNode(sc, term=%T(%[2]v), ctrs=%v)", n, term, ctrs).exitf("%v", &out)
 	switch t := term.(type) {
@@ -96,7 +139,7 @@ func (b Branch) toParserNode(sc *scope, term parser.Term, ctrs counters) (out pa
 			// }
 			switch node := node.(type) {
 			case Branch:
-				return relabelNode(string(t), node.toParserNode(rsc, term, childCtrs))
+				return relabelNode(string(t), node.copy().toParserNode(rsc, term, childCtrs))
 			case Leaf:
 				return parser.Scanner(node)
 			default:
@@ -119,10 +162,16 @@ func (b Branch) toParserNode(sc *scope, term parser.Term, ctrs counters) (out pa
 	case parser.Oneof:
 		if choice := b.pullFromMany(ChoiceTag); choice != nil {
 			extra := choice.(Extra).Data.(parser.Choice)
-			return parser.Node{
-				Tag:      oneofTag,
-				Extra:    extra,
-				Children: []parser.TreeElement{b.toParserNode(sc, t[extra], ctrs)},
+			if int(extra) >= len(t) {
+				// It belongs to what follows.
+				return nil
+			}
+			if child := b.toParserNode(sc, t[extra], ctrs); child != nil {
+				return parser.Node{
+					Tag:      oneofTag,
+					Extra:    extra,
+					Children: []parser.TreeElement{child},
+				}
 			}
 		}
 		return nil
@@ -133,28 +182,59 @@ func (b Branch) toParserNode(sc *scope, term parser.Term, ctrs counters) (out pa
 		}
 		terms := [2]parser.Term{t.Term, t.Sep}
 		i := 0
+		if t.CanStartWithSep && b.pullEmpty("@prefix") {
+			v.Children = append(v.Children, parser.Empty{})
+			i++
+		}
+		var beforeSep Branch
 		for ; ; i++ {
-			if child := b.toParserNode(sc, terms[i%2], ctrs); child != nil {
-				v.Children = append(v.Children, child)
-			} else {
+			before := b.copy()
+			child := b.toParserNode(sc, terms[i%2], ctrs)
+			if child == nil {
+				b.restore(before)
+				break
+			}
+			if i%2 == 1 {
+				beforeSep = before
+			} else if beforeSep != nil && b.size() == beforeSep.size() {
+				// As in parsing, no progress ends the repetition.
 				break
 			}
+			v.Children = append(v.Children, child)
 		}
 		if i%2 == 0 {
-			panic(errors.Inconceivable)
+			// A separator without a term after it.
+			switch {
+			case i == 0:
+				return nil
+			case t.CanEndWithSep && b.pullEmpty("@suffix"):
+				v.Children = append(v.Children, parser.Empty{})
+			default:
+				// It belongs to what follows.
+				v.Children = v.Children[:i-1]
+				b.restore(beforeSep)
+			}
 		}
 		return v
 	case parser.Quant:
 		result := parser.Node{Tag: quantTag}
-		for i := 0; !t.MaxLessThan(i); i++ {
-			if v := b.toParserNode(sc, t.Term, ctrs); v != nil {
-				result.Children = append(result.Children, v)
-			} else {
+		for size := b.size(); t.Max == 0 || len(result.Children) < t.Max; {
+			saved := b.copy()
+			v := b.toParserNode(sc, t.Term, ctrs)
+			if v == nil {
+				b.restore(saved)
+				break
+			}
+			next := b.size()
+			if next == size && len(result.Children) >= t.Min {
+				// As in parsing, no progress ends the repetition.
 				break
 			}
+			size = next
+			result.Children = append(result.Children, v)
 		}
 		if !t.Contains(len(result.Children)) {
-			panic(errors.Inconceivable)
+			return nil
 		}
 		return result
 	case parser.Named:
@@ -165,7 +245,7 @@ func (b Branch) toParserNode(sc *scope, term parser.Term, ctrs counters) (out pa
 			// }
 			switch node := node.(type) {
 			case Branch:
-				return relabelNode(t.Name, node.toParserNode(sc, t.Term, childCtrs))
+				return relabelNode(t.Name, node.copy().toParserNode(sc, t.Term, childCtrs))
 			case Leaf:
 				return parser.Scanner(node)
 			default:
@@ -176,7 +256,15 @@ func (b Branch) toParserNode(sc *scope, term parser.Term, ctrs counters) (out pa
 	case parser.CutPoint:
 		return b.toParserNode(sc, t.Term, ctrs)
 	case parser.LookAhead:
-		return b.toParserNode(sc, t.Term, ctrs)
+		if node := b.toParserNode(sc, t.Term, ctrs); node != nil {
+			return parser.Node{Tag: lookaheadTag, Children: []parser.TreeElement{node}}
+		}
+		return nil
+	case parser.REF:
+		if leaf, ok := b.pull(t.Ident, ctrs[t.Ident]).(Leaf); ok {
+			return parser.Scanner(leaf)
+		}
+		return nil
 	default:
 		panic(fmt.Errorf("branch.toParserNode: unexpected term type: %v %[1]T", t))
 	}
-- 
2.43.0


From 9221a782ab451eb5e913b9f5ba07c502929f4f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:30 +0000
Subject: [PATCH 36/65] fix: tags of parse trees rebuilt from ASTs

---
 ast/to_parsernode.go | 53 +++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index d663ea0..44c0e4b 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -17,7 +17,7 @@ func ToParserNode(g parser.Grammar, branch Branch) parser.TreeElement {
 	term := g[rule]
 	ctrs := newCounters(term)
 	branch = expandNode(branch, string(rule)).(Branch)
-	return relabelNode(string(rule), branch.toParserNode(newScope(g, nil), term, ctrs))
+	return relabelNode(string(rule), branch.toParserNode(newScope(g, nil), term, ctrs, string(rule)))
 }
 
 func relabelNode(name string, e parser.TreeElement) parser.TreeElement {
@@ -28,6 +28,22 @@ func relabelNode(name string, e parser.TreeElement) parser.TreeElement {
 	return e
 }
 
+func tagOr(tag, alt string) string {
+	if tag == "" {
+		return alt
+	}
+	return tag
+}
+
+// termTag returns the tag of a term's root: references bear the name of the
+// rule they refer to.
+func termTag(term parser.Term, tag string) string {
+	if _, ok := term.(parser.Rule); ok {
+		return ""
+	}
+	return tag
+}
+
 func expandNode(n Node, name string) Node {
 	return n
 	// switch n := n.(type) {
@@ -117,7 +133,9 @@ func (b Branch) size() int {
 	return n
 }
 
-func (b Branch) toParserNode(sc *scope, term parser.Term, ctrs counters) (out parser.TreeElement) {
+// toParserNode rebuilds the tree of a term. Its root gets the given tag unless
+// that is empty or the term has a tag of its own.
+func (b Branch) toParserNode(sc *scope, term parser.Term, ctrs counters, tag string) (out parser.TreeElement) {
 	// defer enterf("%v.toParserNode(sc, term=%T(%[2]v), ctrs=%v)", n, term, ctrs).exitf("%v", &out)
 	switch t := term.(type) {
 	case parser.S, parser.RE:
@@ -139,7 +157,10 @@ func (b Branch) toParserNode(sc *scope, term parser.Term, ctrs counters) (out pa
 			// }
 			switch node := node.(type) {
 			case Branch:
-				return relabelNode(string(t), node.copy().toParserNode(rsc, term, childCtrs))
+				if tag == "" || rsc != sc {
+					tag = name
+				}
+				return node.copy().toParserNode(rsc, term, childCtrs, tag)
 			case Leaf:
 				return parser.Scanner(node)
 			default:
@@ -148,11 +169,11 @@ func (b Branch) toParserNode(sc *scope, term parser.Term, ctrs counters) (out pa
 		}
 		return nil
 	case parser.ScopedGrammar:
-		return b.toParserNode(newScope(t.Grammar, sc), t.Term, ctrs)
+		return b.toParserNode(newScope(t.Grammar, sc), t.Term, ctrs, termTag(t.Term, tag))
 	case parser.Seq:
-		result := parser.Node{Tag: seqTag}
+		result := parser.Node{Tag: tagOr(tag, seqTag)}
 		for _, child := range t {
-			if node := b.toParserNode(sc, child, ctrs); node != nil {
+			if node := b.toParserNode(sc, child, ctrs, ""); node != nil {
 				result.Children = append(result.Children, node)
 			} else {
 				return nil
@@ -166,9 +187,9 @@ func (b Branch) toParserNode(sc *scope, term parser.Term, ctrs counters) (out pa
 				// It belongs to what follows.
 				return nil
 			}
-			if child := b.toParserNode(sc, t[extra], ctrs); child != nil {
+			if child := b.toParserNode(sc, t[extra], ctrs, ""); child != nil {
 				return parser.Node{
-					Tag:      oneofTag,
+					Tag:      tagOr(tag, oneofTag),
 					Extra:    extra,
 					Children: []parser.TreeElement{child},
 				}
@@ -177,7 +198,7 @@ func (b Branch) toParserNode(sc *scope, term parser.Term, ctrs counters) (out pa
 		return nil
 	case parser.Delim:
 		v := parser.Node{
-			Tag:   delimTag,
+			Tag:   tagOr(tag, delimTag),
 			Extra: parser.NonAssociative,
 		}
 		terms := [2]parser.Term{t.Term, t.Sep}
@@ -189,7 +210,7 @@ func (b Branch) toParserNode(sc *scope, term parser.Term, ctrs counters) (out pa
 		var beforeSep Branch
 		for ; ; i++ {
 			before := b.copy()
-			child := b.toParserNode(sc, terms[i%2], ctrs)
+			child := b.toParserNode(sc, terms[i%2], ctrs, "")
 			if child == nil {
 				b.restore(before)
 				break
@@ -217,10 +238,10 @@ func (b Branch) toParserNode(sc *scope, term parser.Term, ctrs counters) (out pa
 		}
 		return v
 	case parser.Quant:
-		result := parser.Node{Tag: quantTag}
+		result := parser.Node{Tag: tagOr(tag, quantTag)}
 		for size := b.size(); t.Max == 0 || len(result.Children) < t.Max; {
 			saved := b.copy()
-			v := b.toParserNode(sc, t.Term, ctrs)
+			v := b.toParserNode(sc, t.Term, ctrs, "")
 			if v == nil {
 				b.restore(saved)
 				break
@@ -245,7 +266,7 @@ func (b Branch) toParserNode(sc *scope, term parser.Term, ctrs counters) (out pa
 			// }
 			switch node := node.(type) {
 			case Branch:
-				return relabelNode(t.Name, node.copy().toParserNode(sc, t.Term, childCtrs))
+				return node.copy().toParserNode(sc, t.Term, childCtrs, termTag(t.Term, t.Name))
 			case Leaf:
 				return parser.Scanner(node)
 			default:
@@ -254,10 +275,10 @@ func (b Branch) toParserNode(sc *scope, term parser.Term, ctrs counters) (out pa
 		}
 		return nil
 	case parser.CutPoint:
-		return b.toParserNode(sc, t.Term, ctrs)
+		return b.toParserNode(sc, t.Term, ctrs, termTag(t.Term, tag))
 	case parser.LookAhead:
-		if node := b.toParserNode(sc, t.Term, ctrs); node != nil {
-			return parser.Node{Tag: lookaheadTag, Children: []parser.TreeElement{node}}
+		if node := b.toParserNode(sc, t.Term, ctrs, ""); node != nil {
+			return parser.Node{Tag: tagOr(tag, lookaheadTag), Children: []parser.TreeElement{node}}
 		}
 		return nil
 	case parser.REF:
-- 
2.43.0


From b72bf1cca87a7038ecfb968e480eb36f9a6ee6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 37/65] fix: scanners whose source was stripped

---
 parser/scanner.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/parser/scanner.go b/parser/scanner.go
index 3707742..c6f0a7f 100644
--- a/parser/scanner.go
+++ b/parser/scanner.go
@@ -217,7 +217,7 @@ func (s *Scanner) EatRegexp(re *regexp.Regexp, match *Scanner, captures []Scanne
 
 func (s stringSource) stripSource(offset, size int) source {
 	s.origin = s.slice(offset, size)
-	return s
+	return strippedSource{s, offset}
 }
 
 func (s stringSource) length() int {
@@ -236,9 +236,44 @@ func (s stringSource) filename() string {
 	return s.f
 }
 
+// - strippedSource
+
+// strippedSource holds the part of a source that starts at the given offset.
+type strippedSource struct {
+	stringSource
+	offset int
+}
+
+func (s strippedSource) stripSource(offset, size int) source {
+	s.origin = s.slice(offset, size)
+	s.offset = offset
+	return s
+}
+
+func (s strippedSource) length() int {
+	return s.offset + len(s.origin)
+}
+
+func (s strippedSource) slice(i, length int) string {
+	from, to := i-s.offset, i-s.offset+length
+	if to < 0 || from > len(s.origin) {
+		return ""
+	}
+	if from < 0 {
+		from = 0
+	}
+	if to > len(s.origin) {
+		to = len(s.origin)
+	}
+	return s.origin[from:to]
+}
+
 // The 1-indexed line and column number of the given position within the given string.
 func lineColumn(str string, pos int) (line, col int) {
-	prefix := str[:pos]
+	prefix := str
+	if pos < len(str) {
+		prefix = str[:pos]
+	}
 	line = strings.Count(prefix, "\n") + 1
 	col = pos - strings.LastIndex(prefix, "\n")
 	return
-- 
2.43.0


From 681b76a7394c9605b242709065733dd22f586678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:02 +0000
Subject: [PATCH 38/65] fix: writing out the scanner of nothing

---
 parser/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/scanner.go b/parser/scanner.go
index c6f0a7f..08e0b35 100644
--- a/parser/scanner.go
+++ b/parser/scanner.go
@@ -62,9 +62,9 @@ func (s Scanner) IsNil() bool {
 
 func (s Scanner) Format(state fmt.State, c rune) {
 	if c == 'q' {
-		_, _ = fmt.Fprintf(state, "%q", s.slice())
+		_, _ = fmt.Fprintf(state, "%q", s.String())
 	} else {
-		_, _ = state.Write([]byte(s.slice()))
+		_, _ = state.Write([]byte(s.String()))
 	}
 }
 
-- 
2.43.0


From 2bf618805ad92a2a6e32f4e3d5f0cd4ed05da174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:09 +0000
Subject: [PATCH 39/65] fix: parse errors report the text at which a terminal
 was tried

---
 parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index c6d18ab..7403531 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -279,9 +279,10 @@ func (p *sParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *c
 		return err
 	}
 	if ok := p.eat(input, output); !ok {
+		at := *input // input may have moved on when the error is reported
 		return newParseError(p.rule, "")(scope.GetCutPoint(),
 			func() error { return fmt.Errorf("expect: %s", NewScanner(p.t.String()).Context(DefaultLimit)) },
-			func() error { return fmt.Errorf("actual: %s", getErrorStrings(input)) },
+			func() error { return fmt.Errorf("actual: %s", getErrorStrings(&at)) },
 			func() error { return stk },
 		)
 	}
@@ -326,9 +327,10 @@ func (p *reParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *
 		return err
 	}
 	if ok := eatRegexp(input, p.re, output); !ok {
+		at := *input // input may have moved on when the error is reported
 		return newParseError(p.rule, "")(scope.GetCutPoint(),
 			func() error { return fmt.Errorf("expect: %s", NewScanner(p.re.String()).Context(DefaultLimit)) },
-			func() error { return fmt.Errorf("actual: %s", getErrorStrings(input)) },
+			func() error { return fmt.Errorf("actual: %s", getErrorStrings(&at)) },
 			func() error { return stk },
 		)
 	}
-- 
2.43.0


From cfe0d1c7e3e4f7906e4875a1762975353cf3f3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:41 +0000
Subject: [PATCH 40/65] fix: parse errors don't show memory addresses

The calls that led to a failure were written with the address of the
next one, so the text of the same error was different every time.
---
 parser/scope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/scope.go b/parser/scope.go
index dfc9ae0..11525af 100644
--- a/parser/scope.go
+++ b/parser/scope.go
@@ -140,7 +140,7 @@ type call struct {
 func (c *call) Error() string {
 	var parts []string
 	for ; c != nil; c = c.next {
-		parts = append(parts, fmt.Sprintf("%+v", *c))
+		parts = append(parts, fmt.Sprintf("{ident:%s term:%+v}", c.ident, c.term))
 	}
 	return strings.Join(parts, "\n")
 }
-- 
2.43.0


From a2ac2197493cbd481140a9a4ee4dc489a871d0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:41 +0000
Subject: [PATCH 41/65] fix: views of ASTs list the parts of a node in a fixed
 order

Parts of the same rank came in the random order in which a map is walked.
---
 ast/treeview.go  | 9 ++++++++-
 gotree/gotree.go | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ast/treeview.go b/ast/treeview.go
index 2b47cb9..424a65a 100644
--- a/ast/treeview.go
+++ b/ast/treeview.go
@@ -1,6 +1,7 @@
 package ast
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/arr-ai/wbnf/gotree"
@@ -33,7 +34,13 @@ func fromAst(name string, node Node, skipAtNodes bool) gotree.Tree {
 
 	switch n := node.(type) {
 	case Branch:
-		for name, val := range n {
+		names := make([]string, 0, len(n))
+		for name := range n {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+		for _, name := range names {
+			val := n[name]
 			if skipAtNodes && strings.HasPrefix(name, "@") {
 				continue
 			}
diff --git a/gotree/gotree.go b/gotree/gotree.go
index 1fdf880..57e0ff4 100644
--- a/gotree/gotree.go
+++ b/gotree/gotree.go
@@ -79,7 +79,7 @@ func (t *tree) Print() string {
 
 // SortItems sorts the items of tree by the determined rank
 func (t *tree) SortItems() {
-	sort.Slice(t.items, func(i, j int) bool {
+	sort.SliceStable(t.items, func(i, j int) bool {
 		return t.items[i].Rank() < t.items[j].Rank()
 	})
 }
-- 
2.43.0


From 6c34b4d5ccaf80186f9a93c49de71322c650a903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:41 +0000
Subject: [PATCH 42/65] fix: reports of differences are in a fixed order

---
 parser/diff/nodes.go | 12 ++++++++----
 parser/diff/terms.go |  7 +++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/parser/diff/nodes.go b/parser/diff/nodes.go
index 3d18f44..6f8b946 100644
--- a/parser/diff/nodes.go
+++ b/parser/diff/nodes.go
@@ -38,11 +38,15 @@ func (d NodeDiff) report(path []string, w io.Writer) {
 	if len(d.A.Children) != len(d.B.Children) {
 		fmt.Fprintf(w, "%slen(Children): %v != %v", prefix, len(d.A.Children), len(d.B.Children))
 	}
-	for i, t := range d.Types {
-		fmt.Fprintf(w, "%sChildren[%d].Type: %v != %v", prefix, i, t[0], t[1])
+	for i := range d.A.Children {
+		if t, has := d.Types[i]; has {
+			fmt.Fprintf(w, "%sChildren[%d].Type: %v != %v", prefix, i, t[0], t[1])
+		}
 	}
-	for i, d := range d.Children {
-		d.report(append(append([]string{}, path...), fmt.Sprintf("%s[%d]", d.A.Tag, i)), w)
+	for i := range d.A.Children {
+		if d, has := d.Children[i]; has {
+			d.report(append(append([]string{}, path...), fmt.Sprintf("%s[%d]", d.A.Tag, i)), w)
+		}
 	}
 }
 
diff --git a/parser/diff/terms.go b/parser/diff/terms.go
index 77d6c12..53e63e1 100644
--- a/parser/diff/terms.go
+++ b/parser/diff/terms.go
@@ -3,6 +3,7 @@ package diff
 import (
 	"fmt"
 	"reflect"
+	"sort"
 
 	"github.com/arr-ai/wbnf/parser"
 )
@@ -38,6 +39,10 @@ func (d GrammarDiff) Equal() bool {
 	return len(d.OnlyInA) == 0 && len(d.OnlyInB) == 0 && len(d.Prods) == 0
 }
 
+func sortRules(rules []parser.Rule) {
+	sort.Slice(rules, func(i, j int) bool { return rules[i] < rules[j] })
+}
+
 func Grammars(a, b parser.Grammar) GrammarDiff {
 	diff := GrammarDiff{
 		Prods: map[parser.Rule]TermDiff{},
@@ -56,6 +61,8 @@ func Grammars(a, b parser.Grammar) GrammarDiff {
 			diff.OnlyInB = append(diff.OnlyInB, rule)
 		}
 	}
+	sortRules(diff.OnlyInA)
+	sortRules(diff.OnlyInB)
 	if diff.Equal() != reflect.DeepEqual(a, b) {
 		panic(fmt.Sprintf(
 			"diff.Equal() == %v != %v == reflect.DeepEqual(a, b): %#v\n%#v\n%#v",
-- 
2.43.0


From cdfafc94e637dc4f7e4600f58a752ff816990ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:42 +0000
Subject: [PATCH 43/65] fix: compiling a grammar leaves its scoped grammars
 alone

The wrapping pattern of the enclosing grammar was put into the scoped
grammar itself, so that the grammar changed when it was compiled, and
compiling it in two goroutines was a data race.
---
 parser/parser.go    |  1 +
 wbnf/wbnfgrammar.go | 17 ++++++++---------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 7403531..14b2660 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -841,6 +841,7 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 	t.Grammar = t.Grammar.ResolveStacks()
 	if wrap, has := c.grammar[WrapRE]; has {
 		if _, has := t.Grammar[WrapRE]; !has {
+			t.Grammar = t.Grammar.clone()
 			t.Grammar[WrapRE] = wrap
 		}
 	}
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index e4a5ce8..602f9d4 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -50,15 +50,14 @@ func Grammar() parser.Parsers {
 			parser.Rule(`atom`)},
 		"pragma": parser.ScopedGrammar{Term: parser.Oneof{parser.Rule(`import`),
 			parser.Rule(`macrodef`)},
-			Grammar: parser.Grammar{".wrapRE": parser.RE(`\s*()\s*`),
-				"import": parser.Seq{parser.CutPoint{parser.S(`.import`)},
-					parser.Eq(`path`,
-						parser.Delim{Term: parser.Oneof{parser.CutPoint{parser.S(`..`)},
-							parser.CutPoint{parser.S(`.`)},
-							parser.RE(`[a-zA-Z0-9.:]+`)},
-							Sep:             parser.S(`/`),
-							CanStartWithSep: true}),
-					parser.Opt(parser.S(`;`))},
+			Grammar: parser.Grammar{"import": parser.Seq{parser.CutPoint{parser.S(`.import`)},
+				parser.Eq(`path`,
+					parser.Delim{Term: parser.Oneof{parser.CutPoint{parser.S(`..`)},
+						parser.CutPoint{parser.S(`.`)},
+						parser.RE(`[a-zA-Z0-9.:]+`)},
+						Sep:             parser.S(`/`),
+						CanStartWithSep: true}),
+				parser.Opt(parser.S(`;`))},
 				"macrodef": parser.Seq{parser.CutPoint{parser.S(`.macro`)},
 					parser.Eq(`name`,
 						parser.Rule(`IDENT`)),
-- 
2.43.0


From db6a7b0364f1b728ff05d3f54d520233d5175c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:48 +0000
Subject: [PATCH 44/65] fix: generating code in several goroutines

The names of types were kept in a map that was written without
synchronisation.
---
 cmd/codegen/types.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index d774694..e987dc3 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -10,8 +10,6 @@ import (
 	"github.com/arr-ai/wbnf/wbnf"
 )
 
-var gotypemap map[string]string
-
 func GoTypeName(rule string) string {
 	return GoName(rule) + "Node"
 }
@@ -20,17 +18,7 @@ func GoName(rule string) string {
 	if strings.HasSuffix(rule, "Node") {
 		return strings.TrimSuffix(rule, "Node")
 	}
-	if gotypemap == nil {
-		gotypemap = map[string]string{}
-	}
-
-	if val, has := gotypemap[rule]; has {
-		return val
-	}
-
-	res := strcase.ToCamel(DropCaps(rule))
-	gotypemap[rule] = res
-	return res
+	return strcase.ToCamel(DropCaps(rule))
 }
 
 func DropCaps(rule string) string {
-- 
2.43.0


From 618373f136a5969048fa419270cd84af22559c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:14 +0000
Subject: [PATCH 45/65] fix: generated code for text that raw strings can't
 hold

---
 cmd/codegen/grammar.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cmd/codegen/grammar.go b/cmd/codegen/grammar.go
index 306942c..26cf5dc 100644
--- a/cmd/codegen/grammar.go
+++ b/cmd/codegen/grammar.go
@@ -3,7 +3,9 @@ package codegen
 import (
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/arr-ai/frozen"
 
@@ -44,9 +46,12 @@ func (g *GoNode) Add(n GoNode) {
 	g.children = append(g.children, n)
 }
 
-func safeString(src string) string {
-	r := strings.NewReplacer("`", "`+\"`\"+`")
-	return r.Replace(src)
+// goString returns a Go expression for a string: a raw string if it can be one.
+func goString(src string) string {
+	if !utf8.ValidString(src) || strings.ContainsAny(src, "\r\x00\ufeff") {
+		return strconv.Quote(src)
+	}
+	return "`" + strings.ReplaceAll(src, "`", "`+\"`\"+`") + "`"
 }
 
 func prefixName(prefix string, node GoNode) GoNode {
@@ -82,7 +87,7 @@ func walkTerm(term parser.Term) GoNode {
 			node.children = append(node.children, walkTerm(t))
 		}
 	case parser.S:
-		node.name = fmt.Sprintf("parser.S(`%s`)", safeString(string(t)))
+		node.name = fmt.Sprintf("parser.S(%s)", goString(string(t)))
 	case parser.Delim:
 		node.name = "parser.Delim"
 		node.scope = squigglyScope
@@ -141,7 +146,7 @@ func walkTerm(term parser.Term) GoNode {
 			node.Add(prefixName("Default: ", walkTerm(t.Default)))
 		}
 	case parser.RE:
-		node = stringNode("parser.RE(`%s`)", safeString(string(t)))
+		node = stringNode("parser.RE(%s)", goString(string(t)))
 	case parser.Rule:
 		if strings.Contains(string(t), parser.StackDelim) {
 			node = stringNode("parser.At")
@@ -153,7 +158,7 @@ func walkTerm(term parser.Term) GoNode {
 		node.scope = squigglyScope
 		node.Add(walkTerm(t.Term))
 	case parser.ExtRef:
-		node = stringNode("parser.ExtRef(`%s`)", safeString(string(t)))
+		node = stringNode("parser.ExtRef(%s)", goString(string(t)))
 	case parser.LookAhead:
 		node.name = "parser.LookAhead"
 		node.scope = squigglyScope
-- 
2.43.0


From 69dffec7a1f363dfb3f24a5abd790fe2e55b4319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:19 +0000
Subject: [PATCH 46/65] fix: generated code for bounded repetitions

---
 cmd/codegen/grammar.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/codegen/grammar.go b/cmd/codegen/grammar.go
index 26cf5dc..7eb5156 100644
--- a/cmd/codegen/grammar.go
+++ b/cmd/codegen/grammar.go
@@ -121,6 +121,7 @@ func walkTerm(term parser.Term) GoNode {
 		} else {
 			node.name = "parser.Quant"
 			node.scope = squigglyScope
+			node.children[0] = prefixName("Term: ", node.children[0])
 			node.Add(stringNode("Min: %d", t.Min))
 			node.Add(stringNode("Max: %d", t.Max))
 		}
-- 
2.43.0


From d955f1a2d51737c76f711246df59578f7c53f54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 47/65] fix: generated types of named rules in scopes

---
 cmd/codegen/typebuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index 4656c70..bc487da 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -175,7 +175,7 @@ func (tm *TypeMap) walkTerm(
 				val = namedRule{
 					name:       t.Name,
 					parent:     parentName,
-					returnType: term.String(),
+					returnType: knownRules.MustGet(term.String()).(string),
 					count:      quant,
 				}
 			}
-- 
2.43.0


From 94d1995c2e25c917228f49692f8214a5b03e588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 48/65] fix: generated code for start rules with unusual names

---
 cmd/gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gen.go b/cmd/gen.go
index 30eae1f..b2b6a04 100644
--- a/cmd/gen.go
+++ b/cmd/gen.go
@@ -65,7 +65,7 @@ func gen(c *cli.Context) error {
 		CommandLine:       strings.Join(os.Args[1:], " "),
 		PackageName:       pkgName,
 		StartRule:         codegen.IdentName(startingRule),
-		StartRuleTypeName: codegen.GoTypeName(startingRule),
+		StartRuleTypeName: codegen.GoTypeName(codegen.GoName(startingRule)),
 		Grammar:           codegen.MakeGrammarString(g.Grammar()),
 		MiddleSection: append(
 			types.Get(),
-- 
2.43.0


From 0603dae54618de37150eb09985b32cdc049e7514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:51 +0000
Subject: [PATCH 49/65] fix: generated types of rules without parts

---
 cmd/codegen/pushtype.go        | 8 ++++++++
 cmd/codegen/typebuilder.go     | 2 ++
 cmd/codegen/walkerinterface.go | 2 +-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/codegen/pushtype.go b/cmd/codegen/pushtype.go
index 469fb4d..657177d 100644
--- a/cmd/codegen/pushtype.go
+++ b/cmd/codegen/pushtype.go
@@ -4,6 +4,14 @@ func (tm *TypeMap) findType(name string) GrammarType {
 	return (*tm)[name]
 }
 
+// needType adds a type without children unless there is a type of that name.
+func (tm *TypeMap) needType(name string) {
+	typeName := GoTypeName(name)
+	if tm.findType(typeName) == nil {
+		(*tm)[typeName] = rule{name: typeName}
+	}
+}
+
 func (tm *TypeMap) pushType(name, parent string, child GrammarType) {
 	if name == "" {
 		tm.createOrAddParent(parent, child)
diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index bc487da..b8934a4 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -46,6 +46,7 @@ func (tm *TypeMap) walkGrammar(prefix string, g parser.Grammar, knownRules froze
 			pushRuleNameForStack(r.String(), typeName, knownRules), rand.Int()) //nolint:gosec
 		// Now we need to check if stack terms were used, if they were we need to ensure that unnamed rule child
 		// was added, otherwise a rule like `f -> foo=@ > BAR;` would not generate a working walker api
+		tm.needType(typeName)
 		newT := tm.findType(GoTypeName(typeName))
 		var needStackAddition bool
 		for _, child := range newT.Children() {
@@ -188,6 +189,7 @@ func (tm *TypeMap) walkTerm(
 			})
 		default:
 			tm.walkTerm(t.Term, childName, quant, knownRules, termID)
+			tm.needType(childName)
 			tm.pushType(childName, parentName, namedRule{
 				name:       t.Name,
 				parent:     parentName,
diff --git a/cmd/codegen/walkerinterface.go b/cmd/codegen/walkerinterface.go
index 30c6ec1..fb62224 100644
--- a/cmd/codegen/walkerinterface.go
+++ b/cmd/codegen/walkerinterface.go
@@ -57,7 +57,7 @@ func (w *VisitorWriter) getTypeWalker(t GrammarType) string {
 		switch child := child.(type) {
 		case namedRule:
 			if r, ok := w.types[GoTypeName(child.returnType)]; ok {
-				if _, ok := r.(basicRule); ok {
+				if len(r.Children()) == 0 {
 					walker += getWalkerFuncs(funcs, false)
 					continue
 				}
-- 
2.43.0


From a82c0b258b98d3c86eff2d5f7699b6cf9556c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 50/65] fix: generated types of stack references below names

---
 cmd/codegen/typebuilder.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index b8934a4..01015cd 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -30,6 +30,18 @@ func pushRuleNameForStack(ident, parentName string, knownRules frozen.Map[string
 	})
 }
 
+// stackRef is the type of a reference to the stack that it is part of. The name
+// is that of the stack unless it was given another one.
+func stackRef(si stackInfo, name, parentName string, quant countManager) GrammarType {
+	if name == "" {
+		name = si.ident
+	}
+	if parentName == si.parentName {
+		return stackBackRef{name: name, parent: parentName}
+	}
+	return namedRule{name: name, parent: parentName, returnType: si.parentName, count: quant}
+}
+
 func mergeGrammarRules(prefix string, g parser.Grammar, knownRules frozen.Map[string, any]) frozen.Map[string, any] {
 	mb := frozen.NewMapBuilder[string, any](len(g))
 	for k := range g {
@@ -88,11 +100,7 @@ func (tm *TypeMap) makeLeafType(
 	switch t := term.(type) {
 	case parser.Rule:
 		if t == parser.At {
-			si := knownRules.MustGet(t.String()).(stackInfo)
-			val = stackBackRef{
-				name:   si.ident,
-				parent: si.parentName,
-			}
+			val = stackRef(knownRules.MustGet(t.String()).(stackInfo), "", parentName, quant)
 		} else {
 			val = namedRule{
 				name:       t.String(),
@@ -167,11 +175,7 @@ func (tm *TypeMap) walkTerm(
 		case parser.Rule:
 			var val GrammarType
 			if term == parser.At {
-				si := knownRules.MustGet(term.String()).(stackInfo)
-				val = stackBackRef{
-					name:   t.Name,
-					parent: si.parentName,
-				}
+				val = stackRef(knownRules.MustGet(term.String()).(stackInfo), t.Name, parentName, quant)
 			} else {
 				val = namedRule{
 					name:       t.Name,
-- 
2.43.0


From 095f6eaf4c9fbf4f07afbe4fc6eb330da1507d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 51/65] fix: generated types of rules with several references
 to one name

---
 cmd/codegen/pushtype.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/codegen/pushtype.go b/cmd/codegen/pushtype.go
index 657177d..33f7ecb 100644
--- a/cmd/codegen/pushtype.go
+++ b/cmd/codegen/pushtype.go
@@ -94,6 +94,10 @@ func checkForDupes(children []GrammarType, next GrammarType) []GrammarType {
 			if _, ok := next.(stackBackRef); ok {
 				return children
 			}
+		case backRef:
+			if _, ok := next.(backRef); ok {
+				return children
+			}
 		case choice:
 			if _, ok := next.(choice); ok {
 				return children
-- 
2.43.0


From 376b311221b2c6db492458496b67b9d9d4c42526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 52/65] fix: stopping generated walkers

---
 cmd/codegen/walkerinterface.go |  12 +-
 wbnf/wbnfgrammar.go            | 340 +++++++++++----------------------
 2 files changed, 113 insertions(+), 239 deletions(-)

diff --git a/cmd/codegen/walkerinterface.go b/cmd/codegen/walkerinterface.go
index fb62224..4a75a1e 100644
--- a/cmd/codegen/walkerinterface.go
+++ b/cmd/codegen/walkerinterface.go
@@ -28,7 +28,8 @@ func (w VisitorWriter) String() string {
 		if len(t.Children()) > 0 {
 			parts = append(parts, fmt.Sprintf("\tcase %s: return w.Walk%s(node)\n", typeName, typeName))
 		} else {
-			parts = append(parts, fmt.Sprintf("\tcase %s: if fn := w.Enter%s; fn != nil { return fn(node) }\n",
+			parts = append(parts, fmt.Sprintf(
+				"\tcase %s: if fn := w.Enter%s; fn != nil { if s := fn(node); s != nil && s.Abort() { return s } }\n",
 				typeName, typeName))
 		}
 	}
@@ -50,7 +51,7 @@ func (w *VisitorWriter) getTypeWalker(t GrammarType) string {
 	repl := strings.NewReplacer("{{.CtxName}}", GoTypeName(t.TypeName()), `\n`, "\n")
 	walker := repl.Replace(`func (w WalkerOps) Walk{{.CtxName}}(node {{.CtxName}}) Stopper {
 	if fn := w.Enter{{.CtxName}}; fn != nil { 
-		if s := fn(node); s != nil { if s.ExitNode() { return nil } else if s.Abort() { return s} }\n}\n`)
+		if s := fn(node); s != nil { if s.Abort() { return s } else if s.ExitNode() { return nil } }\n}\n`)
 
 	for _, child := range t.Children() {
 		funcs := child.CallbackData()
@@ -90,13 +91,10 @@ func getWalkerFuncs(funcs *callbackData, isWalker bool) string {
 		walker += fmt.Sprintf("if child := node.One%s(); child != nil { child := *child\n", funcs.getter)
 	}
 	if isWalker {
-		walker += fmt.Sprintf(`if s := w.Walk%s(child); s != nil { 
-			if s.ExitNode() { return nil } else if s.Abort() { return s} } }`+"\n", funcs.walker)
+		walker += fmt.Sprintf(`if s := w.Walk%s(child); s != nil { return s } }`+"\n", funcs.walker)
 	} else {
 		walker += fmt.Sprintf(`if fn := w.Enter%s; fn != nil { 
-			if s := fn(child); s != nil { 
-				if s.ExitNode() { return nil } else if s.Abort() { return s} } 
-			}
+			if s := fn(child); s != nil && s.Abort() { return s } }
 		}`+"\n", funcs.walker)
 	}
 	return walker
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index 602f9d4..53523b2 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -747,7 +747,9 @@ func (w WalkerOps) Walk(tree IsWalkableType) Stopper {
 
 	case CommentNode:
 		if fn := w.EnterCommentNode; fn != nil {
-			return fn(node)
+			if s := fn(node); s != nil && s.Abort() {
+				return s
+			}
 		}
 
 	case GrammarNode:
@@ -755,12 +757,16 @@ func (w WalkerOps) Walk(tree IsWalkableType) Stopper {
 
 	case IdentNode:
 		if fn := w.EnterIdentNode; fn != nil {
-			return fn(node)
+			if s := fn(node); s != nil && s.Abort() {
+				return s
+			}
 		}
 
 	case IntNode:
 		if fn := w.EnterIntNode; fn != nil {
-			return fn(node)
+			if s := fn(node); s != nil && s.Abort() {
+				return s
+			}
 		}
 
 	case MacrocallNode:
@@ -789,7 +795,9 @@ func (w WalkerOps) Walk(tree IsWalkableType) Stopper {
 
 	case ReNode:
 		if fn := w.EnterReNode; fn != nil {
-			return fn(node)
+			if s := fn(node); s != nil && s.Abort() {
+				return s
+			}
 		}
 
 	case RefNode:
@@ -800,7 +808,9 @@ func (w WalkerOps) Walk(tree IsWalkableType) Stopper {
 
 	case StrNode:
 		if fn := w.EnterStrNode; fn != nil {
-			return fn(node)
+			if s := fn(node); s != nil && s.Abort() {
+				return s
+			}
 		}
 
 	case TermNode:
@@ -808,7 +818,9 @@ func (w WalkerOps) Walk(tree IsWalkableType) Stopper {
 
 	case WrapReNode:
 		if fn := w.EnterWrapReNode; fn != nil {
-			return fn(node)
+			if s := fn(node); s != nil && s.Abort() {
+				return s
+			}
 		}
 
 	}
@@ -817,22 +829,18 @@ func (w WalkerOps) Walk(tree IsWalkableType) Stopper {
 func (w WalkerOps) WalkAtomExtRefNode(node AtomExtRefNode) Stopper {
 	if fn := w.EnterAtomExtRefNode; fn != nil {
 		if s := fn(node); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
+			if s.Abort() {
 				return s
+			} else if s.ExitNode() {
+				return nil
 			}
 		}
 	}
 	if child := node.OneIdent(); child != nil {
 		child := *child
 		if fn := w.EnterIdentNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+			if s := fn(child); s != nil && s.Abort() {
+				return s
 			}
 		}
 	}
@@ -848,97 +856,65 @@ func (w WalkerOps) WalkAtomExtRefNode(node AtomExtRefNode) Stopper {
 func (w WalkerOps) WalkAtomNode(node AtomNode) Stopper {
 	if fn := w.EnterAtomNode; fn != nil {
 		if s := fn(node); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
+			if s.Abort() {
 				return s
+			} else if s.ExitNode() {
+				return nil
 			}
 		}
 	}
 	if child := node.OneExtRef(); child != nil {
 		child := *child
 		if s := w.WalkAtomExtRefNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 	if child := node.OneIdent(); child != nil {
 		child := *child
 		if fn := w.EnterIdentNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+			if s := fn(child); s != nil && s.Abort() {
+				return s
 			}
 		}
 	}
 	if child := node.OneLookahead(); child != nil {
 		child := *child
 		if s := w.WalkTermNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 	if child := node.OneMacrocall(); child != nil {
 		child := *child
 		if s := w.WalkMacrocallNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 	if child := node.OneRe(); child != nil {
 		child := *child
 		if fn := w.EnterReNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+			if s := fn(child); s != nil && s.Abort() {
+				return s
 			}
 		}
 	}
 	if child := node.OneRef(); child != nil {
 		child := *child
 		if s := w.WalkRefNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 	if child := node.OneStr(); child != nil {
 		child := *child
 		if fn := w.EnterStrNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+			if s := fn(child); s != nil && s.Abort() {
+				return s
 			}
 		}
 	}
 	if child := node.OneTerm(); child != nil {
 		child := *child
 		if s := w.WalkTermNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 
@@ -953,20 +929,16 @@ func (w WalkerOps) WalkAtomNode(node AtomNode) Stopper {
 func (w WalkerOps) WalkGrammarNode(node GrammarNode) Stopper {
 	if fn := w.EnterGrammarNode; fn != nil {
 		if s := fn(node); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
+			if s.Abort() {
 				return s
+			} else if s.ExitNode() {
+				return nil
 			}
 		}
 	}
 	for _, child := range node.AllStmt() {
 		if s := w.WalkStmtNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 
@@ -981,32 +953,24 @@ func (w WalkerOps) WalkGrammarNode(node GrammarNode) Stopper {
 func (w WalkerOps) WalkMacrocallNode(node MacrocallNode) Stopper {
 	if fn := w.EnterMacrocallNode; fn != nil {
 		if s := fn(node); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
+			if s.Abort() {
 				return s
+			} else if s.ExitNode() {
+				return nil
 			}
 		}
 	}
 	if child := node.OneName(); child != nil {
 		child := *child
 		if fn := w.EnterIdentNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+			if s := fn(child); s != nil && s.Abort() {
+				return s
 			}
 		}
 	}
 	for _, child := range node.AllTerm() {
 		if s := w.WalkTermNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 
@@ -1021,32 +985,24 @@ func (w WalkerOps) WalkMacrocallNode(node MacrocallNode) Stopper {
 func (w WalkerOps) WalkNamedNode(node NamedNode) Stopper {
 	if fn := w.EnterNamedNode; fn != nil {
 		if s := fn(node); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
+			if s.Abort() {
 				return s
+			} else if s.ExitNode() {
+				return nil
 			}
 		}
 	}
 	if child := node.OneAtom(); child != nil {
 		child := *child
 		if s := w.WalkAtomNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 	if child := node.OneIdent(); child != nil {
 		child := *child
 		if fn := w.EnterIdentNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+			if s := fn(child); s != nil && s.Abort() {
+				return s
 			}
 		}
 	}
@@ -1062,21 +1018,17 @@ func (w WalkerOps) WalkNamedNode(node NamedNode) Stopper {
 func (w WalkerOps) WalkPragmaImportNode(node PragmaImportNode) Stopper {
 	if fn := w.EnterPragmaImportNode; fn != nil {
 		if s := fn(node); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
+			if s.Abort() {
 				return s
+			} else if s.ExitNode() {
+				return nil
 			}
 		}
 	}
 	if child := node.OnePath(); child != nil {
 		child := *child
 		if s := w.WalkPragmaImportPathNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 
@@ -1091,10 +1043,10 @@ func (w WalkerOps) WalkPragmaImportNode(node PragmaImportNode) Stopper {
 func (w WalkerOps) WalkPragmaImportPathNode(node PragmaImportPathNode) Stopper {
 	if fn := w.EnterPragmaImportPathNode; fn != nil {
 		if s := fn(node); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
+			if s.Abort() {
 				return s
+			} else if s.ExitNode() {
+				return nil
 			}
 		}
 	}
@@ -1110,44 +1062,32 @@ func (w WalkerOps) WalkPragmaImportPathNode(node PragmaImportPathNode) Stopper {
 func (w WalkerOps) WalkPragmaMacrodefNode(node PragmaMacrodefNode) Stopper {
 	if fn := w.EnterPragmaMacrodefNode; fn != nil {
 		if s := fn(node); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
+			if s.Abort() {
 				return s
+			} else if s.ExitNode() {
+				return nil
 			}
 		}
 	}
 	for _, child := range node.AllArgs() {
 		if fn := w.EnterIdentNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+			if s := fn(child); s != nil && s.Abort() {
+				return s
 			}
 		}
 	}
 	if child := node.OneName(); child != nil {
 		child := *child
 		if fn := w.EnterIdentNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+			if s := fn(child); s != nil && s.Abort() {
+				return s
 			}
 		}
 	}
 	if child := node.OneTerm(); child != nil {
 		child := *child
 		if s := w.WalkTermNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 
@@ -1162,31 +1102,23 @@ func (w WalkerOps) WalkPragmaMacrodefNode(node PragmaMacrodefNode) Stopper {
 func (w WalkerOps) WalkPragmaNode(node PragmaNode) Stopper {
 	if fn := w.EnterPragmaNode; fn != nil {
 		if s := fn(node); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
+			if s.Abort() {
 				return s
+			} else if s.ExitNode() {
+				return nil
 			}
 		}
 	}
 	if child := node.OneImport(); child != nil {
 		child := *child
 		if s := w.WalkPragmaImportNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 	if child := node.OneMacrodef(); child != nil {
 		child := *child
 		if s := w.WalkPragmaMacrodefNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 
@@ -1201,32 +1133,24 @@ func (w WalkerOps) WalkPragmaNode(node PragmaNode) Stopper {
 func (w WalkerOps) WalkProdNode(node ProdNode) Stopper {
 	if fn := w.EnterProdNode; fn != nil {
 		if s := fn(node); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
+			if s.Abort() {
 				return s
+			} else if s.ExitNode() {
+				return nil
 			}
 		}
 	}
 	if child := node.OneIdent(); child != nil {
 		child := *child
 		if fn := w.EnterIdentNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+			if s := fn(child); s != nil && s.Abort() {
+				return s
 			}
 		}
 	}
 	for _, child := range node.AllTerm() {
 		if s := w.WalkTermNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 
@@ -1241,45 +1165,33 @@ func (w WalkerOps) WalkProdNode(node ProdNode) Stopper {
 func (w WalkerOps) WalkQuantNode(node QuantNode) Stopper {
 	if fn := w.EnterQuantNode; fn != nil {
 		if s := fn(node); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
+			if s.Abort() {
 				return s
+			} else if s.ExitNode() {
+				return nil
 			}
 		}
 	}
 	if child := node.OneMax(); child != nil {
 		child := *child
 		if fn := w.EnterIntNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+			if s := fn(child); s != nil && s.Abort() {
+				return s
 			}
 		}
 	}
 	if child := node.OneMin(); child != nil {
 		child := *child
 		if fn := w.EnterIntNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+			if s := fn(child); s != nil && s.Abort() {
+				return s
 			}
 		}
 	}
 	if child := node.OneNamed(); child != nil {
 		child := *child
 		if s := w.WalkNamedNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 
@@ -1294,34 +1206,26 @@ func (w WalkerOps) WalkQuantNode(node QuantNode) Stopper {
 func (w WalkerOps) WalkRefNode(node RefNode) Stopper {
 	if fn := w.EnterRefNode; fn != nil {
 		if s := fn(node); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
+			if s.Abort() {
 				return s
+			} else if s.ExitNode() {
+				return nil
 			}
 		}
 	}
 	if child := node.OneDefault(); child != nil {
 		child := *child
 		if fn := w.EnterStrNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+			if s := fn(child); s != nil && s.Abort() {
+				return s
 			}
 		}
 	}
 	if child := node.OneIdent(); child != nil {
 		child := *child
 		if fn := w.EnterIdentNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+			if s := fn(child); s != nil && s.Abort() {
+				return s
 			}
 		}
 	}
@@ -1337,43 +1241,31 @@ func (w WalkerOps) WalkRefNode(node RefNode) Stopper {
 func (w WalkerOps) WalkStmtNode(node StmtNode) Stopper {
 	if fn := w.EnterStmtNode; fn != nil {
 		if s := fn(node); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
+			if s.Abort() {
 				return s
+			} else if s.ExitNode() {
+				return nil
 			}
 		}
 	}
 	if child := node.OneComment(); child != nil {
 		child := *child
 		if fn := w.EnterCommentNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+			if s := fn(child); s != nil && s.Abort() {
+				return s
 			}
 		}
 	}
 	if child := node.OnePragma(); child != nil {
 		child := *child
 		if s := w.WalkPragmaNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 	if child := node.OneProd(); child != nil {
 		child := *child
 		if s := w.WalkProdNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 
@@ -1388,48 +1280,32 @@ func (w WalkerOps) WalkStmtNode(node StmtNode) Stopper {
 func (w WalkerOps) WalkTermNode(node TermNode) Stopper {
 	if fn := w.EnterTermNode; fn != nil {
 		if s := fn(node); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
+			if s.Abort() {
 				return s
+			} else if s.ExitNode() {
+				return nil
 			}
 		}
 	}
 	for _, child := range node.AllGrammar() {
 		if s := w.WalkGrammarNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 	if child := node.OneNamed(); child != nil {
 		child := *child
 		if s := w.WalkNamedNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 	for _, child := range node.AllQuant() {
 		if s := w.WalkQuantNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 	for _, child := range node.AllTerm() {
 		if s := w.WalkTermNode(child); s != nil {
-			if s.ExitNode() {
-				return nil
-			} else if s.Abort() {
-				return s
-			}
+			return s
 		}
 	}
 
-- 
2.43.0


From 0258e825f13229636629dffe4eb6902035704af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:06 +0000
Subject: [PATCH 53/65] fix: generated accessors of named references

---
 cmd/codegen/typebuilder.go |  8 +++++---
 cmd/codegen/types.go       | 16 ++++++++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index 01015cd..9380a42 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -33,13 +33,14 @@ func pushRuleNameForStack(ident, parentName string, knownRules frozen.Map[string
 // stackRef is the type of a reference to the stack that it is part of. The name
 // is that of the stack unless it was given another one.
 func stackRef(si stackInfo, name, parentName string, quant countManager) GrammarType {
+	ref := si.ident
 	if name == "" {
-		name = si.ident
+		name, ref = si.ident, ""
 	}
 	if parentName == si.parentName {
-		return stackBackRef{name: name, parent: parentName}
+		return stackBackRef{name: name, parent: parentName, ref: ref}
 	}
-	return namedRule{name: name, parent: parentName, returnType: si.parentName, count: quant}
+	return namedRule{name: name, parent: parentName, returnType: si.parentName, ref: ref, count: quant}
 }
 
 func mergeGrammarRules(prefix string, g parser.Grammar, knownRules frozen.Map[string, any]) frozen.Map[string, any] {
@@ -181,6 +182,7 @@ func (tm *TypeMap) walkTerm(
 					name:       t.Name,
 					parent:     parentName,
 					returnType: knownRules.MustGet(term.String()).(string),
+					ref:        term.String(),
 					count:      quant,
 				}
 			}
diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index e987dc3..2e26a55 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -55,6 +55,7 @@ type (
 	}
 	stackBackRef struct {
 		name, parent string
+		ref          string // as for namedRule
 	}
 	backRef struct {
 		name, parent string
@@ -69,6 +70,7 @@ type (
 	}
 	namedRule struct {
 		name, parent, returnType string
+		ref                      string // the rule that the name stands for, which is below the name in the AST
 		count                    countManager
 	}
 	rule struct {
@@ -183,6 +185,7 @@ func (t stackBackRef) toNamedRule() GrammarType {
 		name:       t.name,
 		parent:     t.parent,
 		returnType: t.parent,
+		ref:        t.ref,
 		count:      countManager{int: wantAllGetter},
 	}
 }
@@ -290,12 +293,13 @@ func (t namedRule) String() string {
 		"{{child}}", GoName(t.name),
 		"{{returnType}}", GoTypeName(t.returnType),
 		"{{name}}", IdentName(t.name),
+		"{{unref}}", t.unref(),
 	)
 	out := ""
 	if t.count.wantOne() {
 		out += replacer.Replace(`
 func (c {{parent}}) One{{child}}() *{{returnType}} {
-	if child := ast.First(c.Node, {{name}}); child != nil {
+	if child := ast.First(c.Node, {{name}}); child != nil {{{unref}}
 		return &{{returnType}}{child}
 	}
 	return nil
@@ -305,7 +309,7 @@ func (c {{parent}}) One{{child}}() *{{returnType}} {
 	if t.count.wantAll() {
 		out += replacer.Replace(`func (c {{parent}}) All{{child}}() []{{returnType}} {
 	var out []{{returnType}}
-	for _, child := range ast.All(c.Node, {{name}}) {
+	for _, child := range ast.All(c.Node, {{name}}) {{{unref}}
 		out = append(out, {{returnType}}{child})
 	}
 	return out
@@ -315,6 +319,14 @@ func (c {{parent}}) One{{child}}() *{{returnType}} {
 	}
 	return out
 }
+
+// unref steps from the node of a name to that of the rule it stands for.
+func (t namedRule) unref() string {
+	if t.ref == "" {
+		return ""
+	}
+	return fmt.Sprintf("\nif rule := ast.First(child, %s); rule != nil { child = rule }", IdentName(t.ref))
+}
 func (t namedRule) CallbackData() *callbackData {
 	return &callbackData{getter: GoName(t.name), walker: GoTypeName(t.returnType), isMany: t.count.wantAll()}
 }
-- 
2.43.0


From c364cff5957e19e6a78e43d841a595cff4c895ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 54/65] fix: generated accessors of tokens beside repeated
 parts

---
 cmd/codegen/types.go |  6 ++++--
 wbnf/wbnfgrammar.go  | 48 +++++++++++++++++++++++++++++---------------
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index 2e26a55..e256678 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -261,8 +261,10 @@ func (c {{parent}}) OneToken() string {
 	}
 	if b, ok := c.Node.(ast.Branch); ok && len(b) == 1 {
 		for _, c := range b {
-			if child := ast.First(c.(ast.One).Node, ""); child != nil {
-				return child.Scanner().String()
+			if one, ok := c.(ast.One); ok {
+				if child := ast.First(one.Node, ""); child != nil {
+					return child.Scanner().String()
+				}
 			}
 		}
 	}
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index 53523b2..c0f170a 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -145,8 +145,10 @@ func (c AtomExtRefNode) OneToken() string {
 	}
 	if b, ok := c.Node.(ast.Branch); ok && len(b) == 1 {
 		for _, c := range b {
-			if child := ast.First(c.(ast.One).Node, ""); child != nil {
-				return child.Scanner().String()
+			if one, ok := c.(ast.One); ok {
+				if child := ast.First(one.Node, ""); child != nil {
+					return child.Scanner().String()
+				}
 			}
 		}
 	}
@@ -220,8 +222,10 @@ func (c AtomNode) OneToken() string {
 	}
 	if b, ok := c.Node.(ast.Branch); ok && len(b) == 1 {
 		for _, c := range b {
-			if child := ast.First(c.(ast.One).Node, ""); child != nil {
-				return child.Scanner().String()
+			if one, ok := c.(ast.One); ok {
+				if child := ast.First(one.Node, ""); child != nil {
+					return child.Scanner().String()
+				}
 			}
 		}
 	}
@@ -302,8 +306,10 @@ func (c MacrocallNode) OneToken() string {
 	}
 	if b, ok := c.Node.(ast.Branch); ok && len(b) == 1 {
 		for _, c := range b {
-			if child := ast.First(c.(ast.One).Node, ""); child != nil {
-				return child.Scanner().String()
+			if one, ok := c.(ast.One); ok {
+				if child := ast.First(one.Node, ""); child != nil {
+					return child.Scanner().String()
+				}
 			}
 		}
 	}
@@ -360,8 +366,10 @@ func (c PragmaImportNode) OneToken() string {
 	}
 	if b, ok := c.Node.(ast.Branch); ok && len(b) == 1 {
 		for _, c := range b {
-			if child := ast.First(c.(ast.One).Node, ""); child != nil {
-				return child.Scanner().String()
+			if one, ok := c.(ast.One); ok {
+				if child := ast.First(one.Node, ""); child != nil {
+					return child.Scanner().String()
+				}
 			}
 		}
 	}
@@ -412,8 +420,10 @@ func (c PragmaMacrodefNode) OneToken() string {
 	}
 	if b, ok := c.Node.(ast.Branch); ok && len(b) == 1 {
 		for _, c := range b {
-			if child := ast.First(c.(ast.One).Node, ""); child != nil {
-				return child.Scanner().String()
+			if one, ok := c.(ast.One); ok {
+				if child := ast.First(one.Node, ""); child != nil {
+					return child.Scanner().String()
+				}
 			}
 		}
 	}
@@ -472,8 +482,10 @@ func (c ProdNode) OneToken() string {
 	}
 	if b, ok := c.Node.(ast.Branch); ok && len(b) == 1 {
 		for _, c := range b {
-			if child := ast.First(c.(ast.One).Node, ""); child != nil {
-				return child.Scanner().String()
+			if one, ok := c.(ast.One); ok {
+				if child := ast.First(one.Node, ""); child != nil {
+					return child.Scanner().String()
+				}
 			}
 		}
 	}
@@ -541,8 +553,10 @@ func (c QuantNode) OneToken() string {
 	}
 	if b, ok := c.Node.(ast.Branch); ok && len(b) == 1 {
 		for _, c := range b {
-			if child := ast.First(c.(ast.One).Node, ""); child != nil {
-				return child.Scanner().String()
+			if one, ok := c.(ast.One); ok {
+				if child := ast.First(one.Node, ""); child != nil {
+					return child.Scanner().String()
+				}
 			}
 		}
 	}
@@ -591,8 +605,10 @@ func (c RefNode) OneToken() string {
 	}
 	if b, ok := c.Node.(ast.Branch); ok && len(b) == 1 {
 		for _, c := range b {
-			if child := ast.First(c.(ast.One).Node, ""); child != nil {
-				return child.Scanner().String()
+			if one, ok := c.(ast.One); ok {
+				if child := ast.First(one.Node, ""); child != nil {
+					return child.Scanner().String()
+				}
 			}
 		}
 	}
-- 
2.43.0


From 57ef8875bb28e83760364917b183070a95da8d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 55/65] fix: generated accessors of tokens that follow tokens

---
 cmd/codegen/pushtype.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/codegen/pushtype.go b/cmd/codegen/pushtype.go
index 33f7ecb..476d09f 100644
--- a/cmd/codegen/pushtype.go
+++ b/cmd/codegen/pushtype.go
@@ -34,7 +34,12 @@ func (tm *TypeMap) createOrAddParent(parent string, child GrammarType) {
 		var children []GrammarType
 		// Check if the parent needs to be upgraded to a rule() instead of a basicrule()
 		if basic, ok := p.(basicRule); ok {
-			children = []GrammarType{basic.Upgrade()}
+			token := basic.Upgrade()
+			if _, ok := child.(unnamedToken); ok {
+				// What follows the token belongs to the same sequence, choices are rules from the start.
+				token.count = token.count.forceMany()
+			}
+			children = []GrammarType{token}
 		} else if _, ok := p.(rule); ok {
 			children = p.Children()
 		} else {
-- 
2.43.0


From 6e371b927d85ae7a217aac4df70d253c20d337a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:00 +0000
Subject: [PATCH 56/65] fix: generated accessors of tokens and names beside
 choices

---
 cmd/codegen/pushtype.go    |  7 +----
 cmd/codegen/typebuilder.go | 54 ++++++++++++++++++++------------------
 cmd/codegen/types.go       | 31 +++++++++++++++-------
 3 files changed, 52 insertions(+), 40 deletions(-)

diff --git a/cmd/codegen/pushtype.go b/cmd/codegen/pushtype.go
index 476d09f..33f7ecb 100644
--- a/cmd/codegen/pushtype.go
+++ b/cmd/codegen/pushtype.go
@@ -34,12 +34,7 @@ func (tm *TypeMap) createOrAddParent(parent string, child GrammarType) {
 		var children []GrammarType
 		// Check if the parent needs to be upgraded to a rule() instead of a basicrule()
 		if basic, ok := p.(basicRule); ok {
-			token := basic.Upgrade()
-			if _, ok := child.(unnamedToken); ok {
-				// What follows the token belongs to the same sequence, choices are rules from the start.
-				token.count = token.count.forceMany()
-			}
-			children = []GrammarType{token}
+			children = []GrammarType{basic.Upgrade()}
 		} else if _, ok := p.(rule); ok {
 			children = p.Children()
 		} else {
diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index 9380a42..9915ac5 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -56,7 +56,7 @@ func (tm *TypeMap) walkGrammar(prefix string, g parser.Grammar, knownRules froze
 	for r, term := range g {
 		typeName := prefix + GoName(r.String())
 		tm.walkTerm(term, typeName, setWantOneGetter(),
-			pushRuleNameForStack(r.String(), typeName, knownRules), rand.Int()) //nolint:gosec
+			pushRuleNameForStack(r.String(), typeName, knownRules), []int{rand.Int()}) //nolint:gosec
 		// Now we need to check if stack terms were used, if they were we need to ensure that unnamed rule child
 		// was added, otherwise a rule like `f -> foo=@ > BAR;` would not generate a working walker api
 		tm.needType(typeName)
@@ -79,15 +79,17 @@ func (tm *TypeMap) walkGrammar(prefix string, g parser.Grammar, knownRules froze
 	return tm.merge(result)
 }
 
-func (tm *TypeMap) handleSeq(
+// handleOptions walks terms of which every node has only one.
+func (tm *TypeMap) handleOptions(
 	terms []parser.Term,
 	parentName string,
 	quant countManager,
 	knownRules frozen.Map[string, any],
-	termID int,
+	path []int,
 ) {
-	for _, t := range terms {
-		tm.walkTerm(t, parentName, quant, knownRules, termID)
+	id := rand.Int() //nolint:gosec
+	for i, t := range terms {
+		tm.walkTerm(t, parentName, quant, knownRules, append(path[:len(path):len(path)], id, i))
 	}
 }
 
@@ -123,11 +125,11 @@ func (tm *TypeMap) walkTerm(
 	parentName string,
 	quant countManager,
 	knownRules frozen.Map[string, any],
-	termID int,
+	path []int,
 ) {
 	switch t := term.(type) {
 	case parser.S, parser.RE, parser.Rule:
-		tm.makeLeafType(term, parentName, quant.pushSingleNode(termID), knownRules)
+		tm.makeLeafType(term, parentName, quant.pushSingleNode(path...), knownRules)
 	case parser.REF:
 		tm.pushType("", parentName, backRef{
 			name:   t.Ident,
@@ -136,19 +138,20 @@ func (tm *TypeMap) walkTerm(
 	case parser.ScopedGrammar:
 		knownRules = mergeGrammarRules(parentName, t.Grammar, knownRules)
 		scoped := tm.walkGrammar(parentName, t.Grammar, knownRules)
-		scoped.walkTerm(t.Term, parentName, quant, knownRules, termID)
+		scoped.walkTerm(t.Term, parentName, quant, knownRules, path)
 		*tm = tm.merge(scoped)
-	case parser.Seq:
-		tm.handleSeq(t, parentName, quant, knownRules, termID)
 	case parser.Oneof:
 		tm.pushType("", parentName, choice{parent: parentName})
+		tm.handleOptions(t, parentName, quant, knownRules, path)
+	case parser.Seq:
 		for _, t := range t {
-			tm.walkTerm(t, parentName, quant, knownRules, rand.Int()) //nolint:gosec
+			tm.walkTerm(t, parentName, quant, knownRules, path)
 		}
 	case parser.Stack:
-		tm.handleSeq(t, parentName, quant, knownRules, termID)
+		// Every level makes nodes of its own.
+		tm.handleOptions(t, parentName, quant, knownRules, path)
 	case parser.Delim:
-		tm.walkTerm(t.Term, parentName, setWantAllGetter(), knownRules, termID)
+		tm.walkTerm(t.Term, parentName, setWantAllGetter(), knownRules, path)
 		switch delim := t.Sep.(type) {
 		case parser.Named:
 			childName := parentName + GoName(delim.Name)
@@ -157,33 +160,34 @@ func (tm *TypeMap) walkTerm(
 				tm.pushType(childName, parentName, namedToken{
 					name:   delim.Name,
 					parent: parentName,
-					count:  quant,
+					count:  quant.pushSingleNode(path...),
 				})
 			default:
-				tm.walkTerm(t.Sep, parentName, setWantAllGetter(), knownRules, termID)
+				tm.walkTerm(t.Sep, parentName, setWantAllGetter(), knownRules, path)
 			}
 		case parser.Rule:
 			childName := parentName + GoName(delim.String())
-			tm.walkTerm(t.Sep, childName, setWantAllGetter(), knownRules, termID)
+			tm.walkTerm(t.Sep, childName, setWantAllGetter(), knownRules, path)
 		case parser.CutPoint, parser.S: // ignore the delim
 		default:
 			childName := parentName + "Delim"
-			tm.walkTerm(t.Sep, childName, setWantAllGetter(), knownRules, termID)
+			tm.walkTerm(t.Sep, childName, setWantAllGetter(), knownRules, path)
 		}
 	case parser.Named:
 		childName := parentName + GoName(t.Name)
+		single := quant.pushSingleNode(path...)
 		switch term := t.Term.(type) {
 		case parser.Rule:
 			var val GrammarType
 			if term == parser.At {
-				val = stackRef(knownRules.MustGet(term.String()).(stackInfo), t.Name, parentName, quant)
+				val = stackRef(knownRules.MustGet(term.String()).(stackInfo), t.Name, parentName, single)
 			} else {
 				val = namedRule{
 					name:       t.Name,
 					parent:     parentName,
 					returnType: knownRules.MustGet(term.String()).(string),
 					ref:        term.String(),
-					count:      quant,
+					count:      single,
 				}
 			}
 			tm.pushType(childName, parentName, val)
@@ -191,27 +195,27 @@ func (tm *TypeMap) walkTerm(
 			tm.pushType(childName, parentName, namedToken{
 				name:   t.Name,
 				parent: parentName,
-				count:  quant,
+				count:  single,
 			})
 		default:
-			tm.walkTerm(t.Term, childName, quant, knownRules, termID)
+			tm.walkTerm(t.Term, childName, quant, knownRules, path)
 			tm.needType(childName)
 			tm.pushType(childName, parentName, namedRule{
 				name:       t.Name,
 				parent:     parentName,
 				returnType: childName,
-				count:      quant,
+				count:      single,
 			})
 		}
 	case parser.Quant:
 		if t.Max != 1 {
 			quant = setWantAllGetter()
 		}
-		tm.walkTerm(t.Term, parentName, quant, knownRules, termID)
+		tm.walkTerm(t.Term, parentName, quant, knownRules, path)
 	case parser.CutPoint:
-		tm.walkTerm(t.Term, parentName, quant, knownRules, termID)
+		tm.walkTerm(t.Term, parentName, quant, knownRules, path)
 	case parser.LookAhead:
-		tm.walkTerm(t.Term, parentName, quant, knownRules, termID)
+		tm.walkTerm(t.Term, parentName, quant, knownRules, path)
 	case parser.ExtRef:
 		// nothing yet
 	default:
diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index e256678..d636298 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -96,25 +96,37 @@ const (
 //	    a -> x="a"+ | x="b"				one option wants only one, the other wants at least one.
 //	etc.
 //
-// To track this, each countManager keeps a set of identifiers for each branch of a term the ident is used in,
-// If each term is unique, and they all want just One, then the result should only require a One.
+// To track this, each countManager keeps the paths to all terms the ident is used in: a path is the id of the rule,
+// followed by the ids of a choice and of one of its options for every choice the term is in.
+// If any two uses exclude each other, and they all want just One, then the result should only require a One.
 type countManager struct {
 	int
-	nodes []int
+	nodes [][]int
+}
+
+// exclusive tells whether only one of the terms with the given paths can be in a node, i.e. whether they are in
+// different rules, or different options of one choice.
+func exclusive(a, b []int) bool {
+	for i := 0; i < len(a) && i < len(b); i++ {
+		if a[i] != b[i] {
+			return i%2 == 0
+		}
+	}
+	return false
 }
 
 func (c countManager) forceMany() countManager {
 	c.int |= wantAllGetter
 	return c
 }
-func (c countManager) pushSingleNode(id int) countManager {
+func (c countManager) pushSingleNode(path ...int) countManager {
 	if !c.wantAll() {
 		for _, x := range c.nodes {
-			if x == id {
+			if !exclusive(x, path) {
 				return c.forceMany()
 			}
 		}
-		c.nodes = append(c.nodes, id)
+		c.nodes = append(c.nodes[:len(c.nodes):len(c.nodes)], path)
 	}
 	return c
 }
@@ -123,8 +135,8 @@ func (c countManager) merge(other countManager) countManager {
 	if other.wantAll() {
 		return c.forceMany()
 	}
-	for _, id := range other.nodes {
-		c = c.pushSingleNode(id)
+	for _, path := range other.nodes {
+		c = c.pushSingleNode(path...)
 	}
 	return c
 }
@@ -151,7 +163,8 @@ func (t basicRule) CallbackData() *callbackData { return nil }
 func (t basicRule) Upgrade() unnamedToken {
 	return unnamedToken{
 		parent: string(t),
-		count:  countManager{int: wantOneGetter},
+		// Only its first token was added to the type, so everything else comes with it.
+		count: countManager{int: wantOneGetter, nodes: [][]int{nil}},
 	}
 }
 
-- 
2.43.0


From 6534f9594815485b1d4eec470bc48e43aeec5133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 57/65] fix: generated walkers of stacks that refer to
 themselves by name

---
 cmd/codegen/pushtype.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/codegen/pushtype.go b/cmd/codegen/pushtype.go
index 33f7ecb..665a255 100644
--- a/cmd/codegen/pushtype.go
+++ b/cmd/codegen/pushtype.go
@@ -91,8 +91,13 @@ func checkForDupes(children []GrammarType, next GrammarType) []GrammarType {
 			c = child
 			appendNext = false
 		case stackBackRef:
-			if _, ok := next.(stackBackRef); ok {
+			switch next := next.(type) {
+			case stackBackRef:
 				return children
+			case namedRule:
+				next.count = next.count.forceMany()
+				c = next
+				appendNext = false
 			}
 		case backRef:
 			if _, ok := next.(backRef); ok {
-- 
2.43.0


From 6e5217388f08d8892d778aa7710dc1fd36ceaff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:34 +0000
Subject: [PATCH 58/65] fix: commands report output that can't be written

---
 cmd/gen.go  |  5 ++---
 cmd/test.go | 14 ++++++++------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/cmd/gen.go b/cmd/gen.go
index b2b6a04..6dea773 100644
--- a/cmd/gen.go
+++ b/cmd/gen.go
@@ -84,10 +84,9 @@ func gen(c *cli.Context) error {
 
 	switch outFile {
 	case "", "-":
-		os.Stdout.Write(out)
+		_, err := os.Stdout.Write(out)
+		return err
 	default:
 		return os.WriteFile(outFile, out, 0644) //nolint:gosec
 	}
-
-	return nil
 }
diff --git a/cmd/test.go b/cmd/test.go
index 39786ed..f9acf97 100644
--- a/cmd/test.go
+++ b/cmd/test.go
@@ -97,13 +97,14 @@ func loadTestGrammar() parser.Parsers {
 
 func testWbnfFile(filename, grammar string) error {
 	g := wbnf.MustCompile(grammar, makeResolver(filename))
+	var err error
 	if printTree {
-		fmt.Println(ast.BuildTreeView("grammar", g.Node().(wbnf.GrammarNode).Node, true))
+		_, err = fmt.Println(ast.BuildTreeView("grammar", g.Node().(wbnf.GrammarNode).Node, true))
 	} else {
-		fmt.Println(g.Node().(ast.Node))
+		_, err = fmt.Println(g.Node().(ast.Node))
 	}
 
-	return nil
+	return err
 }
 
 func test(c *cli.Context) error {
@@ -152,14 +153,15 @@ func test(c *cli.Context) error {
 		}
 	}
 	a := ast.FromParserNode(g.Grammar(), tree)
+	var writeErr error
 	if printTree {
-		fmt.Println(ast.BuildTreeView(startingRule, a, true))
+		_, writeErr = fmt.Println(ast.BuildTreeView(startingRule, a, true))
 	} else {
-		fmt.Println(a)
+		_, writeErr = fmt.Println(a)
 	}
 	if err, ok := err.(parser.UnconsumedInputError); ok {
 		return err
 	}
 
-	return nil
+	return writeErr
 }
-- 
2.43.0


From 92eb17a345a717c2f104730e81374d5ce5fd16f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:52 +0000
Subject: [PATCH 59/65] fix: generated code for files with line breaks in their
 names

---
 cmd/gen.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cmd/gen.go b/cmd/gen.go
index 6dea773..f6cf38e 100644
--- a/cmd/gen.go
+++ b/cmd/gen.go
@@ -5,7 +5,10 @@ import (
 	"fmt"
 	"go/format"
 	"os"
+	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/arr-ai/wbnf/cmd/codegen"
 
@@ -53,6 +56,18 @@ var genCommand = cli.Command{
 	},
 }
 
+// commandLine writes out arguments so that they fit in a line comment.
+func commandLine(args []string) string {
+	words := make([]string, 0, len(args))
+	for _, arg := range args {
+		if strings.IndexFunc(arg, unicode.IsControl) >= 0 || !utf8.ValidString(arg) {
+			arg = strconv.Quote(arg)
+		}
+		words = append(words, arg)
+	}
+	return strings.Join(words, " ")
+}
+
 func gen(c *cli.Context) error {
 	g := loadTestGrammar()
 	if !g.HasRule(parser.Rule(startingRule)) {
@@ -62,7 +77,7 @@ func gen(c *cli.Context) error {
 
 	types := codegen.MakeTypes(tree)
 	tmpldata := codegen.TemplateData{
-		CommandLine:       strings.Join(os.Args[1:], " "),
+		CommandLine:       commandLine(os.Args[1:]),
 		PackageName:       pkgName,
 		StartRule:         codegen.IdentName(startingRule),
 		StartRuleTypeName: codegen.GoTypeName(codegen.GoName(startingRule)),
-- 
2.43.0


From e2533aed2ad95442dcd040f84b2fcac0bf2fed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:09 +0000
Subject: [PATCH 60/65] fix: differences between external references, and of
 defaults of back-references

---
 parser/diff/terms.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser/diff/terms.go b/parser/diff/terms.go
index 53e63e1..cc41405 100644
--- a/parser/diff/terms.go
+++ b/parser/diff/terms.go
@@ -118,7 +118,7 @@ func Terms(a, b parser.Term) TermDiff {
 	case parser.CutPoint:
 		return Terms(a.Term, b.(parser.CutPoint).Term)
 	case parser.ExtRef:
-		return diffSes(parser.S(string(a)), parser.S(string(a)))
+		return diffSes(parser.S(string(a)), parser.S(string(b.(parser.ExtRef))))
 	case parser.REF:
 		return diffRefs(a, b.(parser.REF))
 	case parser.LookAhead:
@@ -177,10 +177,13 @@ type RefDiff struct {
 }
 
 func (d RefDiff) Equal() bool {
-	if d.A.Ident == d.B.Ident {
-		return (d.A.Default == nil && d.B.Default == nil) || Terms(d.A.Default, d.B.Default).Equal()
+	if d.A.Ident != d.B.Ident {
+		return false
 	}
-	return false
+	if d.A.Default == nil || d.B.Default == nil {
+		return d.A.Default == nil && d.B.Default == nil
+	}
+	return Terms(d.A.Default, d.B.Default).Equal()
 }
 
 func diffRefs(a, b parser.REF) RefDiff {
-- 
2.43.0


From 7356dbd3800f064c42e320d6677ca1dff3d83dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:20 +0000
Subject: [PATCH 61/65] fix: differences between the leaves of nodes

---
 parser/diff/nodes.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/parser/diff/nodes.go b/parser/diff/nodes.go
index 6f8b946..72a36b1 100644
--- a/parser/diff/nodes.go
+++ b/parser/diff/nodes.go
@@ -13,6 +13,7 @@ type NodeDiff struct {
 	A, B     *parser.Node
 	Children map[int]NodeDiff
 	Types    map[int][2]reflect.Type
+	Leaves   map[int][2]string
 }
 
 func (d NodeDiff) String() string {
@@ -43,6 +44,11 @@ func (d NodeDiff) report(path []string, w io.Writer) {
 			fmt.Fprintf(w, "%sChildren[%d].Type: %v != %v", prefix, i, t[0], t[1])
 		}
 	}
+	for i := range d.A.Children {
+		if l, has := d.Leaves[i]; has {
+			fmt.Fprintf(w, "%sChildren[%d]: %q != %q", prefix, i, l[0], l[1])
+		}
+	}
 	for i := range d.A.Children {
 		if d, has := d.Children[i]; has {
 			d.report(append(append([]string{}, path...), fmt.Sprintf("%s[%d]", d.A.Tag, i)), w)
@@ -55,26 +61,33 @@ func (d NodeDiff) Equal() bool {
 		d.A.Tag == d.B.Tag &&
 		d.A.Extra == d.B.Extra &&
 		len(d.Children) == 0 &&
-		len(d.Types) == 0
+		len(d.Types) == 0 &&
+		len(d.Leaves) == 0
 }
 
 func NewNodeDiff(a, b *parser.Node) NodeDiff {
 	children := map[int]NodeDiff{}
 	types := map[int][2]reflect.Type{}
+	leaves := map[int][2]string{}
 	n := len(a.Children)
 	if n > len(b.Children) {
 		n = len(b.Children)
 	}
 	for i, x := range a.Children[:n] {
-		aType := reflect.TypeOf(a)
-		bType := reflect.TypeOf(a)
+		y := b.Children[i]
+		aType := reflect.TypeOf(x)
+		bType := reflect.TypeOf(y)
 		if aType != bType {
 			types[i] = [2]reflect.Type{aType, bType}
 		} else if childNodeA, ok := x.(parser.Node); ok {
-			childNodeB := b.Children[i].(parser.Node)
+			childNodeB := y.(parser.Node)
 			if d := NewNodeDiff(&childNodeA, &childNodeB); !d.Equal() {
 				children[i] = d
 			}
+		} else if leafA, ok := x.(parser.Scanner); ok {
+			if leafB := y.(parser.Scanner); leafA.String() != leafB.String() {
+				leaves[i] = [2]string{leafA.String(), leafB.String()}
+			}
 		}
 	}
 	return NodeDiff{
@@ -82,5 +95,6 @@ func NewNodeDiff(a, b *parser.Node) NodeDiff {
 		B:        b,
 		Children: children,
 		Types:    types,
+		Leaves:   leaves,
 	}
 }
-- 
2.43.0


From 7e26187b0866419bfac5c2b7dec03c075f129ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:44 +0000
Subject: [PATCH 62/65] fix: rank tree items whose text starts with a number
 out of range

---
 gotree/gotree.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gotree/gotree.go b/gotree/gotree.go
index 57e0ff4..546e5be 100644
--- a/gotree/gotree.go
+++ b/gotree/gotree.go
@@ -88,10 +88,8 @@ func (t *tree) SortItems() {
 func (t *tree) Rank() int {
 	num := regexp.MustCompile("^[1-9][0-9]*").Find([]byte(t.Text()))
 	if num != nil {
-		r, err := strconv.Atoi(string(num))
-		if err != nil {
-			panic(err)
-		}
+		// A number out of range has the highest rank, which is what Atoi returns.
+		r, _ := strconv.Atoi(string(num))
 		return r
 	}
 	if len(t.Items()) == 0 {
-- 
2.43.0


From 8adb165aad3b2bb35d03dda05c20b7cfd5f506a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:22 +0000
Subject: [PATCH 63/65] fix: ASTs with empty lists only equal those with the
 same lists

---
 ast/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/node.go b/ast/node.go
index 5eb02e7..064e092 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -221,8 +221,8 @@ func (b Branch) ContentEquals(other Node) bool {
 					return false
 				}
 			case Many:
-				otherNodes := other.Many(k)
-				if len(v) != len(otherNodes) {
+				otherNodes, ok := other[k].(Many)
+				if !ok || len(v) != len(otherNodes) {
 					return false
 				}
 				for i, n := range v {
-- 
2.43.0


From f0ecb134579088be25521fc8f1881013134d6d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:52 +0000
Subject: [PATCH 64/65] fix: compile commit points around rule references

---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 14b2660..ada2ea7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -921,5 +921,7 @@ func isCutPoint(t Term) bool {
 }
 
 func (t CutPoint) Parser(rule Rule, c cache) Parser {
-	return &cutPointParser{t.Term.Parser(rule, c), t}
+	p := &cutPointParser{t.Term.Parser(rule, c), t}
+	c.registerRule(&p.p)
+	return p
 }
-- 
2.43.0


From f7a92d2f8e3912a70f26493774a3a8b979430aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:32 +0000
Subject: [PATCH 65/65] fix: write choices as numbers in the text of parse
 trees

---
 parser/terms.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/terms.go b/parser/terms.go
index 914a43e..be5e749 100644
--- a/parser/terms.go
+++ b/parser/terms.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/arr-ai/wbnf/errors"
@@ -134,6 +135,10 @@ type Choice int
 
 func (Choice) IsExtra() {}
 
+func (c Choice) String() string {
+	return strconv.Itoa(int(c))
+}
+
 type Associativity int
 
 func NewAssociativity(s string) Associativity {
-- 
2.43.0

