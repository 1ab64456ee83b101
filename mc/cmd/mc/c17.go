package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/arr-ai/wbnf/parser"

	"verif/mc/eng"
	"verif/mc/gm"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C17",
		Rule: "explicit-state search to the fixpoint: from a scanner over each source, every Slice, Skip, Eat, EatString, EatRegexp, StripSource and MergeScanners with every argument in range; " +
			"in every state all observers, and on all pairs (triples within a source) of states Contains and MergeScanners, against a model that is an interval of a string",
		Assumptions: []string{"arguments out of range are the caller's fault", "columns count bytes, as documented by the tests"},
		Gen:         genC17,
	})
}

// span is the model of a scanner: an interval of a text.
type span struct {
	text, file string // the whole source
	from, to   int
	// A stripped scanner knows its own text, [base, end) of the source, only.
	stripped  bool
	base, end int
}

func (s span) str() string { return s.text[s.from:s.to] }

func (s span) sameSource(t span) bool {
	if s.file != t.file || s.stripped != t.stripped {
		return false
	}
	if s.stripped {
		return s.text[s.base:s.end] == t.text[t.base:t.end] && s.base == t.base
	}
	return s.text == t.text
}

func (s span) context(limit int) string {
	above, below := s.text[:s.from], s.text[s.to:]
	line := 1 + strings.Count(above, "\n")
	col := 1 + len(above) - (strings.LastIndex(above, "\n") + 1)
	if limit >= 0 {
		// limit whole lines and what is left of the line above, limit lines
		// starting with what is left of the line below
		for i, n := len(above)-1, 0; i >= 0; i-- {
			if above[i] == '\n' {
				if n == limit {
					above = above[i+1:]
					break
				}
				n++
			}
		}
		n := 0
		if limit == 0 {
			below = ""
		}
		for i := 0; i < len(below); i++ {
			if below[i] == '\n' {
				if n++; n == limit {
					below = below[:i]
					break
				}
			}
		}
	}
	return fmt.Sprintf("\n\x1b[1;37m%s:%d:%d:\x1b[0m\n%s\x1b[1;31m%s\x1b[0m%s", s.file, line, col, above, s.str(), below)
}

type scanState struct {
	m   span
	s   parser.Scanner
	how string
}

func observe(c *eng.Ctx, st scanState) {
	fail := func(format string, args ...any) {
		c.Fail(st.how, "%s (model %q at %d): %s", st.how, st.m.str(), st.m.from, fmt.Sprintf(format, args...))
	}
	pv := eng.Try(func() {
		s, m := st.s, st.m
		if s.IsNil() {
			fail("IsNil")
		}
		if s.String() != m.str() {
			fail("String() is %q", s.String())
		}
		if s.Offset() != m.from {
			fail("Offset() is %d", s.Offset())
		}
		if s.Filename() != m.file {
			fail("Filename() is %q", s.Filename())
		}
		for _, f := range []string{"%v", "%s", "%q"} {
			if got, want := fmt.Sprintf(f, s), fmt.Sprintf(f, m.str()); got != want {
				fail("Format %s gives %q", f, got)
			}
		}
		l, col := s.Position()
		if m.stripped {
			if !strings.Contains(s.Context(parser.NoLimit), m.str()) || !strings.Contains(s.Context(parser.DefaultLimit), m.str()) {
				fail("Context() leaves out the text")
			}
			return
		}
		above := m.text[:m.from]
		if wl, wc := 1+strings.Count(above, "\n"), m.from-strings.LastIndex(above, "\n"); l != wl || col != wc {
			fail("Position() is %d,%d instead of %d,%d", l, col, wl, wc)
		}
		for _, lim := range []int{parser.NoLimit, 0, 1, 2, 3} {
			if got, want := s.Context(lim), m.context(lim); got != want {
				fail("Context(%d) is %q instead of %q", lim, got, want)
			}
		}
	})
	if pv != nil {
		fail("panic: %v", pv)
	}
}

func genC17(x *eng.Gen) {
	type source struct{ text, file string }
	sources := []source{{"", ""}, {"a", "f"}, {"ab\nc", ""}, {"\n\na", "f.x"}, {"a\nb\nc\nd", ""}, {"é\nü", "g"}, {"\xffa\xfe", ""}, {"abab", ""}, {"a\r\nb\n", "x"}, {"a%sb", "%d"}}
	sources = append(sources, source{"a\nbc\n\nd\ne", "h"}, source{"\n\n\n\n\n\n", ""}, source{"日本\n語", "日"})
	for i, t := range gm.Strings([]string{"a", "\n", "é"}, bound(x, 4, 5)) {
		sources = append(sources, source{t, []string{"", "f"}[i%2]})
	}
	for i, t := range gm.Strings([]string{"ab", "\n", "\xff"}, bound(x, 4, 6)) {
		sources = append(sources, source{t, []string{"f", ""}[i%2]})
	}
	words := []string{"", "a", "b", "ab", "\n", "é", "\xff", "z", "a\n"}
	res := []struct {
		re   *regexp.Regexp
		caps int
	}{}
	for _, r := range []string{`\A`, `\Aa`, `\Aa*`, `\A(a)`, `\A(a)(b)?`, `\A(?:(a)|(b))`, `\A.`, `\A\s`, `\A(?s:.+)`, `\A(\n)?(.)`, `\A(?:)$`} {
		re := regexp.MustCompile(r)
		res = append(res, struct {
			re   *regexp.Regexp
			caps int
		}{re, re.NumSubexp()})
	}
	for si, src := range sources {
		src := src
		x.KCase(fmt.Sprintf("source %d %q %q", si, src.text, src.file), func(c *eng.Ctx) {
			seen := map[span]bool{}
			var states []scanState
			add := func(m span, s parser.Scanner, how func() string) {
				c.Transitions++
				if !seen[m] {
					seen[m] = true
					states = append(states, scanState{m, s, how()})
					c.States++
					observe(c, states[len(states)-1])
					return
				}
				// The same state reached another way has to look the same.
				if pv := eng.Try(func() {
					if s.String() != m.str() || s.Offset() != m.from || s.Filename() != m.file || s.IsNil() {
						c.Fail(how(), "%s gives %q at %d, not %q at %d", how(), s.String(), s.Offset(), m.str(), m.from)
					}
					for _, t := range states {
						if t.m == m && !m.stripped && s != t.s {
							c.Fail(how(), "%s and %s differ", how(), t.how)
						}
					}
				}); pv != nil {
					c.Fail(how(), "%s: panic: %v", how(), pv)
				}
			}
			first := span{text: src.text, file: src.file, to: len(src.text)}
			add(first, *parser.NewScannerWithFilename(src.text, src.file), func() string { return "NewScannerWithFilename" })
			if src.file == "" {
				add(first, *parser.NewScanner(src.text), func() string { return "NewScanner" })
				for i := 0; i <= len(src.text); i++ {
					for n := 0; i+n <= len(src.text); n++ {
						m := first
						m.from, m.to = i, i+n
						add(m, *parser.NewScannerAt(src.text, i, n), func() string { return fmt.Sprintf("NewScannerAt(%d,%d)", i, n) })
					}
				}
			}
			for k := 0; k < len(states); k++ {
				st := states[k]
				n := st.m.to - st.m.from
				step := func(op string, f func()) {
					c.Evals++
					before := st.s
					if pv := eng.Try(f); pv != nil {
						c.Fail(st.how+op, "%s%s: panic: %v", st.how, op, pv)
					}
					if before != st.s {
						c.Fail(st.how+op, "%s%s changes the scanner it is applied to", st.how, op)
						st.s = before
					}
				}
				for i := 0; i <= n; i++ {
					i := i
					op := fmt.Sprintf(".Skip(%d)", i)
					rest := st.m
					rest.from += i
					step(op, func() { add(rest, *st.s.Skip(i), func() string { return st.how + op }) })
					op2 := fmt.Sprintf(".Eat(%d)", i)
					step(op2, func() {
						s, e := st.s, parser.Scanner{}
						if i%2 == 1 {
							e = *parser.NewScanner("garbage") // what was there before doesn't matter
						}
						if got := s.Eat(i, &e); got != &s {
							c.Fail(st.how+op2, "%s%s does not return its receiver", st.how, op2)
						}
						eaten := st.m
						eaten.to = eaten.from + i
						add(rest, s, func() string { return st.how + op2 })
						add(eaten, e, func() string { return st.how + op2 + " eaten" })
					})
					for j := i; j <= n; j++ {
						j := j
						op := fmt.Sprintf(".Slice(%d,%d)", i, j)
						m := st.m
						m.from, m.to = st.m.from+i, st.m.from+j
						step(op, func() { add(m, *st.s.Slice(i, j), func() string { return st.how + op }) })
					}
				}
				for _, w := range words {
					w := w
					op := fmt.Sprintf(".EatString(%q)", w)
					step(op, func() {
						s := st.s
						mark := *parser.NewScanner("mark")
						e := mark
						ok := s.EatString(w, &e)
						if want := strings.HasPrefix(st.m.str(), w); ok != want {
							c.Fail(st.how+op, "%s%s is %v", st.how, op, ok)
							return
						}
						if !ok {
							c.Outcome("string-refused")
							if s != st.s || e != mark {
								c.Fail(st.how+op, "%s%s fails but moves the scanner", st.how, op)
							}
							return
						}
						c.Outcome("string-eaten")
						rest, eaten := st.m, st.m
						rest.from += len(w)
						eaten.to = eaten.from + len(w)
						add(rest, s, func() string { return st.how + op })
						add(eaten, e, func() string { return st.how + op + " eaten" })
					})
				}
				for _, r := range res {
					for nc := -1; nc <= r.caps+1; nc++ {
						r, nc := r, nc
						op := fmt.Sprintf(".EatRegexp(%s,%d)", r.re, nc)
						step(op, func() {
							s := st.s
							var e parser.Scanner
							ep := &e
							var caps []parser.Scanner
							if nc >= 0 {
								caps = make([]parser.Scanner, nc)
							} else if r.caps == 1 {
								ep = nil
							}
							cn, ok := s.EatRegexp(r.re, ep, caps)
							loc := r.re.FindStringSubmatchIndex(st.m.str())
							if ok != (loc != nil) {
								c.Fail(st.how+op, "%s%s is %v", st.how, op, ok)
								return
							}
							if !ok {
								c.Outcome("regexp-refused")
								if s != st.s || !e.IsNil() || cn != 0 {
									c.Fail(st.how+op, "%s%s fails but moves the scanner", st.how, op)
								}
								return
							}
							c.Outcome("regexp-eaten")
							rest, eaten := st.m, st.m
							rest.from += loc[1]
							eaten.to = eaten.from + loc[1]
							add(rest, s, func() string { return st.how + op })
							if ep != nil {
								add(eaten, e, func() string { return st.how + op + " match" })
							}
							want := r.caps
							if want > len(caps) {
								want = len(caps)
							}
							if cn != want {
								c.Fail(st.how+op, "%s%s sets %d captures", st.how, op, cn)
								return
							}
							for i, g := range caps {
								switch {
								case i >= cn || loc[2+2*i] < 0:
									if !g.IsNil() || g.String() != "" {
										c.Fail(st.how+op, "%s%s capture %d is set", st.how, op, i)
									}
								default:
									m := st.m
									m.from, m.to = st.m.from+loc[2+2*i], st.m.from+loc[3+2*i]
									add(m, g, func() string { return st.how + op + fmt.Sprintf(" capture %d", i) })
								}
							}
						})
					}
				}
				if !st.m.stripped {
					m := st.m
					m.stripped, m.base, m.end = true, m.from, m.to
					step(".StripSource()", func() { add(m, st.s.StripSource(), func() string { return st.how + ".StripSource()" }) })
				} else {
					m := st.m
					m.base, m.end = m.from, m.to
					step(".StripSource()", func() { add(m, st.s.StripSource(), func() string { return st.how + ".StripSource()" }) })
				}
			}
			c.OutcomeN("states", int64(len(states)))
			relations(c, states)
			c.Sample(func() string { return states[len(states)-1].how })
		})
	}
	// Scanners of different sources.
	x.KCase("sources against each other", func(c *eng.Ctx) {
		var states []scanState
		for _, src := range []source{{"ab", ""}, {"ab", "f"}, {"ab", "g"}, {"abc", ""}, {"ba", ""}, {"", ""}, {"", "f"}} {
			for i := 0; i <= len(src.text); i++ {
				for j := i; j <= len(src.text); j++ {
					m := span{text: src.text, file: src.file, from: i, to: j}
					s := *parser.NewScannerWithFilename(src.text, src.file).Slice(i, j)
					how := fmt.Sprintf("%q in %q [%d:%d]", src.text, src.file, i, j)
					states = append(states, scanState{m, s, how})
					m.stripped, m.base, m.end = true, i, j
					states = append(states, scanState{m, s.StripSource(), how + " stripped"})
				}
			}
		}
		relations(c, states)
	})
	x.KCase("nothing", func(c *eng.Ctx) {
		var s parser.Scanner
		if !s.IsNil() || s.String() != "" || s.Offset() != 0 {
			c.Fail("nil", "the scanner of nothing is not empty")
		}
		for f, want := range map[string]string{"%v": "", "%s": "", "%q": `""`} {
			if got := fmt.Sprintf(f, s); got != want {
				c.Fail("format "+f, "the scanner of nothing is written as %q", got)
			}
		}
		if _, err := parser.MergeScanners(); err == nil {
			c.Fail("merge", "merging no scanners is no error")
		}
	})
}

// relations checks what relates several scanners.
func relations(c *eng.Ctx, states []scanState) {
	merged := func(m []span, s []parser.Scanner, how string) {
		for _, o := range m[1:] {
			if o.stripped != m[0].stripped {
				return // as good as different sources, unless nothing was stripped
			}
		}
		c.Evals++
		var got parser.Scanner
		var err error
		if pv := eng.Try(func() { got, err = parser.MergeScanners(s...) }); pv != nil {
			c.Fail("merge "+how, "merging %s: panic: %v", how, pv)
			return
		}
		want := m[0]
		for _, o := range m[1:] {
			if !o.sameSource(m[0]) {
				if err == nil {
					c.Fail("merge "+how, "%s are of different sources, but merge to %q", how, got)
				}
				c.Outcome("not-merged")
				return
			}
			if o.from < want.from {
				want.from = o.from
			}
			if o.to > want.to {
				want.to = o.to
			}
		}
		c.Outcome("merged")
		if err != nil {
			c.Fail("merge "+how, "merging %s: %v", how, err)
		} else if got.Offset() != want.from || got.String() != want.str() {
			c.Fail("merge "+how, "%s merge to %q at %d instead of %q at %d", how, got, got.Offset(), want.str(), want.from)
		}
	}
	for i, a := range states {
		merged([]span{a.m}, []parser.Scanner{a.s}, a.how)
		for j, b := range states {
			how := a.how + " and " + b.how
			want := a.m.sameSource(b.m) && a.m.from <= b.m.from && b.m.to <= a.m.to
			var got bool
			if a.m.stripped != b.m.stripped {
				continue
			}
			c.Evals++
			if pv := eng.Try(func() { got = a.s.Contains(b.s) }); pv != nil {
				c.Fail("contains "+how, "Contains of %s: panic: %v", how, pv)
			} else if got != want {
				c.Fail("contains "+how, "Contains of %s is %v", how, got)
			}
			merged([]span{a.m, b.m}, []parser.Scanner{a.s, b.s}, how)
			if i <= j && len(states) < 60 {
				for _, d := range states[:i+1] {
					merged([]span{a.m, b.m, d.m}, []parser.Scanner{a.s, b.s, d.s}, how+" and "+d.how)
				}
			}
		}
	}
}
