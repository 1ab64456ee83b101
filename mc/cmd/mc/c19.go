package main

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/parser/diff"
	"github.com/arr-ai/wbnf/wbnf"

	"verif/mc/eng"
	"verif/mc/im"
	"verif/mc/vsched"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C19",
		Rule: "the sources are rewritten so that a scheduling point precedes every statement, and built with the race detector; every pair of operations that share a grammar (parsing, failing, making and rebuilding ASTs, writing out, compiling it again, comparing) or only the package (compiling texts, generating code) " +
			"is run in two goroutines under every schedule with one preemption at the first m occurrences of every point of the preempted one (thorough: also two preemptions): no schedule may show a data race or make an operation return anything but what it returns alone; turns are passed without happens-before edges, so that accesses kept apart only by the schedule count as races",
		Assumptions: []string{"preemptions are at statements of this module, not inside its dependencies", "at most two goroutines"},
		Gen:         genC19,
		Serial:      false,
	})
}

// shared is what two operations have in common.
type shared struct {
	r     *rich
	p     parser.Parsers
	tree  parser.TreeElement
	ast   ast.Branch
	text  string
	fail  error
	input *parser.Scanner
}

type task struct {
	name string
	run  func(s *shared) string
}

func sharedParse(s *shared, in string) string {
	te, err := s.p.ParseWithExternals(parser.Rule(s.r.rule), parser.NewScanner(in), worldExts)
	if err != nil {
		if u, ok := err.(parser.UnconsumedInputError); ok {
			return im.Show(u.Result()) + " left " + u.Residue().String()
		}
		return "error"
	}
	return im.Show(te)
}

func tasksOf(r *rich) []task {
	ts := []task{
		{"parse " + r.inputs[0], func(s *shared) string { return sharedParse(s, s.r.inputs[0]) }},
		{"parse " + r.inputs[1], func(s *shared) string { return sharedParse(s, s.r.inputs[1]) }},
		{"compile the grammar", func(s *shared) string {
			p := s.p.Grammar().Compile(s.p.Node())
			return sharedParse(&shared{r: s.r, p: p}, s.r.inputs[0])
		}},
		{"write the grammar", func(s *shared) string { return s.p.Grammar().String() }},
		{"compare the grammar", func(s *shared) string {
			return fmt.Sprint(diff.Grammars(s.p.Grammar(), s.p.Grammar()).Equal())
		}},
		{"write a scanner", func(s *shared) string {
			l, c := s.input.Position()
			return fmt.Sprint(s.input, l, c, s.input.Context(parser.DefaultLimit), s.input.Slice(0, 1), s.input.Skip(1))
		}},
		{"parse the shared source", func(s *shared) string {
			in := *s.input
			te, err := s.p.ParseWithExternals(parser.Rule(s.r.rule), &in, worldExts)
			return im.Show(te) + fmt.Sprint(err == nil)
		}},
	}
	if len(r.inputs) > 2 {
		ts = append(ts, task{"parse " + r.inputs[2], func(s *shared) string { return sharedParse(s, s.r.inputs[2]) }})
	}
	ts = append(ts,
		task{"make the AST", func(s *shared) string {
			if s.tree == nil {
				return ""
			}
			return showNode(ast.FromParserNode(s.p.Grammar(), s.tree))
		}},
		task{"rebuild the tree", func(s *shared) string {
			if s.ast == nil {
				return ""
			}
			return im.Show(ast.ToParserNode(s.p.Grammar(), s.ast))
		}},
		task{"write the AST", func(s *shared) string {
			if s.ast == nil {
				return ""
			}
			sc := s.ast.Scanner()
			return s.ast.String() + ast.BuildTreeView("x", s.ast, false) + fmt.Sprint(sc.Offset(), s.ast.ContentEquals(s.ast))
		}},
		task{"write the error", func(s *shared) string {
			if s.fail == nil {
				return ""
			}
			return s.fail.Error()
		}},
		task{"read the grammar's AST", func(s *shared) string {
			return showGrammar(wbnf.NewFromAst(s.p.Node().(wbnf.GrammarNode)))
		}},
		task{"generate code", func(s *shared) string { return generate(s.p, s.r.rule) }},
	)
	return ts
}

// The tasks that share nothing but the package.
func packageTasks() []task {
	compile := func(text string) task {
		return task{"compile " + text, func(s *shared) string {
			p, err := wbnf.Compile(text, nil)
			if err != nil {
				return "error: " + err.Error()
			}
			return showGrammar(p.Grammar())
		}}
	}
	return []task{
		compile(`a -> "x";`),
		compile(`.macro M(x) { x } a -> %!M("x") b { b -> "y"; };`),
		compile(`a -> @:"+" > /{\d};`),
		compile(`a -> b;`),
		{"parse a grammar", func(s *shared) string {
			te, err := wbnf.Core().Parse("grammar", parser.NewScanner(`a -> "x";`))
			if err != nil {
				return err.Error()
			}
			return showNode(ast.FromParserNode(wbnf.Core().Grammar(), te))
		}},
		{"compile the core grammar", func(s *shared) string {
			return showGrammar(wbnf.Grammar().Grammar()) + fmt.Sprint(len(wbnf.Core().Grammar().Compile(nil).Grammar()))
		}},
	}
}

// initial keeps what the package variables were when the program started.
var initial map[string]reflect.Value

func saveGlobals() {
	initial = map[string]reflect.Value{}
	for pkg, m := range globalsOf() {
		for name, ptr := range m.(map[string]any) {
			v := reflect.ValueOf(ptr).Elem()
			keep := reflect.New(v.Type()).Elem()
			keep.Set(v)
			if v.Kind() == reflect.Map && !v.IsNil() {
				c := reflect.MakeMap(v.Type())
				for it := v.MapRange(); it.Next(); {
					c.SetMapIndex(it.Key(), it.Value())
				}
				keep.Set(c)
			}
			initial[pkg+"."+name] = keep
		}
	}
}

// resetGlobals undoes lazy initialisations, so that they happen in every
// execution.
func resetGlobals() {
	for pkg, m := range globalsOf() {
		for name, ptr := range m.(map[string]any) {
			v, was := reflect.ValueOf(ptr).Elem(), initial[pkg+"."+name]
			if v.Kind() == reflect.Map && !was.IsNil() {
				c := reflect.MakeMap(v.Type())
				for it := was.MapRange(); it.Next(); {
					c.SetMapIndex(it.Key(), it.Value())
				}
				v.Set(c)
				continue
			}
			v.Set(was)
		}
	}
}

func raceLog() string {
	var out []string
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			b, err := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
			if err == nil {
				for _, l := range strings.Split(string(bytes.TrimSpace(b)), "\n") {
					if strings.Contains(l, "()") || strings.HasPrefix(l, "Write") || strings.HasPrefix(l, "Read") || strings.HasPrefix(l, "Previous") {
						out = append(out, strings.TrimSpace(l))
					}
				}
			}
		}
	}
	if len(out) > 14 {
		out = out[:14]
	}
	return strings.Join(out, "\n")
}

// candidates lists the steps at which a task that passes some points is
// preempted: the first m occurrences of every point.
func candidates(trace []int32, m int) []int {
	seen := map[int32]int{}
	var out []int
	for i, id := range trace {
		if seen[id] < m {
			seen[id]++
			out = append(out, i+1)
		}
	}
	return out
}

func schedules(c *eng.Ctx, fresh func() *shared, a, b task, m int, two bool) {
	runtime.GOMAXPROCS(1)
	if !vsched.Race {
		panic("not built with the race detector")
	}
	var want [2]string
	var cands [2][]int
	for i, t := range []task{a, b} {
		resetGlobals()
		s := fresh()
		if pv := eng.Try(func() { want[i] = t.run(s) }); pv != nil {
			want[i] = "panic"
			c.Outcome("panics alone: " + t.name)
		}
		resetGlobals()
		s = fresh()
		var tr []int32
		eng.Try(func() { tr = vsched.Trace(func() { eng.Try(func() { t.run(s) }) }) })
		if len(tr) == 0 && !strings.HasPrefix(t.name, "write") {
			if want[i] != "" {
				panic(t.name + ": not an instrumented build")
			}
		}
		cands[i] = candidates(tr, m)
		c.States += int64(len(tr))
	}
	exec := func(plan []int, first int) bool {
		resetGlobals()
		s := fresh()
		ts := [2]task{a, b}
		if first == 1 {
			ts[0], ts[1] = b, a
		}
		var got [2]string
		races := vsched.Races()
		vsched.Run(append([]int{}, plan...), [2]func(){
			func() {
				if eng.Try(func() { got[0] = ts[0].run(s) }) != nil {
					got[0] = "panic"
				}
			},
			func() {
				if eng.Try(func() { got[1] = ts[1].run(s) }) != nil {
					got[1] = "panic"
				}
			},
		})
		c.Evals++
		c.Traces++
		c.Transitions += int64(len(plan))
		sub := fmt.Sprintf("%s, preempted at %v by %s", ts[0].name, plan, ts[1].name)
		if n := vsched.Races() - races; n > 0 {
			c.Fail(sub, "data race: %s", raceLog())
			return false
		}
		if first == 1 {
			got[0], got[1] = got[1], got[0]
		}
		for i, t := range []task{a, b} {
			if got[i] != want[i] {
				c.Fail(sub, "%s returns something else than alone: %s", t.name, firstDiff(want[i], got[i]))
				return false
			}
		}
		return true
	}
	for first := 0; first < 2; first++ {
		if first == 1 && a.name == b.name {
			break
		}
		if !exec(nil, first) {
			return
		}
		for _, k := range cands[first] {
			if !exec([]int{k}, first) {
				return
			}
			if two {
				for _, l := range cands[1-first] {
					if !exec([]int{k, l}, first) {
						return
					}
				}
			}
		}
	}
	c.OutcomeN("blocked", int64(vsched.Blocked))
	vsched.Blocked = 0
	c.Outcome("pair")
}

func genC19(x *eng.Gen) {
	if globalsOf == nil {
		panic("not an instrumented build")
	}
	saveGlobals()
	m := 1
	if x.Thorough {
		m = 3
	}
	for i := range richList {
		r := &richList[i]
		if r.files != nil || len(r.text) > 1500 {
			continue
		}
		ts := tasksOf(r)
		for i := range ts {
			for j := i; j < len(ts); j++ {
				if !x.Thorough && i >= 2 && i != j {
					continue // each with itself, and with parsing
				}
				a, b := ts[i], ts[j]
				x.KCase(fmt.Sprintf("%s: %s || %s", r.name, a.name, b.name), func(c *eng.Ctx) {
					p0, err := r.compile("")
					if err != nil {
						c.Fail("compile", "%v", err)
						return
					}
					fresh := func() *shared {
						p := p0.Grammar().Compile(p0.Node())
						s := &shared{r: r, p: p}
						in := "  " + r.inputs[0] + "\n"
						s.input = parser.NewScannerWithFilename(in, "f").Slice(2, 2+len(r.inputs[0]))
						s.tree, _ = p.ParseWithExternals(parser.Rule(r.rule), parser.NewScanner(r.inputs[0]), worldExts)
						if s.tree != nil {
							s.ast = ast.FromParserNode(p.Grammar(), s.tree)
						}
						_, s.fail = p.ParseWithExternals(parser.Rule(r.rule), parser.NewScanner(r.inputs[1]), worldExts)
						return s
					}
					schedules(c, fresh, a, b, m, x.Thorough && i < 2 && j < 3)
				})
			}
		}
	}
	ts := packageTasks()
	for i := range ts {
		for j := i; j < len(ts); j++ {
			a, b := ts[i], ts[j]
			x.KCase(fmt.Sprintf("%s || %s", a.name, b.name), func(c *eng.Ctx) {
				schedules(c, func() *shared { return &shared{} }, a, b, m, false)
			})
		}
	}
}
