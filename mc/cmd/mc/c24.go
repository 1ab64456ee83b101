package main

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"

	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Check{
		ID: "C24",
		Rule: "the real command is built and run in every combination of: a file tree (valid grammars, nested imports, every kind of invalid grammar, broken, missing, cyclic imports, missing or unreadable grammars), working directories and spellings of the paths, start rules, options, sources of the input, destinations of the output, and faults of the environment (directories and full devices as files, closed streams, files that cannot grow beyond a limit, for every limit): " +
			"it must succeed exactly if nothing is wrong, with the whole output in the right place and nothing else changed, and otherwise fail with a message, leaving all files alone",
		Assumptions: []string{"the library (checked on its own) says what is a valid grammar and what trees look like"},
		Gen:         genC24,
	})
}

// command builds the wbnf command from /repo, once for all workers.
func command(work string) (string, error) {
	bin := filepath.Join(work, "wbnf")
	lock, err := os.OpenFile(bin+".lock", os.O_CREATE|os.O_RDWR, 0o600)
	if err != nil {
		return "", err
	}
	defer lock.Close()
	if err := syscall.Flock(int(lock.Fd()), syscall.LOCK_EX); err != nil {
		return "", err
	}
	if _, err := os.Stat(bin); err == nil {
		return bin, nil
	}
	c := exec.Command("go", "build", "-buildvcs=false", "-o", bin, "github.com/arr-ai/wbnf")
	c.Dir = filepath.Join(os.Getenv("VERIF_ROOT"), "mc")
	if out, err := c.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building the command: %v\n%s", err, head2(string(out)))
	}
	return bin, nil
}

// cliWorld is a file tree with a grammar.
type cliWorld struct {
	name   string
	files  map[string]string // those that end in "/" are directories
	main   string
	start  string
	inputs []string
}

var cliWorlds = []cliWorld{
	{"simple", map[string]string{"g.wbnf": `a -> "x" b?; b -> "y"+ | c; c -> "z" n="w";`}, "g.wbnf", "a", []string{"x", "xyy", "xzw", "xzz", "q", ""}},
	{"lines", map[string]string{"g.wbnf": "// things\n.wrapRE -> /{\\s*()\\s*};\na -> n=/{\\w+}:op=\",\" \";\";\n"}, "g.wbnf", "a", []string{"x , yy,\nz;", "x\n,\ny", "x;\n\ny", "é;"}},
	{"imports", map[string]string{"g.wbnf": ".import d/e.wbnf\na -> b c?;", "d/e.wbnf": ".import ./f/h.wbnf\n.import ../k.wbnf\nb -> \"x\" d;", "d/f/h.wbnf": `c -> "z";`, "k.wbnf": `d -> "y";`}, "g.wbnf", "a", []string{"xy", "xyz", "x"}},
	{"cycle", map[string]string{"g.wbnf": ".import e.wbnf\na -> b;", "e.wbnf": ".import g.wbnf\nb -> \"x\";"}, "g.wbnf", "a", []string{"x"}},
	{"scope", map[string]string{"g.wbnf": `a -> b:"," { b -> /{\d}; }; e -> @:op="+" > "(" @ ")" | a;`}, "g.wbnf", "e", []string{"1,2", "1+(2,3)", "(1"}},
	{"malformed", map[string]string{"g.wbnf": `a -> "x`}, "g.wbnf", "a", []string{"x"}},
	{"undefined", map[string]string{"g.wbnf": `a -> b;`}, "g.wbnf", "a", []string{"x"}},
	{"left recursion", map[string]string{"g.wbnf": `a -> a "x" | "y";`}, "g.wbnf", "a", []string{"x"}},
	{"bad regexp", map[string]string{"g.wbnf": `a -> /{(};`}, "g.wbnf", "a", []string{"x"}},
	{"empty", map[string]string{"g.wbnf": ``}, "g.wbnf", "a", []string{"x"}},
	{"missing import", map[string]string{"g.wbnf": ".import e.wbnf\na -> b;"}, "g.wbnf", "a", []string{"x"}},
	{"directory import", map[string]string{"g.wbnf": ".import e.wbnf\na -> b;", "e.wbnf/": ""}, "g.wbnf", "a", []string{"x"}},
	{"malformed import", map[string]string{"g.wbnf": ".import d/e.wbnf\na -> b;", "d/e.wbnf": "b -> ;"}, "g.wbnf", "a", []string{"x"}},
	{"invalid import", map[string]string{"g.wbnf": ".import d/e.wbnf\na -> b;", "d/e.wbnf": "b -> c;"}, "g.wbnf", "a", []string{"x"}},
	{"deep missing import", map[string]string{"g.wbnf": ".import d/e.wbnf\na -> b;", "d/e.wbnf": ".import f.wbnf\nb -> c;", "f.wbnf": `c -> "x";`}, "g.wbnf", "a", []string{"x"}},
	{"no grammar", map[string]string{}, "g.wbnf", "a", []string{"x"}},
	{"directory", map[string]string{"g.wbnf/": ""}, "g.wbnf", "a", []string{"x"}},
}

// fileResolver is the resolver of imports, written anew.
type fileResolver struct{ dir string }

func (r fileResolver) Resolve(from, file string) string {
	if from == "" {
		return filepath.Join(r.dir, file)
	}
	return filepath.Join(filepath.Dir(from), file)
}

// place makes the files of a world under dir.
func (w *cliWorld) place(dir string) {
	must(os.RemoveAll(dir))
	must(os.MkdirAll(filepath.Join(dir, "sub", "sub"), 0o755))
	for f, text := range w.files {
		p := filepath.Join(dir, f)
		if strings.HasSuffix(f, "/") {
			must(os.MkdirAll(p, 0o755))
			continue
		}
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, []byte(text), 0o644))
	}
	w.decoys(filepath.Join(dir, "sub"))
	w.decoys(filepath.Join(dir, "sub", "sub"))
}

// decoys makes grammars with the names of all files, for those who look in the
// wrong directory.
func (w *cliWorld) decoys(dir string) {
	names := []string{"e.wbnf", "f.wbnf", "d/e.wbnf", "f/h.wbnf", "h.wbnf", "k.wbnf"}
	for f := range w.files {
		if !strings.HasSuffix(f, "/") {
			names = append(names, f, filepath.Base(f))
		}
	}
	for _, f := range names {
		p := filepath.Join(dir, f)
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, []byte(`a -> "decoy"; b -> "decoy"; c -> "decoy"; d -> "decoy"; e -> "decoy";`), 0o644))
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// compile says what the grammar is, nil if there is none.
func (w *cliWorld) compile() parser.Parsers {
	dir, err := os.MkdirTemp("", "mcw")
	must(err)
	defer os.RemoveAll(dir)
	w.place(dir)
	b, err := os.ReadFile(filepath.Join(dir, w.main))
	if err != nil {
		return parser.Parsers{}
	}
	var p parser.Parsers
	if pv := eng.Try(func() { p, err = wbnf.Compile(string(b), fileResolver{dir}) }); pv != nil || err != nil {
		return parser.Parsers{}
	}
	return p
}

// tree lists all files under dir.
func tree(dir string) map[string]string {
	out := map[string]string{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		must(err)
		rel, _ := filepath.Rel(dir, p)
		if d.IsDir() {
			out[rel+"/"] = ""
			return nil
		}
		b, err := os.ReadFile(p)
		must(err)
		out[rel] = string(b)
		return nil
	})
	return out
}

func treeDiff(a, b map[string]string, except string) string {
	var out []string
	for f, s := range a {
		if t, ok := b[f]; f != except && !ok {
			out = append(out, f+" is gone")
		} else if f != except && s != t {
			out = append(out, f+" has changed")
		}
	}
	for f := range b {
		if _, ok := a[f]; !ok && f != except {
			out = append(out, f+" is new")
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// run is one run of the command.
type cliRun struct {
	cwd    string
	args   []string
	stdin  string // "", "text:..." or a file
	stdout string // "pipe", "closed", "file:..." or a device
	limit  int    // of the size of files, -1 for none
}

type cliResult struct {
	code        int
	out, errOut string
	killed      bool
}

func (r *cliRun) String() string {
	s := fmt.Sprintf("in %s: wbnf %q", r.cwd, r.args)
	if r.stdin != "" {
		s += fmt.Sprintf(" <%q", r.stdin)
	}
	if r.stdout != "pipe" {
		s += " >" + r.stdout
	}
	if r.limit >= 0 {
		s += fmt.Sprintf(", with files limited to %d bytes", r.limit)
	}
	return s
}

func (r *cliRun) run(bin string) (res cliResult) {
	// The shell closes streams and prlimit sets limits, both then become the command.
	script := `exec "$@"`
	if r.stdout == "closed" {
		script += ` >&-`
	}
	argv := []string{"-c", script, "sh"}
	if r.limit >= 0 {
		argv = append(argv, "prlimit", fmt.Sprintf("--fsize=%d", r.limit))
	}
	c := exec.Command("/bin/sh", append(append(argv, bin), r.args...)...)
	c.Dir = r.cwd
	c.Env = []string{"HOME=/nonexistent", "PATH=/usr/bin:/bin", "LC_ALL=C"}
	var out, errOut bytes.Buffer
	c.Stdout, c.Stderr = &out, &errOut
	switch {
	case strings.HasPrefix(r.stdin, "text:"):
		c.Stdin = strings.NewReader(r.stdin[5:])
	case r.stdin == "":
	default:
		f, err := os.Open(r.stdin)
		must(err)
		defer f.Close()
		c.Stdin = f
	}
	outFile := ""
	switch {
	case r.stdout == "pipe" || r.stdout == "closed":
	case strings.HasPrefix(r.stdout, "file:"):
		outFile = r.stdout[5:]
		f, err := os.Create(outFile)
		must(err)
		defer f.Close()
		c.Stdout = f
	default:
		f, err := os.OpenFile(r.stdout, os.O_WRONLY, 0)
		must(err)
		defer f.Close()
		c.Stdout = f
	}
	err := c.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		panic(err)
	}
	res = cliResult{code: c.ProcessState.ExitCode(), out: out.String(), errOut: errOut.String()}
	res.killed = res.code < 0
	if outFile != "" {
		b, err := os.ReadFile(outFile)
		must(err)
		res.out = string(b)
	}
	return res
}

var ansiRE = regexp.MustCompile(`(?s)^time="[^"]*" level=fatal msg=("(?:[^"\\]|\\.)*"|\S*)\n$`)

// message is what a failed run says.
func (r cliResult) message() string {
	m := ansiRE.FindStringSubmatch(lastLine(r.errOut))
	if m == nil {
		return r.errOut
	}
	if s, err := strconv.Unquote(m[1]); err == nil {
		return s
	}
	return m[1]
}

func lastLine(s string) string {
	t := strings.TrimSuffix(s, "\n")
	return s[strings.LastIndexByte(t, '\n')+1:]
}

// failed checks that a run has failed properly.
func (r cliResult) failed(c *eng.Ctx, run *cliRun, why string) {
	c.Outcome("fails: " + why)
	if r.code == 0 {
		c.Fail(run.String(), "%s: exits 0, but %s", run, why)
	} else if r.killed {
		c.Fail(run.String(), "%s: is killed when %s", run, why)
	} else if r.errOut == "" && r.out == "" {
		c.Fail(run.String(), "%s: fails without a message when %s", run, why)
	}
}

// spelling is a way to name a file.
type spelling struct {
	name, cwd, prefix string
}

var spellings = []spelling{
	{"same directory", "", ""},
	{"dot", "", "./"},
	{"absolute", "/", "ABS/"},
	{"from below", "sub/sub", "../../"},
	{"from above", "..", "BASE/"},
	{"roundabout", "", "sub/../sub/sub/../../"},
}

func (s spelling) apply(dir string) (cwd, prefix string) {
	prefix = strings.ReplaceAll(strings.ReplaceAll(s.prefix, "ABS", dir), "BASE", filepath.Base(dir))
	if s.cwd == "/" {
		return "/", prefix
	}
	return filepath.Join(dir, s.cwd), prefix
}

func genC24(x *eng.Gen) {
	var bin string
	need := func(c *eng.Ctx) (dir string) {
		if bin == "" {
			var err error
			bin, err = command(c.Work)
			must(err)
		}
		dir, err := os.MkdirTemp("", "mcw")
		must(err)
		return dir
	}
	worlds := append([]cliWorld(nil), cliWorlds...)
	for i := range richList {
		r := &richList[i]
		if r.name == "external" {
			continue
		}
		w := cliWorld{"rich " + r.name, map[string]string{"g.wbnf": r.text}, "g.wbnf", r.rule, r.inputs}
		for f, text := range r.files {
			w.files[f] = text
		}
		worlds = append(worlds, w)
	}
	for wi := range worlds {
		w := &worlds[wi]
		deep := wi < len(cliWorlds)
		for si := range spellings {
			s := spellings[si]
			if !deep && si > 0 {
				break
			}
			for di, base := range []string{"base", "sp ace", "é=", "new\nline", "-dash", "quo\"te`"} {
				if di > 0 && (si != 4 && si != 2 || wi != 0 && wi != 2) {
					break
				}
				x.Case(func() string { return fmt.Sprintf("gen %s, %s, %q", w.name, s.name, base) }, func(c *eng.Ctx) {
					top := need(c)
					defer os.RemoveAll(top)
					w.gen(c, bin, filepath.Join(top, base), s, deep)
				})
				x.Case(func() string { return fmt.Sprintf("test %s, %s, %q", w.name, s.name, base) }, func(c *eng.Ctx) {
					top := need(c)
					defer os.RemoveAll(top)
					w.test(c, bin, filepath.Join(top, base), s, deep)
				})
			}
		}
	}
	for wi := range worlds {
		w := &worlds[wi]
		if wi >= 3 && !x.Thorough {
			break
		}
		for part := 0; part < 8; part++ {
			part := part
			x.Case(func() string { return fmt.Sprintf("limits %s, %d", w.name, part) }, func(c *eng.Ctx) {
				top := need(c)
				defer os.RemoveAll(top)
				w.limits(c, bin, filepath.Join(top, "base"), part)
			})
		}
	}
	x.KCase("options", func(c *eng.Ctx) {
		top := need(c)
		defer os.RemoveAll(top)
		cliOptions(c, bin, filepath.Join(top, "base"))
	})
}

// reference is what gen writes for the world, apart from the command line.
func (w *cliWorld) reference(bin, dir, start string) (string, bool) {
	r := &cliRun{cwd: dir, args: []string{"gen", "--grammar", w.main, "--start", start, "--pkg", "p"}, stdout: "pipe", limit: -1}
	res := r.run(bin)
	if res.code != 0 {
		return "", false
	}
	return withoutCommand(res.out), true
}

// withoutCommand leaves out the second line, which tells the command.
func withoutCommand(s string) string {
	lines := strings.SplitN(s, "\n", 3)
	if len(lines) < 3 || !strings.HasPrefix(lines[1], "// $ wbnf ") {
		return s
	}
	return lines[0] + "\n" + lines[2]
}

func (w *cliWorld) gen(c *eng.Ctx, bin, dir string, s spelling, deep bool) {
	w.place(dir)
	w.decoys(filepath.Dir(dir))
	cwd, prefix := s.apply(dir)
	p := w.compile()
	valid := p.Grammar() != nil
	starts := []string{w.start}
	if deep {
		starts = append(starts, "nowhere", "")
		if valid && s.name == "same directory" {
			for r := range p.Grammar() {
				if string(r) != w.start && !strings.ContainsAny(string(r), ".@") {
					starts = append(starts, string(r))
				}
			}
			sort.Strings(starts[3:])
		}
	}
	for _, start := range starts {
		var ref string
		good := valid && p.HasRule(parser.Rule(start)) && start != ""
		if good {
			w.place(dir)
			var ok bool
			if ref, ok = w.reference(bin, dir, start); !ok {
				c.Fail(start, "gen fails for the start rule %s of %s", start, w.name)
				return
			}
			if ck, err := typecheck(ref); err != nil || ck.file.Name.Name != "p" {
				c.Fail(start, "gen writes code for the start rule %s of %s that isn't a package: %v", start, w.name, err)
				return
			}
		}
		for _, out := range []string{"", "-", "new.go", "old.go", "long.go", "sub", "sub/sub/x.go", "none/x.go", "/dev/full", "/dev/null"} {
			for _, stdout := range []string{"pipe", "/dev/full", "closed"} {
				if stdout == "closed" && w.name != "simple" || stdout != "pipe" && !good {
					continue
				}
				w.place(dir)
				must(os.WriteFile(filepath.Join(dir, "old.go"), []byte("package old\n"), 0o644))
				must(os.WriteFile(filepath.Join(dir, "long.go"), bytes.Repeat([]byte("// long\n"), 20000), 0o644))
				before := tree(dir)
				args := []string{"gen", "--grammar", prefix + w.main, "--start", start, "--pkg", "p"}
				toStdout := out == "" || out == "-"
				path := out
				if !toStdout && out[0] != '/' {
					path = prefix + out
				}
				if out != "" {
					args = append(args, "--output", path)
				}
				if prefix != "" && prefix[0] == '-' {
					// Names like flags are given with an equals sign.
					args[1], args = "--grammar="+args[2], append(args[:2], args[3:]...)
					args[1] = "--grammar=" + prefix + w.main
					if out != "" {
						args = append(args[:len(args)-2], "--output="+path)
					}
				}
				run := &cliRun{cwd: cwd, args: args, stdout: stdout, limit: -1}
				res := run.run(bin)
				c.Traces++
				c.States++
				after := tree(dir)
				wrong := ""
				switch {
				case !valid:
					wrong = "the grammar is not valid"
				case !good:
					wrong = "there is no such start rule"
				}
				if wrong != "" {
					res.failed(c, run, wrong)
					if d := treeDiff(before, after, ""); d != "" {
						c.Fail(run.String(), "%s: %s, but %s", run, wrong, d)
					}
					continue
				}
				except := ""
				switch {
				case toStdout && stdout == "closed":
					continue // the runtime stands in for closed streams
				case toStdout && stdout != "pipe":
					wrong = "standard output can't be written"
				case out == "sub" || out == "none/x.go" || out == "/dev/full":
					wrong = "the output can't be written"
				case !toStdout && out[0] != '/':
					except = out
				}
				if d := treeDiff(before, after, except); d != "" {
					c.Fail(run.String(), "%s: %s", run, d)
				}
				if wrong != "" {
					res.failed(c, run, wrong)
					continue
				}
				c.Outcome("generates")
				if res.code != 0 {
					c.Fail(run.String(), "%s: exits %d: %s", run, res.code, res.errOut)
					continue
				}
				got := after[out]
				if toStdout {
					got = res.out
				} else if stdout == "pipe" && res.out != "" {
					c.Fail(run.String(), "%s: writes to standard output as well: %s", run, head2(res.out))
				}
				if out != "/dev/null" && withoutCommand(got) != ref {
					c.Fail(run.String(), "%s: writes %s", run, head2(got))
				}
			}
		}
	}
}

func (w *cliWorld) test(c *eng.Ctx, bin, dir string, s spelling, deep bool) {
	w.place(dir)
	w.decoys(filepath.Dir(dir))
	cwd, prefix := s.apply(dir)
	p := w.compile()
	valid := p.Grammar() != nil
	starts := []string{w.start, "nowhere", ""}
	if !deep {
		starts = starts[:1]
	}
	for _, start := range starts {
		for _, in := range w.inputs {
			w.place(dir)
			must(os.WriteFile(filepath.Join(dir, "in.txt"), []byte(in), 0o644))
			before := tree(dir)
			var wantErr error
			var wantOut, wantTree, msg string
			wrong := ""
			switch {
			case !valid:
				wrong = "the grammar is not valid"
			case start == "" || !p.HasRule(parser.Rule(start)):
				wrong = "there is no such start rule"
			}
			for _, source := range []string{"in.txt", "stdin", "-", "stdin file", "none.txt", "sub", "stdin directory"} {
				bad := source == "none.txt" || source == "sub" || source == "stdin directory"
				if bad && in != w.inputs[0] {
					continue
				}
				args := []string{"test", "--grammar=" + prefix + w.main, "--start=" + start}
				stdin, name := "", ""
				switch source {
				case "stdin":
					stdin = "text:" + in
				case "-":
					stdin, name = "text:"+in, "-"
				case "stdin file":
					stdin = filepath.Join(dir, "in.txt")
				case "stdin directory":
					stdin = dir
				default:
					name = prefix + source
				}
				if name != "" {
					args = append(args, "--input="+name)
				}
				if wrong == "" && !bad {
					// What the library says.
					var te parser.TreeElement
					te, wantErr = p.Parse(parser.Rule(start), parser.NewScannerWithFilename(in, name))
					if u, ok := wantErr.(parser.UnconsumedInputError); ok {
						te = u.Result()
					}
					wantOut, wantTree, msg = "", "", ""
					if te != nil {
						a := ast.FromParserNode(p.Grammar(), te)
						wantOut = fmt.Sprintln(a)
						wantTree = fmt.Sprintln(ast.BuildTreeView(start, a, true))
					}
					if wantErr != nil {
						msg = wantErr.Error()
					}
				}
				for flags := 0; flags < 4; flags++ {
					for _, stdout := range []string{"pipe", "/dev/full", "closed"} {
						if (wrong != "" || bad || source != "in.txt" && !c.Thorough()) && (flags > 0 || stdout != "pipe") {
							continue
						}
						if stdout == "closed" && w.name != "simple" {
							continue
						}
						args := append([]string(nil), args...)
						want := wantOut
						if flags&1 != 0 {
							args = append(args, "--tree")
							want = wantTree
						}
						if flags&2 != 0 {
							args = append(args, "-v")
						}
						run := &cliRun{cwd: cwd, args: args, stdin: stdin, stdout: stdout, limit: -1}
						res := run.run(bin)
						c.Traces++
						c.States++
						if d := treeDiff(before, tree(dir), ""); d != "" {
							c.Fail(run.String(), "%s: %s", run, d)
						}
						switch {
						case wrong != "":
							res.failed(c, run, wrong)
							continue
						case bad:
							res.failed(c, run, "the input can't be read")
							continue
						case stdout == "closed":
							continue // the runtime stands in for closed streams
						case stdout != "pipe" && want != "":
							res.failed(c, run, "standard output can't be written")
							continue
						}
						if (res.code == 0) != (wantErr == nil) || res.killed {
							c.Fail(run.String(), "%s: exits %d (%s), parsing gives %v", run, res.code, res.errOut, wantErr)
						}
						if res.out != want && stdout == "pipe" {
							c.Fail(run.String(), "%s: writes %q, want %q", run, res.out, want)
						}
						if wantErr != nil {
							c.Outcome("refuses the input")
							if got := res.message(); got != msg {
								c.Fail(run.String(), "%s: says %q, want %q", run, got, msg)
							}
						} else {
							c.Outcome("parses")
						}
					}
				}
			}
		}
	}
	// The grammar as the input.
	for _, flags := range [][]string{nil, {"--tree"}} {
		w.place(dir)
		before := tree(dir)
		run := &cliRun{cwd: cwd, args: append([]string{"test", "--input=" + prefix + w.main}, flags...), stdout: "pipe", limit: -1}
		res := run.run(bin)
		c.Traces++
		c.States++
		if d := treeDiff(before, tree(dir), ""); d != "" {
			c.Fail(run.String(), "%s: %s", run, d)
		}
		if !valid {
			res.failed(c, run, "the grammar is not valid")
			continue
		}
		n := p.Node().(wbnf.GrammarNode).Node
		want := fmt.Sprintln(n)
		if flags != nil {
			want = fmt.Sprintln(ast.BuildTreeView("grammar", n, true))
		}
		if res.code != 0 || res.out != want {
			c.Fail(run.String(), "%s: exits %d and writes %q, want %q", run, res.code, res.out, want)
		}
		c.Outcome("shows the grammar")
	}
}

// limits runs the command with every limit of the size of its output.
func (w *cliWorld) limits(c *eng.Ctx, bin, dir string, part int) {
	p := w.compile()
	if p.Grammar() == nil {
		return
	}
	w.place(dir)
	in := w.inputs[0]
	must(os.WriteFile(filepath.Join(dir, "in.txt"), []byte(in), 0o644))
	gen := []string{"gen", "--grammar", w.main, "--start", w.start, "--pkg", "p"}
	for i, args := range [][]string{
		append(gen[:len(gen):len(gen)], "--output", "out.go"), gen,
		{"test", "--grammar", w.main, "--start", w.start, "--input", "in.txt"},
		{"test", "--grammar", w.main, "--start", w.start, "--input", "in.txt", "--tree"},
		{"test", "--input", w.main},
		{"test", "--input", w.main, "--tree"},
	} {
		file := filepath.Join(dir, "out.go")
		do := func(limit int) (cliResult, *cliRun) {
			os.Remove(file)
			run := &cliRun{cwd: dir, args: args, stdout: "file:" + file, limit: limit}
			if i == 0 {
				run.stdout = "pipe"
			}
			res := run.run(bin)
			c.Traces++
			c.States++
			if i == 0 {
				b, _ := os.ReadFile(file)
				res.out = string(b)
			}
			return res, run
		}
		ref, _ := do(-1)
		if ref.code != 0 {
			continue // what the input is like is checked elsewhere
		}
		step := 1
		if n := len(ref.out); !c.Thorough() {
			step = n/80 + 1
		}
		var limits []int
		for k := 0; k < len(ref.out); k += step {
			limits = append(limits, k)
		}
		limits = append(limits, len(ref.out)-1, len(ref.out), len(ref.out)+1)
		for n, k := range limits {
			if n%8 != part {
				continue
			}
			res, run := do(k)
			if k >= len(ref.out) {
				if res.code != 0 || res.out != ref.out {
					c.Fail(run.String(), "%s: exits %d after %d of %d bytes", run, res.code, len(res.out), len(ref.out))
				}
				c.Outcome("fits")
				continue
			}
			res.failed(c, run, "the output is cut off")
		}
	}
}

// cliOptions runs the command with options that are missing, unknown or bad.
func cliOptions(c *eng.Ctx, bin, dir string) {
	w := &cliWorlds[0]
	w.place(dir)
	must(os.WriteFile(filepath.Join(dir, "in.txt"), []byte("x"), 0o644))
	before := tree(dir)
	check := func(good bool, args ...string) {
		run := &cliRun{cwd: dir, args: args, stdout: "pipe", limit: -1}
		res := run.run(bin)
		c.Traces++
		c.States++
		if d := treeDiff(before, tree(dir), ""); d != "" {
			c.Fail(run.String(), "%s: %s", run, d)
		}
		if !good {
			res.failed(c, run, "the options are bad")
		} else if res.code != 0 || res.out == "" {
			c.Fail(run.String(), "%s: exits %d: %s", run, res.code, res.errOut)
		}
	}
	// Every subset of the options of gen, test.
	opts := [][]string{{"--grammar", "g.wbnf"}, {"--start", "a"}, {"--pkg", "p"}, {"--output", "-"}, {"--nonsense"}}
	for _, name := range []string{"gen", "g"} {
		for set := 0; set < 32; set++ {
			args := []string{name}
			for i, o := range opts {
				if set>>i&1 != 0 {
					args = append(args, o...)
				}
			}
			check(set&7 == 7 && set&16 == 0, args...)
		}
	}
	opts = [][]string{{"--grammar", "g.wbnf"}, {"--start", "a"}, {"--input", "in.txt"}, {"-v"}, {"--tree"}, {"--nonsense"}}
	for _, name := range []string{"test", "t"} {
		for set := 0; set < 64; set++ {
			args := []string{name}
			for i, o := range opts {
				if set>>i&1 != 0 {
					args = append(args, o...)
				}
			}
			check(set&7 == 7 && set&32 == 0, args...)
		}
	}
	for _, pkg := range []string{"p", "main", "ast", "parser", "_p", "é", "1p", "a-b", "", "func", "a b", "p;x", "p\nfunc f() {}\n"} {
		good := pkg != "" && !strings.ContainsAny(pkg, "- ;\n") && pkg != "1p" && pkg != "func"
		check(good, "gen", "--grammar", "g.wbnf", "--start", "a", "--pkg", pkg)
	}
	check(true, "--help")
	check(true, "--version")
	check(true, "gen", "--help")
	check(true, "test", "--help")
}
