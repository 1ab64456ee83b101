// Package eng is the exhaustive-exploration runner shared by every check.
//
// A check enumerates a finite, deterministic list of cases. Worker processes
// (shards) walk the same list and run the cases whose index is theirs. A case
// that panics, overflows its stack, exhausts memory or does not come back is a
// violation just like a wrong answer: the parent process sees which case was
// running and re-runs it alone to confirm.
package eng

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check decides one property.
type Check struct {
	ID          string
	Rule        string   // what is enumerated, against which model
	Assumptions []string // what is trusted
	Bounds      map[string]string
	Gen         func(*Gen)
	Hang        time.Duration // per-case limit; 0 = default
	Serial      bool          // single worker
}

var registry []*Check

func Register(c *Check) { registry = append(registry, c) }

// Gen hands out cases.
type Gen struct {
	Thorough bool
	Seed     int64
	Work     string // scratch directory of this run (removed afterwards)

	idx     int64
	w       *worker
	stopped bool
}

// Case declares the next case. key must be stable and unique.
func (g *Gen) Case(key func() string, run func(*Ctx)) {
	i := g.idx
	g.idx++
	if g.stopped {
		return
	}
	g.w.maybe(g, i, key, run)
}

func (g *Gen) KCase(key string, run func(*Ctx)) { g.Case(func() string { return key }, run) }

// Full reports whether enumeration may stop early.
func (g *Gen) Stopped() bool { return g.stopped }

// Ctx collects what one case covered.
type Ctx struct {
	States, Transitions, Traces, Evals int64
	Work                               string
	g                                  *Gen
	key                                func() string
	fails                              []Violation
	r                                  *result
}

type Violation struct {
	Property string `json:"property"`
	Index    int64  `json:"index"`
	Case     string `json:"case"`
	Sub      string `json:"sub"`
	Message  string `json:"message"`
	Repro    string `json:"reproduced,omitempty"`
}

func (c *Ctx) Thorough() bool { return c.g.Thorough }

func (c *Ctx) Fail(sub, format string, args ...any) {
	if len(c.fails) >= 3 {
		return
	}
	c.fails = append(c.fails, Violation{Sub: sub, Message: fmt.Sprintf(format, args...)})
}

func (c *Ctx) Failed() bool { return len(c.fails) > 0 }

// Outcome counts a kind of observed result (non-vacuity evidence).
func (c *Ctx) Outcome(kind string) { c.r.Outcomes[kind]++ }

func (c *Ctx) OutcomeN(kind string, n int64) {
	if n != 0 {
		c.r.Outcomes[kind] += n
	}
}

// Sample records a few written-out cases.
func (c *Ctx) Sample(f func() string) {
	if len(c.r.Samples) < 2 || (c.g.idx%997 == 0 && len(c.r.Samples) < 6) {
		c.r.Samples = append(c.r.Samples, f())
	}
}

// Guard runs f and turns a panic into a failure of the case.
func (c *Ctx) Guard(sub string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			c.Fail(sub, "panic: %v\n%s", e, trimStack(debug.Stack()))
			ok = false
		}
	}()
	f()
	return true
}

// Try runs f and returns the recovered panic value, if any.
func Try(f func()) (p any) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprintf("%v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	f()
	return nil
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			out = lines[i+2:]
			break
		}
	}
	if out == nil {
		out = lines
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

type result struct {
	Cases, States, Transitions, Traces, Evals int64
	Outcomes                                  map[string]int64
	Samples                                   []string
	Violations                                []Violation
	Complete                                  bool
	Total                                     int64
}

type worker struct {
	chk          *Check
	shard, n     int64
	from, only   int64
	onlyKey      string
	deadline     time.Time
	prog         *os.File
	res          *result
	curStart     atomic.Int64
	cur          atomic.Int64
	maxViol      int
	known        map[string]bool
	knownHit     map[string]bool
	list         bool
	budgetHitIdx int64
}

func (w *worker) maybe(g *Gen, i int64, key func() string, run func(*Ctx)) {
	if w.list {
		fmt.Println(i, key())
		return
	}
	if w.onlyKey != "" {
		if key() != w.onlyKey {
			return
		}
	} else if w.only >= 0 {
		if i != w.only {
			return
		}
	} else {
		if i%w.n != w.shard || i < w.from {
			return
		}
		if time.Now().After(w.deadline) {
			g.stopped = true
			w.res.Complete = false
			return
		}
	}
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(i)+1)
	if w.prog != nil {
		w.prog.WriteAt(b[:], 0)
	}
	w.cur.Store(i)
	w.curStart.Store(time.Now().UnixNano())
	c := &Ctx{g: g, key: key, r: w.res, Work: g.Work}
	func() {
		defer func() {
			if e := recover(); e != nil {
				c.Fail("panic", "panic: %v\n%s", e, trimStack(debug.Stack()))
			}
		}()
		run(c)
	}()
	w.curStart.Store(0)
	w.res.Cases++
	w.res.States += c.States
	w.res.Transitions += c.Transitions
	w.res.Traces += c.Traces
	w.res.Evals += c.Evals
	if len(c.fails) > 0 {
		k := key()
		newv := false
		for _, v := range c.fails {
			v.Property, v.Index, v.Case = w.chk.ID, i, k
			w.res.Violations = append(w.res.Violations, v)
			if !w.known[k+"\x00"+v.Sub] {
				newv = true
			}
		}
		if newv {
			w.maxViol--
			if w.maxViol <= 0 && w.only < 0 && w.onlyKey == "" {
				g.stopped = true
				w.res.Complete = false
			}
		}
	}
}

type Finding struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	Sub      string `json:"sub"`
	What     string `json:"what"`
}

type findingsFile struct {
	Findings []Finding `json:"findings"`
	Fixed    []string  `json:"fixed"`
}

func loadFindings(root, id string) (map[string]Finding, error) {
	out := map[string]Finding{}
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		if os.IsNotExist(err) {
			return out, nil
		}
		return nil, err
	}
	var f findingsFile
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, err
	}
	for _, k := range f.Findings {
		if k.Property == id {
			out[k.Case+"\x00"+k.Sub] = k
		}
	}
	return out, nil
}

// Root is /verif.
func Root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

const exitHang = 97
const exitMem = 96

// Main runs the command line.
func Main() {
	var (
		id      = flag.String("check", "", "property id")
		wk      = flag.Bool("worker", false, "")
		shard   = flag.Int64("shard", 0, "")
		n       = flag.Int64("n", 0, "")
		from    = flag.Int64("from", 0, "")
		only    = flag.Int64("only", -1, "")
		onlyKey = flag.String("key", "", "run only the case with this key")
		out     = flag.String("out", "", "")
		prog    = flag.String("prog", "", "")
		work    = flag.String("work", "", "")
		budget  = flag.Int("budget", 0, "seconds")
		list    = flag.Bool("list", false, "list case keys")
		replay  = flag.String("replay", "", "re-run the case of a replay file")
		ids     = flag.Bool("ids", false, "list checks")
		slow    = flag.Bool("slow", false, "print slow cases")
	)
	flag.Parse()
	sort.Slice(registry, func(i, j int) bool { return registry[i].ID < registry[j].ID })
	if *ids {
		for _, c := range registry {
			fmt.Println(c.ID)
		}
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fatal(err)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fatal(err)
		}
		*id, *onlyKey = v.Property, v.Case
	}
	var chk *Check
	for _, c := range registry {
		if c.ID == *id {
			chk = c
		}
	}
	if chk == nil {
		fatal(fmt.Errorf("unknown check %q", *id))
	}
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	if *budget == 0 {
		*budget = 420
		if thorough {
			*budget = 3 * 3600
		}
	}
	if *list || *wk || *onlyKey != "" || *only >= 0 {
		runWorker(chk, thorough, seed, *wk, *shard, *n, *from, *only, *onlyKey, *out, *prog, *work, *budget, *list, *slow)
		return
	}
	os.Exit(runParent(chk, thorough, seed, *n, *budget))
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "error:", err)
	os.Exit(3)
}

func runWorker(chk *Check, thorough bool, seed int64, isWorker bool, shard, n, from, only int64, onlyKey, out, prog, work string, budget int, list, slow bool) {
	debug.SetMaxStack(48 << 20)
	if n <= 0 {
		n = 1
	}
	if work == "" && !list {
		d, err := os.MkdirTemp("", "mcwork")
		if err != nil {
			fatal(err)
		}
		defer os.RemoveAll(d)
		work = d
	}
	w := &worker{chk: chk, shard: shard, n: n, from: from, only: only, onlyKey: onlyKey, list: list,
		deadline: time.Now().Add(time.Duration(budget) * time.Second),
		res:      &result{Outcomes: map[string]int64{}, Complete: true}, maxViol: 3}
	kf, err := loadFindings(Root(), chk.ID)
	if err != nil {
		fatal(err)
	}
	w.known = map[string]bool{}
	for k := range kf {
		w.known[k] = true
	}
	if prog != "" {
		f, err := os.OpenFile(prog, os.O_RDWR|os.O_CREATE, 0o644)
		if err != nil {
			fatal(err)
		}
		w.prog = f
	}
	hang := chk.Hang
	if hang == 0 {
		hang = 40 * time.Second
	}
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			st := w.curStart.Load()
			if st != 0 && time.Since(time.Unix(0, st)) > hang {
				fmt.Fprintf(os.Stderr, "HANG: case %d did not finish within %v\n", w.cur.Load(), hang)
				os.Exit(exitHang)
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 1200<<20 {
				fmt.Fprintf(os.Stderr, "MEMORY: case %d uses more than 1.2 GB\n", w.cur.Load())
				os.Exit(exitMem)
			}
		}
	}()
	g := &Gen{Thorough: thorough, Seed: seed, Work: work, w: w}
	chk.Gen(g)
	w.res.Total = g.idx
	if list {
		return
	}
	if !isWorker {
		b, _ := json.MarshalIndent(w.res, "", " ")
		fmt.Println(string(b))
		if len(w.res.Violations) > 0 {
			os.RemoveAll(work)
			os.Exit(1)
		}
		return
	}
	b, err := json.Marshal(w.res)
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fatal(err)
	}
}

func runParent(chk *Check, thorough bool, seed, n int64, budget int) int {
	start := time.Now()
	if n == 0 {
		n = int64(runtime.NumCPU())
		if n > 8 {
			n = 8
		}
	}
	if chk.Serial {
		n = 1
	}
	self, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	work, err := os.MkdirTemp("", "mc-"+chk.ID+"-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(work)
	kf, err := loadFindings(Root(), chk.ID)
	if err != nil {
		fatal(err)
	}
	total := &result{Outcomes: map[string]int64{}, Complete: true}
	var mu sync.Mutex
	var wg sync.WaitGroup
	internal := false
	for s := int64(0); s < n; s++ {
		wg.Add(1)
		go func(s int64) {
			defer wg.Done()
			from := int64(0)
			crashes := 0
			for {
				left := budget - int(time.Since(start).Seconds())
				if left < 1 {
					left = 1
				}
				outf := filepath.Join(work, fmt.Sprintf("out%d", s))
				progf := filepath.Join(work, fmt.Sprintf("prog%d", s))
				os.Remove(outf)
				os.Remove(progf)
				sw := filepath.Join(work, fmt.Sprintf("w%d", s))
				os.MkdirAll(sw, 0o755)
				code, stderr := spawn(self, chk.ID, "-worker", "-shard", fmt.Sprint(s), "-n", fmt.Sprint(n), "-from", fmt.Sprint(from),
					"-out", outf, "-prog", progf, "-work", sw, "-budget", fmt.Sprint(left))
				if code == 0 {
					b, err := os.ReadFile(outf)
					var r result
					if err == nil {
						err = json.Unmarshal(b, &r)
					}
					mu.Lock()
					if err != nil {
						fmt.Fprintln(os.Stderr, "worker result:", err)
						internal = true
					} else {
						total.merge(&r)
					}
					mu.Unlock()
					return
				}
				pb, err := os.ReadFile(progf)
				if err != nil || len(pb) < 8 {
					mu.Lock()
					fmt.Fprintf(os.Stderr, "worker %d ended with %d before its first case:\n%s\n", s, code, stderr)
					internal = true
					mu.Unlock()
					return
				}
				idx := int64(binary.LittleEndian.Uint64(pb)) - 1
				// Confirm alone.
				os.Remove(outf)
				code2, stderr2 := spawn(self, chk.ID, "-worker", "-only", fmt.Sprint(idx), "-out", outf, "-work", sw, "-budget", "600")
				mu.Lock()
				if code2 != 0 {
					key := caseKey(self, chk.ID, idx)
					sub := "crash"
					switch code2 {
					case exitHang:
						sub = "hang"
					case exitMem:
						sub = "memory"
					default:
						if strings.Contains(stderr2, "stack exceeds") || strings.Contains(stderr2, "stack overflow") {
							sub = "stack-overflow"
						}
					}
					total.Violations = append(total.Violations, Violation{Property: chk.ID, Index: idx, Case: key, Sub: sub, Message: head(stderr2, 30), Repro: "2/2"})
					if _, ok := kf[key+"\x00"+sub]; !ok {
						crashes++
					}
				} else {
					fmt.Fprintf(os.Stderr, "worker %d died at case %d (exit %d) but the case alone is fine:\n%s\n", s, idx, code, head(stderr, 30))
					if code == exitHang || code == exitMem {
						// environment pressure, not a verdict
					} else {
						b, err := os.ReadFile(outf)
						var r result
						if err == nil && json.Unmarshal(b, &r) == nil {
							total.merge(&r)
						}
					}
				}
				mu.Unlock()
				from = idx + 1
				if crashes >= 1 {
					mu.Lock()
					total.Complete = false
					mu.Unlock()
					return
				}
			}
		}(s)
	}
	wg.Wait()

	sort.SliceStable(total.Violations, func(i, j int) bool { return total.Violations[i].Index < total.Violations[j].Index })
	code := 0
	hit := map[string]bool{}
	nviol := 0
	repdir := filepath.Join(Root(), "replays")
	show := 3
	if n, err := strconv.Atoi(os.Getenv("MC_SHOW")); err == nil {
		show = n
	}
	for _, v := range total.Violations {
		k := v.Case + "\x00" + v.Sub
		if f, ok := kf[k]; ok {
			if !hit[k] {
				hit[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s; %s]\n", chk.ID, f.What, f.Case, f.Sub)
			}
			continue
		}
		nviol++
		code = 1
		if nviol <= show {
			os.MkdirAll(repdir, 0o755)
			p := filepath.Join(repdir, fmt.Sprintf("%s-%d.json", chk.ID, nviol))
			b, _ := json.MarshalIndent(v, "", " ")
			if err := os.WriteFile(p, append(b, '\n'), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n  case: %s\n  sub: %s\n  %s\n", chk.ID, p, clip(v.Case, 600), clip(v.Sub, 300), clip(strings.ReplaceAll(v.Message, "\n", "\n  "), 1500))
		}
	}
	if nviol > show {
		fmt.Printf("(%d further violations not shown)\n", nviol-show)
	}
	if total.Complete {
		for k, f := range kf {
			if !hit[k] {
				// the listed finding no longer occurs: say so, do not fail
				fmt.Printf("note: listed finding did not occur: %s\n", f.What)
			}
		}
	}
	if internal {
		fmt.Println("internal error: not every shard reported")
		if code == 0 {
			code = 3
		}
	}
	writeEvidence(chk, thorough, seed, total, nviol, time.Since(start).Seconds())
	fmt.Printf("%s: cases=%d states=%d transitions=%d traces=%d evals=%d exhaustive=%v violations=%d known=%d wall=%.1fs\n", chk.ID, total.Cases,
		total.States, total.Transitions, total.Traces, total.Evals, total.Complete, nviol, len(hit), time.Since(start).Seconds())
	keys := make([]string, 0)
	for k := range total.Outcomes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %-40s %d\n", k, total.Outcomes[k])
	}
	return code
}

func (t *result) merge(r *result) {
	t.Cases += r.Cases
	t.States += r.States
	t.Transitions += r.Transitions
	t.Traces += r.Traces
	t.Evals += r.Evals
	for k, v := range r.Outcomes {
		t.Outcomes[k] += v
	}
	if len(t.Samples) < 12 {
		t.Samples = append(t.Samples, r.Samples...)
	}
	t.Violations = append(t.Violations, r.Violations...)
	t.Complete = t.Complete && r.Complete
	if r.Total > t.Total {
		t.Total = r.Total
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func head(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func caseKey(self, id string, idx int64) string {
	out, err := exec.Command(self, "-check", id, "-list").Output()
	if err == nil {
		p := fmt.Sprintf("%d ", idx)
		for _, l := range strings.Split(string(out), "\n") {
			if strings.HasPrefix(l, p) {
				return l[len(p):]
			}
		}
	}
	return fmt.Sprintf("#%d", idx)
}

func spawn(self, id string, args ...string) (int, string) {
	cmd := exec.Command(self, append([]string{"-check", id}, args...)...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=200")
	var sb tailBuf
	cmd.Stderr = &sb
	cmd.Stdout = &sb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	err := cmd.Run()
	if err == nil {
		return 0, sb.String()
	}
	if ee, ok := err.(*exec.ExitError); ok {
		c := ee.ExitCode()
		if c < 0 {
			c = 137
		}
		return c, sb.String()
	}
	return 99, err.Error()
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.b) < 16<<10 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return string(t.b) }

func writeEvidence(chk *Check, thorough bool, seed int64, r *result, viol int, wall float64) {
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	samples := []any{}
	for _, s := range r.Samples {
		samples = append(samples, clip(s, 800))
	}
	cov := map[string]any{
		"states":                        r.States,
		"transitions":                   r.Transitions,
		"traces_validated_against_impl": r.Traces,
		"evaluations":                   r.Evals,
		"cases":                         r.Cases,
		"rule":                          chk.Rule,
		"samples":                       samples,
		"exhaustive":                    r.Complete,
		"outcomes":                      r.Outcomes,
	}
	for k, v := range chk.Bounds {
		cov["bound_"+k] = v
	}
	ev := map[string]any{
		"property":    chk.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       "model_checking",
		"coverage":    cov,
		"assumptions": chk.Assumptions,
		"wall_s":      wall,
		"violations":  viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal(err)
	}
	dir := filepath.Join(Root(), "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, chk.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
}
