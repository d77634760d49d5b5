// Package vharness explores bounded spaces of behaviours of bifurcation/mint
// exhaustively and checks each of them against an oracle.  See /verif/DESIGN.md.
package vharness

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ctx is one run of one property's check.
type Ctx struct {
	Prop   string
	Tier   string
	Seed   int64
	Level  string
	start  time.Time
	budget time.Duration
	filter string
	root   string

	evals, states, transitions, traces, executed int64

	mu            sync.Mutex
	distinct      map[string]int
	samples       []interface{}
	rule          string
	notes         map[string]interface{}
	assume        []string
	violations    []violation
	hanging, hung int32
	known         []*knownFinding
	capped        bool
	flaky         []string
	seenCases     map[string]bool
}

type violation struct {
	Case, Kind, Detail string
}

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"`
	Case     string `json:"case"` // anchored regular expression over case names
	Kind     string `json:"kind"` // anchored regular expression over failure kinds
	What     string `json:"what"`
	hits     int
	caseRE   *regexp.Regexp
	kindRE   *regexp.Regexp
}

// Case is one execution (or one small family of executions) with a stable,
// deterministic name by which it can be replayed.
type Case struct {
	*Ctx
	Name    string
	failed  bool
	kind    string
	detail  string
	rerun   bool
	touched int64
	trace   []string
	onPair  func(*Pair)
}

type caseAbort struct{}

// Fail records the first failure of the case and unwinds it.
func (c *Case) Fail(kind, format string, args ...interface{}) {
	if !c.failed {
		c.failed = true
		c.kind = kind
		c.detail = fmt.Sprintf(format, args...)
	}
	panic(caseAbort{})
}

// Failf records a failure without unwinding.
func (c *Case) Soft(kind, format string, args ...interface{}) {
	if !c.failed {
		c.failed = true
		c.kind = kind
		c.detail = fmt.Sprintf(format, args...)
	}
}

func (c *Case) Log(format string, args ...interface{}) {
	if len(c.trace) < 400 {
		c.trace = append(c.trace, fmt.Sprintf(format, args...))
	}
}

// Count adds n evaluations beyond the one each case counts for.
func (c *Case) Count(n int) {
	if !c.rerun {
		atomic.AddInt64(&c.Ctx.evals, int64(n))
	}
}
func (c *Case) States(n int) {
	if !c.rerun {
		atomic.AddInt64(&c.Ctx.states, int64(n))
	}
}
func (c *Case) Transitions(n int) {
	if !c.rerun {
		atomic.AddInt64(&c.Ctx.transitions, int64(n))
	}
}
func (c *Case) Traces(n int) {
	if !c.rerun {
		atomic.AddInt64(&c.Ctx.traces, int64(n))
	}
}

// Outcome records a distinct observed outcome (for vacuity reporting).
func (c *Case) Outcome(key string) {
	if c.rerun {
		return
	}
	c.Ctx.mu.Lock()
	c.Ctx.distinct[key]++
	c.Ctx.mu.Unlock()
}

func (x *Ctx) Thorough() bool { return x.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (x *Ctx) Pick(q, t int) int {
	if x.Thorough() {
		return t
	}
	return q
}

func (x *Ctx) Expired() bool {
	if x.filter != "" {
		return false
	}
	if time.Since(x.start) > x.budget {
		x.mu.Lock()
		x.capped = true
		x.mu.Unlock()
		return true
	}
	return false
}

func (x *Ctx) Rule(s string)   { x.rule = s }
func (x *Ctx) Assume(s string) { x.assume = append(x.assume, s) }
func (x *Ctx) Note(k string, v interface{}) {
	x.mu.Lock()
	x.notes[k] = v
	x.mu.Unlock()
}

type NamedCase struct {
	Name string
	F    func(c *Case)
	Real bool // not in virtual time, or a virtual time of its own
}

// Cases collects named cases.
type Cases struct {
	L    []NamedCase
	seen map[string]bool
}

// Add registers a case; a second case of the same name is the same case.
func (l *Cases) Add(name string, f func(c *Case)) {
	if l.seen == nil {
		l.seen = map[string]bool{}
	}
	if l.seen[name] {
		return
	}
	l.seen[name] = true
	l.L = append(l.L, NamedCase{Name: name, F: f})
}

// AddReal registers a case that is not to be run in virtual time.
func (l *Cases) AddReal(name string, f func(c *Case)) {
	n := len(l.L)
	l.Add(name, f)
	if len(l.L) > n {
		l.L[n].Real = true
	}
}

// realTime are the checks with something of their own: C18 handles virtual time
// itself, C19 and C20 the schedule and the clock, C14 measures time, and C26 has
// real connections.
var realTime = map[string]bool{"C14": true, "C18": true, "C19": true, "C20": true, "C26": true}

var caseTimeout = 150 * time.Second

// execute runs one case once, in its own goroutine, recovering panics.
func (x *Ctx) execute(nc NamedCase, rerun bool) *Case {
	c := &Case{Ctx: x, Name: nc.Name, rerun: rerun}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(peerError); ok {
					if !c.failed {
						c.failed, c.kind, c.detail = true, "peer", string(pe)
					}
					return
				}
				if _, ok := r.(caseAbort); ok {
					return
				}
				if !c.failed {
					c.failed = true
					c.kind = "panic"
					c.detail = fmt.Sprintf("%v\n%s", r, trimStack(debug.Stack()))
				}
			}
		}()
		if realTime[x.Prop] || nc.Real {
			nc.F(c)
			return
		}
		// In virtual time, in which no timer goes off because the machine is
		// slow: it passes only when everything waits for it.
		now := time.Now().Round(0)
		bubble(func() {
			time.Sleep(time.Until(now))
			nc.F(c)
		})
	}()
	t := time.NewTimer(caseTimeout)
	defer t.Stop()
	select {
	case <-done:
		return c
	case <-t.C:
		return &Case{Ctx: x, Name: nc.Name, failed: true, kind: "hang",
			detail: fmt.Sprintf("case did not finish within %v", caseTimeout)}
	}
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "mint.") || strings.Contains(l, "syntax.") || strings.Contains(l, "vharness") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Run executes the cases on all cores; failures are re-run before they count.
func (x *Ctx) Run(cases *Cases, workers int) {
	if workers <= 0 {
		workers = 8
	}
	for _, nc := range cases.L {
		if x.seenCases[nc.Name] {
			panic("duplicate case name " + nc.Name)
		}
		x.seenCases[nc.Name] = true
	}
	ch := make(chan NamedCase)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for nc := range ch {
				// While a hang is being confirmed nothing new is started, and
				// nothing after it: the case that hangs may still be running.
				for atomic.LoadInt32(&x.hanging) > 0 {
					time.Sleep(50 * time.Millisecond)
				}
				if atomic.LoadInt32(&x.hung) > 0 {
					continue
				}
				x.one(nc)
			}
		}()
	}
	for _, nc := range cases.L {
		if x.filter != "" && x.filter != nc.Name && !(strings.HasSuffix(x.filter, "*") && strings.HasPrefix(nc.Name, strings.TrimSuffix(x.filter, "*"))) {
			continue
		}
		if x.Expired() || x.tooMany() {
			break
		}
		ch <- nc
	}
	close(ch)
	wg.Wait()
}

func (x *Ctx) tooMany() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return len(x.violations) >= 25 || atomic.LoadInt32(&x.hung) > 0
}

func (x *Ctx) one(nc NamedCase) {
	c := x.execute(nc, false)
	atomic.AddInt64(&x.executed, 1)
	atomic.AddInt64(&x.evals, 1)
	if !c.failed {
		x.mu.Lock()
		if len(x.samples) < 6 && (len(x.samples) == 0 || x.executed%97 == 0) {
			x.samples = append(x.samples, map[string]interface{}{"case": nc.Name, "trace": c.trace})
		}
		x.mu.Unlock()
		return
	}
	// Classify before believing: a real violation repeats.
	if k := x.lookup(nc.Name, c.kind); k != nil {
		x.mu.Lock()
		k.hits++
		x.mu.Unlock()
		return
	}
	again := 0
	tries := 4
	if c.kind == "hang" {
		tries = 1
		atomic.AddInt32(&x.hanging, 1)
		defer atomic.AddInt32(&x.hanging, -1)
	}
	for i := 0; i < tries; i++ {
		if r := x.execute(nc, true); r.failed {
			again++
		}
		if again >= 2 {
			break
		}
	}
	if again == 0 {
		x.mu.Lock()
		x.flaky = append(x.flaky, nc.Name+": "+c.kind+": "+firstLine(c.detail))
		x.mu.Unlock()
		return
	}
	x.mu.Lock()
	x.violations = append(x.violations, violation{nc.Name, c.kind, c.detail + traceText(c.trace)})
	x.mu.Unlock()
	if c.kind == "hang" {
		atomic.AddInt32(&x.hung, 1)
	}
}

func traceText(tr []string) string {
	if len(tr) == 0 {
		return ""
	}
	return "\ntrace:\n  " + strings.Join(tr, "\n  ")
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (x *Ctx) lookup(name, kind string) *knownFinding {
	for _, k := range x.known {
		if k.Status == "known" && k.caseRE.MatchString(name) && k.kindRE.MatchString(kind) {
			return k
		}
	}
	return nil
}

func (x *Ctx) loadKnown() error {
	b, err := os.ReadFile(filepath.Join(x.root, "known_findings.json"))
	if os.IsNotExist(err) {
		return nil
	}
	if err != nil {
		return err
	}
	var f struct {
		Findings []*knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return err
	}
	for _, k := range f.Findings {
		if k.Property != x.Prop || k.Status != "known" {
			continue
		}
		k.caseRE = regexp.MustCompile("^(?:" + k.Case + ")$")
		k.kindRE = regexp.MustCompile("^(?:" + k.Kind + ")$")
		x.known = append(x.known, k)
	}
	return nil
}

// finish writes the evidence file, prints the verdict and returns the exit code.
func (x *Ctx) finish() int {
	cov := map[string]interface{}{}
	keys := make([]string, 0, len(x.distinct))
	for k := range x.distinct {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	top := map[string]int{}
	for i, k := range keys {
		if i < 60 {
			top[k] = x.distinct[k]
		}
	}
	cov["evaluations"] = x.evals
	cov["cases"] = x.executed
	cov["distinct_nontrivial"] = len(keys)
	cov["rule"] = x.rule
	cov["outcomes"] = top
	if len(x.samples) == 0 {
		x.samples = append(x.samples, map[string]interface{}{"case": "(none sampled)"})
	}
	cov["samples"] = x.samples
	cov["exhaustive"] = !x.capped && x.filter == ""
	if x.capped {
		cov["cap"] = fmt.Sprintf("time budget %v reached; cases after that point were not explored", x.budget)
	}
	if x.Level == "model_checking" || x.states > 0 {
		cov["states"] = x.states
		cov["transitions"] = x.transitions
		cov["traces_validated_against_impl"] = x.traces
	}
	for k, v := range x.notes {
		cov[k] = v
	}
	if len(x.flaky) > 0 {
		cov["unrepeatable_failures_not_counted"] = x.flaky
	}
	ev := map[string]interface{}{
		"property": x.Prop, "tier": x.Tier, "seed": x.Seed, "level": x.Level,
		"coverage": cov, "assumptions": x.assume,
		"wall_s":     time.Since(x.start).Seconds(),
		"violations": len(x.violations),
	}
	if x.filter == "" {
		os.MkdirAll(filepath.Join(x.root, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(x.root, "evidence", x.Prop+".json"), b, 0o644); err != nil {
			fmt.Println("ERROR writing evidence:", err)
			return 3
		}
	}
	fmt.Printf("%s tier=%s evaluations=%d cases=%d distinct=%d states=%d transitions=%d traces=%d exhaustive=%v wall=%.1fs\n",
		x.Prop, x.Tier, x.evals, x.executed, len(keys), x.states, x.transitions, x.traces, !x.capped, time.Since(x.start).Seconds())
	for _, f := range x.flaky {
		fmt.Println("NOTE unrepeatable:", f)
	}
	for _, k := range x.known {
		if k.hits > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", x.Prop, k.What)
		}
	}
	if x.executed == 0 {
		fmt.Println("ERROR: no case was executed")
		return 3
	}
	if len(x.violations) == 0 {
		return 0
	}
	dir := filepath.Join(x.root, "replays")
	os.MkdirAll(dir, 0o755)
	for i, v := range x.violations {
		path := filepath.Join(dir, fmt.Sprintf("%s-%02d.json", x.Prop, i))
		b, _ := json.MarshalIndent(map[string]string{
			"property": x.Prop, "tier": x.Tier, "case": v.Case, "kind": v.Kind, "detail": v.Detail,
			"replay": fmt.Sprintf("/verif/check.sh %s %s --case '%s'", x.Prop, x.Tier, v.Case),
		}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("  case %s: %s: %s\n", v.Case, v.Kind, clip(v.Detail, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", x.Prop, path)
	}
	return 1
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type checkDef struct {
	level string
	f     func(x *Ctx)
}

var registry = map[string]checkDef{}

func register(id, level string, f func(x *Ctx)) { registry[id] = checkDef{level, f} }

// MainCheck runs the check named by the environment and returns the exit code.
func MainCheck() (rc int) {
	debug.SetGCPercent(400)
	defer func() {
		if r := recover(); r != nil {
			fmt.Printf("ERROR: the harness itself panicked: %v\n%s\n", r, debug.Stack())
			rc = 3
		}
	}()
	id := os.Getenv("VERIF_PROP")
	def, ok := registry[id]
	if !ok {
		fmt.Println("ERROR: unknown property", id)
		return 3
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	budget := 600 * time.Second
	if tier == "thorough" {
		budget = 800 * time.Second
	}
	if b := os.Getenv("VERIF_BUDGET_S"); b != "" {
		if n, err := strconv.Atoi(b); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	x := &Ctx{Prop: id, Tier: tier, Seed: seed, Level: def.level, start: time.Now(), budget: budget,
		filter: os.Getenv("VERIF_CASE"), root: root, distinct: map[string]int{}, notes: map[string]interface{}{},
		seenCases: map[string]bool{}}
	if err := x.loadKnown(); err != nil {
		fmt.Println("ERROR: known findings:", err)
		return 3
	}
	def.f(x)
	return x.finish()
}
