// Package fw is the small framework shared by all checks: budget, counters, violation reporting,
// known findings, evidence, a watchdog for calls that never return, and a parent process that
// turns fatal runtime errors of the code under test into violations.
package fw

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Level string

const (
	Exploration Level = "exploration"
	Faults      Level = "fault_enumeration"
	MC          Level = "model_checking"
)

// Check is one registered property check.
type Check struct {
	ID    string
	Level Level
	Rule  string // how cases are made, what makes one non-trivial
	Run   func(c *Ctx)
	// CaseLimit overrides how long one case may run before it counts as never returning.
	CaseLimit time.Duration
	Assume    []string
}

type finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed: ..."
}

type Ctx struct {
	ID       string
	Thorough bool
	Seed     int64
	Root     string // /verif
	Tmp      string // scratch directory, removed by the parent process
	start    time.Time
	deadline time.Time

	Evals     atomic.Int64
	States    atomic.Int64
	Trans     atomic.Int64
	Traces    atomic.Int64
	Nontriv   atomic.Int64
	truncated atomic.Bool

	mu       sync.Mutex
	samples  []any
	extra    map[string]any
	known    map[string]finding
	knownHit map[string]bool
	viols    int
	slots    []*Slot
	check    Check
}

// Slot tracks what one worker is doing, for the watchdog.
type Slot struct {
	begun atomic.Int64 // unix nano of the current case, 0 when idle
	desc  atomic.Value // func() string
}

func (s *Slot) Begin(desc func() string) {
	if desc != nil {
		s.desc.Store(desc)
	}
	s.begun.Store(time.Now().UnixNano())
}
func (s *Slot) End() { s.begun.Store(0) }

func (c *Ctx) NewSlot() *Slot {
	s := &Slot{}
	s.desc.Store(func() string { return "?" })
	c.mu.Lock()
	c.slots = append(c.slots, s)
	c.mu.Unlock()
	return s
}

func (c *Ctx) Pick(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Expired reports whether the budget is used up; callers stop and the run is marked non-exhaustive.
func (c *Ctx) Expired() bool {
	if time.Now().After(c.deadline) {
		c.truncated.Store(true)
		return true
	}
	return false
}

func (c *Ctx) Truncate()              { c.truncated.Store(true) }
func (c *Ctx) Elapsed() time.Duration { return time.Since(c.start) }

func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

func (c *Ctx) Extra(k string, v any) {
	c.mu.Lock()
	c.extra[k] = v
	c.mu.Unlock()
}

func (c *Ctx) AddExtra(k string, n int64) {
	c.mu.Lock()
	o, _ := c.extra[k].(int64)
	c.extra[k] = o + n
	c.mu.Unlock()
}

// Fail reports a violation found on a case. key identifies the failing input, call site or history;
// when it is listed as a known finding it is reported as such and exploration continues.
func (c *Ctx) Fail(key, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	c.mu.Lock()
	if _, ok := c.known[key]; ok {
		c.knownHit[key] = true
		c.mu.Unlock()
		return
	}
	c.viols++
	c.finish(1, key+"\n"+msg) // does not return
}

// finish is called with c.mu held (for violations) and ends the process.
func (c *Ctx) finish(viol int, msg string) {
	if viol > 0 {
		dir := filepath.Join(c.Root, "evidence")
		os.MkdirAll(dir, 0755)
		p := filepath.Join(dir, "replay-"+c.ID+".txt")
		os.WriteFile(p, []byte(msg+"\n"), 0644)
		c.writeEvidence(1)
		m := msg
		if len(m) > 4000 {
			m = m[:4000] + "..."
		}
		fmt.Fprintf(out, "%s\nVIOLATION property=%s replay=%s\n", m, c.ID, p)
		os.Exit(1)
	}
}

func (c *Ctx) writeEvidence(viol int) {
	cov := map[string]any{}
	for k, v := range c.extra {
		cov[k] = v
	}
	tier := "quick"
	if c.Thorough {
		tier = "thorough"
	}
	cov["exhaustive"] = !c.truncated.Load() && viol == 0
	if len(c.samples) == 0 {
		c.samples = []any{"(none)"}
	}
	cov["samples"] = c.samples
	if c.check.Level == MC {
		cov["states"] = c.States.Load()
		cov["transitions"] = c.Trans.Load()
		cov["traces_validated_against_impl"] = c.Traces.Load()
		cov["rule"] = c.check.Rule
	} else {
		cov["evaluations"] = c.Evals.Load()
		cov["distinct_nontrivial"] = c.Nontriv.Load()
		cov["rule"] = c.check.Rule
		if n := c.States.Load(); n > 0 {
			cov["states"] = n
		}
		if n := c.Trans.Load(); n > 0 {
			cov["transitions"] = n
		}
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": c.Seed, "level": string(c.check.Level),
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": viol,
		"assumptions": append([]string{"Go 1.24 toolchain and the third-party libraries behave as documented", "holds within the stated bounds only"}, c.check.Assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.Root, "evidence")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, c.ID+".json"), b, 0644)
}

func (c *Ctx) loadKnown() {
	c.known = map[string]finding{}
	c.knownHit = map[string]bool{}
	b, err := os.ReadFile(filepath.Join(c.Root, "known_findings.json"))
	if err != nil {
		return
	}
	var fs []finding
	if json.Unmarshal(b, &fs) != nil {
		return
	}
	for _, f := range fs {
		if f.Property == c.ID && f.Status == "known" {
			c.known[f.Key] = f
		}
	}
}

func (c *Ctx) watchdog(limit time.Duration) {
	var ms runtime.MemStats
	n := 0
	for {
		time.Sleep(500 * time.Millisecond)
		now := time.Now().UnixNano()
		c.mu.Lock()
		slots := c.slots
		c.mu.Unlock()
		for _, s := range slots {
			b := s.begun.Load()
			if b != 0 && time.Duration(now-b) > limit {
				d := "?"
				func() {
					defer func() { recover() }()
					if f, ok := s.desc.Load().(func() string); ok {
						d = f()
					}
				}()
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				c.Fail("no-return", "a call did not return within %s\ncase: %s\n\n%s", limit, d, buf)
			}
		}
		n++
		if n%2 == 0 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 14<<30 {
				d := ""
				for _, s := range slots {
					if f, ok := s.desc.Load().(func() string); ok {
						func() {
							defer func() { recover() }()
							d += f() + "\n"
						}()
					}
				}
				c.Fail("memory", "memory use of the code under test exploded (%d bytes)\ncases:\n%s", ms.HeapAlloc, d)
			}
		}
	}
}

// Guard runs f, turning a panic into a violation.
func (c *Ctx) Guard(desc func() string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			c.Fail("panic: "+firstLine(fmt.Sprint(r)), "panic: %v\ncase: %s\n%s", r, desc(), debug.Stack())
		}
	}()
	f()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 120 {
		s = s[:120]
	}
	return s
}

// Parallel runs f(i, slot) for i in [0,n) on all cores; f should call slot.Begin per case.
func (c *Ctx) Parallel(n int, f func(i int, s *Slot)) {
	workers := runtime.GOMAXPROCS(0)
	if workers > n {
		workers = n
	}
	if workers < 1 {
		workers = 1
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := c.NewSlot()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.Expired() {
					return
				}
				c.Guard(func() string {
					d := ""
					if g, ok := s.desc.Load().(func() string); ok {
						d = g()
					}
					return fmt.Sprintf("job %d: %s", i, d)
				}, func() {
					s.Begin(nil)
					f(i, s)
				})
				s.End()
			}
		}()
	}
	wg.Wait()
}

// Try calls f and reports whether it panicked.
func Try(f func()) (panicked any) {
	defer func() { panicked = recover() }()
	f()
	return nil
}

// out is where the child process reports (the parent's standard output).
var out = os.Stdout

var registry = map[string]Check{}

func Register(c Check) {
	if _, dup := registry[c.ID]; dup {
		panic("duplicate check " + c.ID)
	}
	registry[c.ID] = c
}

func IDs() []string {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Main: harness <ID>. Environment: VERIF_TIER, VERIF_SEED, VERIF_ROOT.
func Main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: harness ID; known:", IDs())
		os.Exit(2)
	}
	id := os.Args[1]
	ck, ok := registry[id]
	if !ok {
		fmt.Println("unknown check", id)
		os.Exit(2)
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if os.Getenv("VERIF_CHILD") == "" {
		os.Exit(parent(id, root))
	}
	out = os.NewFile(3, "report")
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	c := &Ctx{ID: id, Thorough: tier == "thorough", Seed: seed, Root: root, Tmp: os.Getenv("VERIF_TMPDIR"), start: time.Now(), extra: map[string]any{}, check: ck}
	budget := 240 * time.Second
	if c.Thorough {
		budget = 780 * time.Second
	}
	if b := os.Getenv("VERIF_BUDGET_S"); b != "" {
		n, _ := strconv.Atoi(b)
		budget = time.Duration(n) * time.Second
	}
	c.deadline = c.start.Add(budget)
	os.Remove(filepath.Join(root, "evidence", "replay-"+id+".txt"))
	c.loadKnown()
	debug.SetGCPercent(200)
	lim := ck.CaseLimit
	if lim == 0 {
		lim = 45 * time.Second
	}
	go c.watchdog(lim)
	main := c.NewSlot()
	_ = main
	c.Guard(func() string { return "main" }, func() { ck.Run(c) })
	c.mu.Lock()
	c.writeEvidence(0)
	var ks []string
	for k := range c.knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(out, "KNOWN-FINDING: property=%s %s\n", id, c.known[k].What)
	}
	fmt.Fprintf(out, "OK property=%s tier=%s states=%d transitions=%d traces=%d evaluations=%d exhaustive=%v wall=%.1fs\n", id, tier,
		c.States.Load(), c.Trans.Load(), c.Traces.Load(), c.Evals.Load(), !c.truncated.Load(), time.Since(c.start).Seconds())
	os.Exit(0)
}

// parent runs the check in a child process, so that a fatal runtime error in the code under test
// (concurrent map access, stack overflow, out of memory) is reported as a violation.
func parent(id, root string) int {
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	tmp, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=1", "VERIF_TMPDIR="+tmp)
	// the code under test logs to its standard output: keep that apart from what the check reports
	cmd.Stdout = nil
	cmd.ExtraFiles = []*os.File{os.Stdout}
	ef, err := os.CreateTemp("", "verif-stderr")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.Remove(ef.Name())
	cmd.Stderr = ef
	err = cmd.Run()
	ef.Close()
	if err == nil {
		return 0
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
		return 1
	}
	b, _ := os.ReadFile(ef.Name())
	s := string(b)
	if len(s) > 20000 {
		s = s[:20000]
	}
	if strings.Contains(s, "fatal error:") || strings.Contains(s, "panic:") || strings.Contains(s, "runtime: goroutine stack exceeds") {
		dir := filepath.Join(root, "evidence")
		os.MkdirAll(dir, 0755)
		p := filepath.Join(dir, "replay-"+id+".txt")
		os.WriteFile(p, b, 0644)
		if len(s) > 3000 {
			s = s[:3000]
		}
		fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", s, id, p)
		return 1
	}
	fmt.Printf("check process ended with %v\n%s\n", err, s)
	return 2
}

// Left is the time left of the check's budget.
func (c *Ctx) Left() time.Duration { return time.Until(c.deadline) }

// Abort ends the check without an answer: something it needs (a compiler run, say) failed.
func (c *Ctx) Abort(format string, a ...any) {
	fmt.Fprintf(out, "no answer: "+format+"\n", a...)
	os.Exit(2)
}
