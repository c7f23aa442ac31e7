package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/fw"
	"verif/sched"
	"verif/sched/hist"
	shim "verif/sched/sync"
)

// Op is one call of a scenario; it returns a description of its results.
type Op struct {
	Name string
	Do   func(w any) string
}

// Scenario is a small program of concurrent calls whose interleavings are all
// executed.
type Scenario struct {
	Name    string
	Kinds   sched.Kind
	New     func() any         // makes a fresh world
	Threads [][]Op             // calls of each thread
	Digest  func(w any) string // the final state, as text
	// Check judges one execution instead of the comparison with the
	// one-at-a-time orders; "" when fine.
	Check func(w any, recs [][]hist.Rec) string
	// Free closes what New opened.
	Free  func(w any)
	Bound int // preemptions; <0: any number
	// Delay makes Bound the number of times another thread than the first in
	// line goes on, also where the running one has to wait.
	Delay bool
	Limit int // executions, 0: none
}

type Suite struct {
	ID        string
	Rule      string
	Retire    int // executions after which a worker process is replaced
	Assume    []string
	Scenarios func(thorough bool) []*Scenario
	// Pre runs in the parent before the scenarios (sequential parts).
	Pre func(c *fw.Ctx)
}

var suites = map[string]*Suite{}

func suite(s *Suite) {
	suites[s.ID] = s
	fw.Register(fw.Check{ID: s.ID, Level: fw.MC, Rule: s.Rule, Assume: s.Assume, CaseLimit: 30 * time.Minute, Run: func(c *fw.Ctx) { runSuite(c, s) }})
}

type result struct {
	Index      int
	Name       string
	Execs      int64
	Steps      int64
	Orders     int
	Outcomes   int
	Complete   bool // every schedule within the bound
	Unbounded  bool // no schedule was left out because of the bound
	Bound      int
	Diverged   int
	Violation  string
	Retire     bool
	Key        string
	MaxChoices int
}

func runSuite(c *fw.Ctx, s *Suite) {
	if s.Pre != nil {
		s.Pre(c)
	}
	litmusCheck(c)
	scs := s.Scenarios(c.Thorough)
	if f := os.Getenv("VERIF_SCENARIO"); f != "" {
		fmt.Fprintln(os.Stderr, len(scs), "scenarios")
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	type job struct{ i, left int }
	var mu sync.Mutex
	next := 0
	var total result
	outcomes, unb, complete := 0, 0, 0
	bounds := map[string]int64{}
	partial := []string{}
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			wk := startWorker(c, s.ID, w)
			defer wk.stop()
			for {
				mu.Lock()
				i := next
				next++
				left := len(scs) - i
				mu.Unlock()
				if i >= len(scs) || c.Expired() {
					return
				}
				if f := os.Getenv("VERIF_SCENARIO"); f != "" && !strings.Contains(scs[i].Name, f) {
					continue
				}
				// a scenario may use a generous share of what is left
				share := c.Left() / 3
				if left <= n {
					share = c.Left()
				}
				r, err := wk.run(i, share)
				if err != "" {
					c.Fail("crash: "+scs[i].Name, "scenario %s: %s", scs[i].Name, err)
					wk = startWorker(c, s.ID, w)
					continue
				}
				if r.Violation != "" {
					c.Fail(r.Key, "scenario %s\n%s", scs[i].Name, r.Violation)
				}
				if r.Retire {
					wk.stop()
					wk = startWorker(c, s.ID, w)
				}
				mu.Lock()
				total.Execs += r.Execs
				total.Steps += r.Steps
				total.Diverged += r.Diverged
				total.Orders += r.Orders
				outcomes += r.Outcomes
				if r.Complete {
					complete++
				} else {
					c.Truncate()
					if len(partial) < 20 {
						partial = append(partial, fmt.Sprintf("%s (%d schedules done)", r.Name, r.Execs))
					}
				}
				if r.Unbounded {
					unb++
				}
				bounds[strconv.Itoa(r.Bound)]++
				mu.Unlock()
				if i%(len(scs)/5+1) == 0 {
					c.Sample(map[string]any{"scenario": r.Name, "schedules": r.Execs, "outcomes": r.Outcomes, "one_at_a_time_orders": r.Orders, "complete_within_bound": r.Complete, "all_schedules": r.Unbounded})
				}
			}
		}(w)
	}
	wg.Wait()
	c.States.Add(total.Execs)
	c.Trans.Add(total.Steps)
	c.Traces.Add(total.Execs)
	c.Nontriv.Add(int64(outcomes))
	c.Evals.Add(total.Execs)
	c.Extra("schedules", total.Execs)
	c.Extra("schedule_steps", total.Steps)
	c.Extra("scenarios", len(scs))
	c.Extra("scenarios_complete_within_bound", complete)
	c.Extra("scenarios_not_complete", partial)
	c.Extra("scenarios_with_every_schedule", unb)
	c.Extra("one_at_a_time_orders", total.Orders)
	c.Extra("distinct_outcomes", outcomes)
	c.Extra("diverged_replays", total.Diverged)
	c.Extra("scenarios_per_preemption_bound", bounds)
	c.Extra("states_are", "executed schedules; transitions are scheduling decisions; every schedule runs the real code under the race detector")
	if total.Diverged > 0 {
		c.Truncate()
	}
}

// litmusCheck has a process explore the litmus programs before anything is decided.
func litmusCheck(c *fw.Ctx) {
	cmd := exec.Command(os.Args[0], "-litmus")
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(c.Tmp, "litmus"))
	b, err := cmd.Output()
	var programs int
	var execs int64
	if n, _ := fmt.Sscanf(string(b[max(0, bytes.LastIndex(b, []byte("litmus"))):]), "litmus ok %d %d", &programs, &execs); err != nil || n != 2 {
		fmt.Printf("the explorer is broken: %s %v\n", b, err)
		os.Exit(2)
	}
	c.Extra("litmus_programs", programs)
	c.Extra("litmus_schedules", execs)
}

type worker struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Scanner
	err *tail
	log string
	c   *fw.Ctx
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 16384 {
		t.b = append([]byte{}, t.b[len(t.b)-16384:]...)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func startWorker(c *fw.Ctx, id string, n int) *worker {
	w := &worker{c: c, err: &tail{}, log: filepath.Join(c.Tmp, fmt.Sprintf("race-%d-%d", n, time.Now().UnixNano()))}
	w.cmd = exec.Command(os.Args[0], "-worker", id)
	tier := "quick"
	if c.Thorough {
		tier = "thorough"
	}
	w.cmd.Env = append(os.Environ(), "VERIF_TMPDIR="+c.Tmp, "GOMAXPROCS=1", "GOGC=400", "VERIF_TIER="+tier, "GORACE=exitcode=0 atexit_sleep_ms=0 history_size=2 log_path="+w.log)
	in, err1 := w.cmd.StdinPipe()
	out, err2 := w.cmd.StdoutPipe()
	w.cmd.Stderr = w.err
	if err1 != nil || err2 != nil || w.cmd.Start() != nil {
		fmt.Println("cannot start a worker", err1, err2)
		os.Exit(2)
	}
	w.in = bufio.NewWriter(in)
	w.out = bufio.NewScanner(out)
	w.out.Buffer(make([]byte, 1<<20), 1<<24)
	return w
}

func (w *worker) stop() { w.cmd.Process.Kill(); w.cmd.Wait() }

// run explores scenario i in the worker. A worker that dies or falls silent is
// reported as such: it prints a line at least every few seconds.
func (w *worker) run(i int, share time.Duration) (result, string) {
	fmt.Fprintf(w.in, "%d %d\n", i, int64(share/time.Millisecond))
	w.in.Flush()
	type line struct {
		s  string
		ok bool
	}
	for {
		ch := make(chan line, 1)
		go func() {
			ok := w.out.Scan()
			ch <- line{w.out.Text(), ok}
		}()
		select {
		case l := <-ch:
			if !l.ok {
				w.cmd.Wait()
				return result{}, "the process running it died: " + w.err.String() + w.race()
			}
			if strings.HasPrefix(l.s, "{") {
				var r result
				if err := json.Unmarshal([]byte(l.s), &r); err != nil {
					fmt.Println("bad worker line", l.s)
					os.Exit(2)
				}
				if r.Violation != "" {
					r.Violation += w.race()
				}
				return r, ""
			}
			// a sign of life
		case <-time.After(90 * time.Second):
			w.cmd.Process.Signal(os.Interrupt)
			time.Sleep(2 * time.Second)
			w.cmd.Process.Kill()
			w.cmd.Wait()
			return result{}, "an execution did not come back within 90 s\n" + w.err.String()
		}
	}
}

func (w *worker) race() string {
	fs, _ := filepath.Glob(w.log + ".*")
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err == nil && len(b) > 0 {
			if len(b) > 6000 {
				b = b[:6000]
			}
			return "\n" + string(b)
		}
	}
	return ""
}

func workerMain(id string) {
	s := suites[id]
	if s == nil {
		os.Exit(2)
	}
	scs := s.Scenarios(os.Getenv("VERIF_TIER") == "thorough")
	out := os.NewFile(1, "out")
	devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = devnull
	in := bufio.NewScanner(os.Stdin)
	done := 0
	for in.Scan() {
		var i int
		var ms int64
		fmt.Sscanf(in.Text(), "%d %d", &i, &ms)
		r := explore(scs[i], time.Duration(ms)*time.Millisecond, func() { fmt.Fprintln(out, "alive") })
		r.Index = i
		done += int(r.Execs)
		r.Retire = s.Retire > 0 && done >= s.Retire
		b, _ := json.Marshal(r)
		fmt.Fprintln(out, string(b))
		if r.Violation != "" {
			os.Exit(0)
		}
	}
}

const maxSteps = 60000

// exec runs one execution of the scenario; seqOrder != nil runs the calls one
// at a time in that order instead.
type outcome struct {
	recs   [][]hist.Rec
	digest string
	sched  *sched.Sched
	check  string
}

func callOp(o Op, w any) (out string) {
	defer func() {
		if p := recover(); p != nil {
			out = fmt.Sprintf("panic: %v", p)
		}
	}()
	return o.Do(w)
}

func execute(sc *Scenario, p *sched.Path, order []int, kinds sched.Kind) outcome {
	var o outcome
	hist.Reset()
	shim.ResetWaiters()
	var ids [][]int
	k := 0
	for _, t := range sc.Threads {
		var l []int
		for range t {
			l = append(l, k)
			k++
		}
		ids = append(ids, l)
	}
	var main func()
	main = func() {
		w := sc.New()
		if order != nil {
			next := make([]int, len(sc.Threads))
			for _, t := range order {
				j := next[t]
				next[t]++
				id := ids[t][j]
				hist.Inv(id)
				hist.Res(id, callOp(sc.Threads[t][j], w))
			}
		} else {
			var ts []*sched.Thread
			for t := range sc.Threads {
				t := t
				ts = append(ts, sched.Spawn(fmt.Sprintf("thread %d (%s)", t, opNames(sc.Threads[t])), func() {
					for j, op := range sc.Threads[t] {
						if j > 0 {
							sched.Point(sched.KUser)
						}
						sched.Fresh()
						hist.Inv(ids[t][j])
						hist.Res(ids[t][j], callOp(op, w))
					}
				}))
			}
			sched.Join(ts...)
		}
		o.recs = make([][]hist.Rec, len(ids))
		for t := range ids {
			for _, id := range ids[t] {
				o.recs[t] = append(o.recs[t], hist.Get(id))
			}
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					o.digest = fmt.Sprintf("panic: %v", p)
				}
			}()
			if sc.Digest != nil {
				o.digest = sc.Digest(w)
			}
			if sc.Check != nil {
				o.check = sc.Check(w, o.recs)
			}
		}()
		if sc.Free != nil {
			sc.Free(w)
		}
	}
	o.sched = sched.Exec(p, kinds, maxSteps, main)
	if o.sched.Outcome != "" && o.recs == nil {
		o.recs = make([][]hist.Rec, len(ids))
		for t := range ids {
			for _, id := range ids[t] {
				o.recs[t] = append(o.recs[t], hist.Get(id))
			}
		}
	}
	return o
}

func opNames(ops []Op) string {
	var l []string
	for _, o := range ops {
		l = append(l, o.Name)
	}
	return strings.Join(l, "; ")
}

func (o *outcome) key() string {
	var b bytes.Buffer
	for _, t := range o.recs {
		for _, r := range t {
			b.WriteString(r.Out)
			b.WriteByte(0)
		}
	}
	b.WriteString(o.digest)
	return b.String()
}

func (o *outcome) describe(sc *Scenario) string {
	var b strings.Builder
	type ev struct {
		at int
		s  string
	}
	var l []ev
	for t := range o.recs {
		for j, r := range o.recs[t] {
			if r.Inv > 0 {
				l = append(l, ev{r.Inv, fmt.Sprintf("thread %d calls %s", t, sc.Threads[t][j].Name)})
			}
			if r.Done {
				l = append(l, ev{r.Res, fmt.Sprintf("thread %d: %s returns %s", t, sc.Threads[t][j].Name, r.Out)})
			}
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].at < l[j].at })
	for _, e := range l {
		b.WriteString("  " + e.s + "\n")
	}
	if o.sched.Outcome != "" {
		b.WriteString("  outcome: " + o.sched.Outcome + "\n")
	}
	if o.digest != "" {
		b.WriteString("  final state: " + o.digest + "\n")
	}
	fmt.Fprintf(&b, "  thread that ran at each step: %s\n", o.sched.TraceString())
	return b.String()
}

// orders enumerates the interleavings of whole calls.
func orders(n []int) [][]int {
	var out [][]int
	left := append([]int{}, n...)
	var cur []int
	var rec func()
	rec = func() {
		done := true
		for t := range left {
			if left[t] > 0 {
				done = false
				left[t]--
				cur = append(cur, t)
				rec()
				cur = cur[:len(cur)-1]
				left[t]++
			}
		}
		if done {
			out = append(out, append([]int{}, cur...))
		}
	}
	rec()
	return out
}

// consistent tells whether the order respects the observed real-time order.
func consistent(order []int, recs [][]hist.Rec) bool {
	next := make([]int, len(recs))
	var seq []hist.Rec
	for _, t := range order {
		seq = append(seq, recs[t][next[t]])
		next[t]++
	}
	for i := range seq {
		for j := i + 1; j < len(seq); j++ {
			// j after i in the order: j must not have returned before i was called
			if seq[j].Res < seq[i].Inv {
				return false
			}
		}
	}
	return true
}

func explore(sc *Scenario, limit time.Duration, alive func()) (r result) {
	r.Name = sc.Name
	start := time.Now()
	lastAlive := start
	races := sched.RaceErrors()
	fail := func(key string, f string, a ...any) {
		r.Violation = fmt.Sprintf(f, a...)
		r.Key = key + ": " + sc.Name
	}
	allowed := map[string][][]int{}
	if sc.Check == nil {
		var n []int
		for _, t := range sc.Threads {
			n = append(n, len(t))
		}
		for _, ord := range orders(n) {
			o := execute(sc, sched.NewPath(0), ord, 0)
			r.Orders++
			if o.sched.Outcome != "" {
				fail("deadlock", "calls made one at a time do not return (%s)\n%s", o.sched.Outcome, o.describe(sc))
				return
			}
			allowed[o.key()] = append(allowed[o.key()], ord)
		}
	}
	kinds := sc.Kinds
	if kinds == 0 {
		kinds = sched.KAll
	}
	kinds |= sched.KUser
	p := sched.NewPath(sc.Bound)
	p.Delay = sc.Delay
	r.Bound = sc.Bound
	seen := map[string]bool{}
	for {
		o := execute(sc, p, nil, kinds)
		r.Execs++
		r.Steps += int64(o.sched.Steps())
		if p.Len() > r.MaxChoices {
			r.MaxChoices = p.Len()
		}
		switch {
		case o.sched.Outcome != "":
			fail("no-return", "some call never returns: %s\n%s\nschedule %v", o.sched.Outcome, o.describe(sc), p.Picks())
			return
		case sched.RaceErrors() != races:
			fail("race", "data race\n%s\nschedule %v", o.describe(sc), p.Picks())
			return
		case sc.Check != nil:
			if o.check != "" {
				fail("wrong", "%s\n%s\nschedule %v", o.check, o.describe(sc), p.Picks())
				return
			}
			seen[o.key()] = true
		default:
			k := o.key()
			seen[k] = true
			good := false
			for _, ord := range allowed[k] {
				if consistent(ord, o.recs) {
					good = true
					break
				}
			}
			if !good {
				why := "no one-at-a-time order gives these results and this final state"
				if len(allowed[k]) > 0 {
					why = "the one-at-a-time orders giving these results contradict the real-time order of the calls"
				}
				var alts []string
				for a := range allowed {
					alts = append(alts, strings.ReplaceAll(a, "\x00", " | "))
				}
				sort.Strings(alts)
				fail("not-linearizable", "%s\n%s  possible one at a time:\n    %s\nschedule %v", why, o.describe(sc), strings.Join(alts, "\n    "), p.Picks())
				return
			}
		}
		if !p.Next() {
			r.Complete = true
			break
		}
		if sc.Limit > 0 && r.Execs >= int64(sc.Limit) {
			break
		}
		if r.Execs%16 == 0 {
			now := time.Now()
			if now.Sub(lastAlive) > 2*time.Second {
				alive()
				lastAlive = now
			}
			if now.Sub(start) > limit {
				break
			}
		}
	}
	r.Unbounded = r.Complete && !p.Pruned
	r.Outcomes = len(seen)
	r.Diverged = p.Diverged
	return
}
