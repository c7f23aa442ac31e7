// Package sched runs a program one goroutine at a time and decides at every
// synchronization operation which one goes on, so that all interleavings can
// be enumerated. It is compiled without race instrumentation; the
// happens-before edges of the operations it stands in for are announced to the
// race detector explicitly, and hand-overs between goroutines announce none.
package sched

import (
	"fmt"
	"time"
	"unsafe"
)

// Kind classes of synchronization operations; a scenario may leave some out
// as places to switch.
type Kind uint32

const (
	KLock Kind = 1 << iota
	KAtomic
	KPool
	KMap
	KChan
	KOnce
	KWait
	KGo
	KUser
	KAll Kind = 1<<iota - 1
)

const (
	maxThreads = 32
	maxDepth   = 1 << 16
)

// Blocker tells whether a waiting goroutine may go on.
type Blocker interface{ Ready(t *Thread) bool }

type Thread struct {
	id      int
	wake    chan struct{}
	block   Blocker // nil: may go on
	done    bool
	yielded bool // gave way: goes on only after another made a step
	daemon  bool // started by the code under test
	name    string
	fresh   bool // the next schedule point is the start of the operation just announced

	// for channel rendezvous
	cases     []Case
	hit       int // case completed by a partner, -1
	val       any
	ok        bool
	selecting bool
}

// choice is one entry of the exploration's path.
type choice struct {
	n      int // number of alternatives
	pick   int
	order  [maxThreads]int8 // thread ids in order of preference (thread choices)
	thread bool
	pre    bool // the running thread could have gone on
}

// Path is the explorer's state, kept over the executions of one scenario.
type Path struct {
	ch       []choice // capacity maxDepth
	n        int
	pos      int
	Bound    int  // allowed preemptions
	Delay    bool // count every choice of a thread other than the first in order
	Pruned   bool // an alternative was left out because of the bound
	preempt  int
	Diverged int
}

type Sched struct {
	threads  [maxThreads]*Thread
	n        int
	cur      *Thread
	path     *Path
	kinds    Kind
	steps    int
	quiet    bool
	run      int // consecutive steps of the current thread
	ctl      chan struct{}
	Outcome  string // "", "deadlock: ...", "livelock"
	MaxSteps int
	over     bool
	joinVar  byte
	Trace    [256]int8
	epoch    int
}

// S is the running exploration; nil outside of one.
var S *Sched
var epoch int

// Epoch numbers executions; pooled state is dropped when it changes.
func Epoch() int { return epoch }

func NewPath(bound int) *Path { return &Path{ch: make([]choice, maxDepth), Bound: bound} }

// Next moves to the next unexplored path; false if there is none.
func (p *Path) Next() bool {
	for p.n > 0 {
		c := &p.ch[p.n-1]
		if c.pick+1 < c.n {
			c.pick++
			return true
		}
		p.n--
	}
	return false
}

func (p *Path) Len() int { return p.n }

// Picks returns the choices of the current path.
func (p *Path) Picks() []int {
	o := make([]int, p.n)
	for i := range o {
		o[i] = p.ch[i].pick
	}
	return o
}

// SetPicks makes the next execution follow the given choices.
func (p *Path) SetPicks(l []int) {
	p.n = len(l)
	for i, v := range l {
		p.ch[i] = choice{n: -1, pick: v}
	}
}

func (p *Path) start() { p.pos, p.preempt = 0, 0 }

// Exec runs main under the scheduler following path p and returns the outcome
// ("" when every non-daemon thread finished).
func Exec(p *Path, kinds Kind, maxSteps int, main func()) *Sched {
	s := &Sched{path: p, kinds: kinds, ctl: make(chan struct{}, 1), MaxSteps: maxSteps}
	epoch++
	s.epoch = epoch
	p.start()
	S = s
	t := s.newThread("main", false)
	go func() {
		RaceDisable()
		<-t.wake
		RaceEnable()
		main()
		s.exit(t)
	}()
	s.cur = t
	RaceDisable()
	t.wake <- struct{}{}
	<-s.ctl
	RaceEnable()
	RaceAcquire(unsafe.Pointer(&s.joinVar))
	S = nil
	if p.pos < p.n { // the path was longer than this execution
		p.Diverged++
		p.n = p.pos
	}
	return s
}

func (s *Sched) newThread(name string, daemon bool) *Thread {
	if s.n >= maxThreads {
		panic("sched: too many goroutines")
	}
	t := &Thread{id: s.n, wake: make(chan struct{}, 1), name: name, daemon: daemon, hit: -1}
	s.threads[s.n] = t
	s.n++
	return t
}

func (t *Thread) SetName(n string) { t.name = n }

// Cur returns the running thread.
func Cur() *Thread {
	if S == nil {
		return nil
	}
	return S.cur
}

func (t *Thread) ID() int { return t.id }

// Go starts f as a new goroutine of the program under test.
func Go(f func()) {
	s := S
	if s == nil {
		panic("sched: go statement outside of an execution")
	}
	s.spawn(f, "go", true)
	Point(KGo)
}

// Spawn starts f as a thread of the scenario.
func Spawn(name string, f func()) *Thread {
	return S.spawn(f, name, false)
}

func (s *Sched) spawn(f func(), name string, daemon bool) *Thread {
	t := s.newThread(name, daemon)
	go func() {
		RaceDisable()
		<-t.wake
		RaceEnable()
		if s.over {
			select {}
		}
		f()
		s.exit(t)
	}()
	return t
}

type joinAll struct{ ts []*Thread }

func (j joinAll) Ready(*Thread) bool {
	for _, t := range j.ts {
		if !t.done {
			return false
		}
	}
	return true
}

// Join waits until the given threads are done.
func Join(ts ...*Thread) {
	Wait(KUser, joinAll{ts})
	RaceAcquire(unsafe.Pointer(&S.joinVar))
}

// Done tells whether the thread is finished.
func (t *Thread) Done() bool { return t.done }

// Idle waits until no other goroutine can go on.
func Idle() { Wait(KUser, idle{}) }

type idle struct{}

func (idle) Ready(me *Thread) bool {
	s := S
	for i := 0; i < s.n; i++ {
		t := s.threads[i]
		if t == me || t.done {
			continue
		}
		if _, ok := t.block.(idle); ok {
			continue
		}
		if t.block == nil || t.block.Ready(t) {
			return false
		}
	}
	return true
}

// AliveDaemons counts the unfinished goroutines the code under test started.
func AliveDaemons() int {
	n := 0
	for i := 0; i < S.n; i++ {
		if S.threads[i].daemon && !S.threads[i].done {
			n++
		}
	}
	return n
}

func (s *Sched) exit(t *Thread) {
	RaceReleaseMerge(unsafe.Pointer(&s.joinVar))
	t.done = true
	s.next(t)
}

// Point is a place where another goroutine may take over.
func Point(k Kind) {
	s := S
	if s == nil || s.over {
		return
	}
	if s.kinds&k == 0 {
		return
	}
	t := s.cur
	if t.fresh && k != KUser {
		// the start of the operation was a schedule point already
		t.fresh = false
		return
	}
	s.next(t)
}

// Fresh marks that the next point follows a schedule point immediately.
func Fresh() {
	if S != nil {
		S.cur.fresh = true
	}
}

// Wait is a schedule point after which the calling goroutine goes on only when
// b is ready.
func Wait(k Kind, b Blocker) {
	s := S
	if s == nil {
		if !b.Ready(nil) {
			panic("sched: blocks forever (single goroutine)")
		}
		return
	}
	if s.over {
		select {}
	}
	t := s.cur
	if t.fresh || s.kinds&k == 0 {
		t.fresh = false
		if b.Ready(t) {
			return
		}
	}
	t.block = b
	s.next(t)
	t.block = nil
}

// Sleep and Gosched give way to the others.
func Sleep(time.Duration) { yield() }
func Gosched(...any)      { yield() }

func yield() {
	s := S
	if s == nil || s.over {
		return
	}
	t := s.cur
	t.yielded = true
	s.next(t)
}

// next picks the thread to run and hands over to it; called by the running
// thread t, which may be done.
func (s *Sched) next(t *Thread) {
	s.steps++
	if s.steps > s.MaxSteps {
		s.finish(t, "livelock")
		return
	}
	var order [maxThreads]int8
	n := 0
	self := false
	ready := func(x *Thread) bool {
		return !x.done && !x.yielded && (x.block == nil || x.block.Ready(x))
	}
	if ready(t) {
		order[0] = int8(t.id)
		n = 1
		self = true
	}
	for i := 0; i < s.n; i++ {
		x := s.threads[i]
		if x != t && ready(x) {
			order[n] = int8(i)
			n++
		}
	}
	if n == 0 {
		// those that gave way may go on when nobody else can
		for i := 0; i < s.n; i++ {
			x := s.threads[i]
			if x.yielded {
				x.yielded = false
				if ready(x) {
					order[n] = int8(i)
					n++
				} else {
					x.yielded = true
				}
			}
		}
	}
	if n == 0 {
		out := ""
		for i := 0; i < s.n; i++ {
			x := s.threads[i]
			if !x.done && !x.daemon {
				out += fmt.Sprintf(" %s waits in %s;", x.name, describe(x.block))
			}
		}
		if out != "" {
			out = "deadlock:" + out
		}
		s.finish(t, out)
		return
	}
	if self && n > 1 {
		s.run++
		if s.run > 2000 { // let the others go on without branching
			s.run = 0
			order[0], order[1] = order[1], order[0]
			self = false
			n = 1
		}
	}
	pick := 0
	if n > 1 {
		pick = s.choose(n, true, self, &order)
	}
	x := s.threads[order[pick]]
	if s.steps < len(s.Trace) {
		s.Trace[s.steps-1] = order[pick]
	}
	if x != t {
		s.run = 0
		for i := 0; i < s.n; i++ {
			if y := s.threads[i]; y != x {
				y.yielded = false
			}
		}
	}
	x.yielded = false
	s.cur = x
	if x == t {
		return
	}
	RaceDisable()
	x.wake <- struct{}{}
	if !t.done {
		<-t.wake
	}
	RaceEnable()
	if s.over && !t.done {
		select {}
	}
}

// choose follows or extends the path.
func (s *Sched) choose(n int, thread, self bool, order *[maxThreads]int8) int {
	p := s.path
	if s.quiet {
		return 0
	}
	alt := n
	if thread && (self || p.Delay) && p.Bound >= 0 && p.preempt >= p.Bound {
		if n > 1 {
			p.Pruned = true
		}
		alt = 1
	}
	if alt == 1 {
		return 0
	}
	if p.pos >= maxDepth {
		s.Outcome = "path too long"
		return 0
	}
	c := &p.ch[p.pos]
	if p.pos < p.n {
		if c.n == -1 { // imposed
			c.n = alt
			if c.pick >= alt {
				c.pick = 0
				p.Diverged++
			}
		} else if c.n != alt {
			p.Diverged++
			c.n = alt
			if c.pick >= alt {
				c.pick = alt - 1
			}
			p.n = p.pos + 1
		}
	} else {
		c.n, c.pick, c.thread, c.pre = alt, 0, thread, self
		p.n = p.pos + 1
	}
	p.pos++
	if thread && (self || p.Delay) && c.pick != 0 {
		p.preempt++
	}
	return c.pick
}

// Quiet ends the exploration of alternatives for the rest of the execution.
func Quiet() { S.quiet = true }

// Choose makes an explored choice among n alternatives.
func Choose(n int) int {
	if S == nil || n <= 1 {
		return 0
	}
	return S.choose(n, false, false, nil)
}

func (s *Sched) finish(t *Thread, out string) {
	s.Outcome = out
	s.over = true
	RaceDisable()
	s.ctl <- struct{}{}
	if !t.done {
		<-t.wake // forever
	}
	RaceEnable()
}

func describe(b Blocker) string {
	if d, ok := b.(interface{ Describe() string }); ok {
		return d.Describe()
	}
	return fmt.Sprintf("%T", b)
}
func (idle) Describe() string    { return "idle wait" }
func (joinAll) Describe() string { return "join" }

// Steps is the number of scheduling steps of the execution.
func (s *Sched) Steps() int { return s.steps }

// TraceString shows the thread that ran at each step.
func (s *Sched) TraceString() string {
	b := make([]byte, 0, 64)
	for i := 0; i < s.steps && i < len(s.Trace); i++ {
		b = append(b, "0123456789abcdefghijklmnopqrstuv"[s.Trace[i]])
	}
	return string(b)
}
