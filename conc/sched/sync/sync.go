// Package sync stands in for the standard package of that name.
package sync

import (
	"fmt"
	real "sync"
	"unsafe"

	"verif/sched"
)

type Locker = real.Locker

// Mutex

type Mutex struct {
	held bool
	who  int
	v    byte
}

type mutexFree struct{ m *Mutex }

func (f mutexFree) Ready(*sched.Thread) bool { return !f.m.held }
func (f mutexFree) Describe() string         { return "Mutex.Lock" }

func (m *Mutex) Lock() {
	sched.Wait(sched.KLock, mutexFree{m})
	m.held = true
	sched.RaceAcquire(unsafe.Pointer(&m.v))
}

func (m *Mutex) TryLock() bool {
	sched.Point(sched.KLock)
	if m.held {
		return false
	}
	m.held = true
	sched.RaceAcquire(unsafe.Pointer(&m.v))
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	sched.RaceRelease(unsafe.Pointer(&m.v))
	m.held = false
}

// RWMutex: a waiting writer keeps new readers out, as in the standard package.

type RWMutex struct {
	writer  bool // held for writing
	pending bool // a writer waits for the readers to leave
	readers int
	granted int // readers let in by an Unlock that have not run yet
	waiting int
	r, w    byte
}

type rFree struct {
	m   *RWMutex
	tok *bool
}

func (f *rFree) Ready(*sched.Thread) bool {
	return *f.tok || !f.m.writer && !f.m.pending
}
func (f *rFree) Describe() string { return "RWMutex.RLock" }

type waitList struct{ toks []*bool }

func (m *RWMutex) RLock() {
	// a goroutine that finds a writer queues up; the writer's Unlock lets it in
	sched.Point(sched.KLock)
	if m.writer || m.pending {
		var tok bool
		e := addWaiter(m, &tok)
		sched.Wait(0, &rFree{m, &tok})
		dropWaiter(m, e)
		if tok {
			m.granted--
		}
	}
	m.readers++
	sched.RaceAcquire(unsafe.Pointer(&m.r))
}

var waiters [64]struct {
	m   *RWMutex
	tok *bool
}

func addWaiter(m *RWMutex, tok *bool) int {
	for i := range waiters {
		if waiters[i].m == nil {
			waiters[i].m, waiters[i].tok = m, tok
			return i
		}
	}
	panic("sched: too many waiting readers")
}

func dropWaiter(m *RWMutex, i int) { waiters[i].m, waiters[i].tok = nil, nil }

// ResetWaiters forgets the readers of an abandoned execution.
func ResetWaiters() {
	for i := range waiters {
		waiters[i].m, waiters[i].tok = nil, nil
	}
}

func (m *RWMutex) TryRLock() bool {
	sched.Point(sched.KLock)
	if m.writer || m.pending {
		return false
	}
	m.readers++
	sched.RaceAcquire(unsafe.Pointer(&m.r))
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	sched.RaceReleaseMerge(unsafe.Pointer(&m.w))
	m.readers--
}

type wFree struct{ m *RWMutex }

func (f wFree) Ready(*sched.Thread) bool { return !f.m.writer && !f.m.pending }
func (f wFree) Describe() string         { return "RWMutex.Lock" }

type rGone struct{ m *RWMutex }

func (f rGone) Ready(*sched.Thread) bool { return f.m.readers == 0 && f.m.granted == 0 }
func (f rGone) Describe() string         { return "RWMutex.Lock (readers inside)" }

func (m *RWMutex) Lock() {
	sched.Wait(sched.KLock, wFree{m})
	m.pending = true
	if m.readers != 0 || m.granted != 0 {
		sched.Wait(0, rGone{m})
	}
	m.pending, m.writer = false, true
	sched.RaceAcquire(unsafe.Pointer(&m.r))
	sched.RaceAcquire(unsafe.Pointer(&m.w))
}

func (m *RWMutex) TryLock() bool {
	sched.Point(sched.KLock)
	if m.writer || m.pending || m.readers != 0 || m.granted != 0 {
		return false
	}
	m.writer = true
	sched.RaceAcquire(unsafe.Pointer(&m.r))
	sched.RaceAcquire(unsafe.Pointer(&m.w))
	return true
}

func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	sched.RaceRelease(unsafe.Pointer(&m.r))
	m.writer = false
	for i := range waiters {
		if waiters[i].m == m && !*waiters[i].tok {
			*waiters[i].tok = true
			m.granted++
		}
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once

type Once struct {
	done bool
	m    Mutex
	v    byte
}

func (o *Once) Do(f func()) {
	sched.Point(sched.KOnce)
	if o.done {
		sched.RaceAcquire(unsafe.Pointer(&o.v))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			sched.RaceRelease(unsafe.Pointer(&o.v))
			o.done = true
			done = append(done, o)
		}()
		f()
	}
}

var done []*Once

// ForgetOnces makes every Once run its function again.
func ForgetOnces() {
	for _, o := range done {
		*o = Once{}
	}
	done = nil
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// WaitGroup

type WaitGroup struct {
	n int
	v byte
}

type wgZero struct{ w *WaitGroup }

func (z wgZero) Ready(*sched.Thread) bool { return z.w.n == 0 }
func (z wgZero) Describe() string         { return "WaitGroup.Wait" }

func (w *WaitGroup) Add(d int) {
	sched.Point(sched.KWait)
	if d < 0 {
		sched.RaceReleaseMerge(unsafe.Pointer(&w.v))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() { defer w.Done(); f() })
}
func (w *WaitGroup) Wait() {
	sched.Wait(sched.KWait, wgZero{w})
	sched.RaceAcquire(unsafe.Pointer(&w.v))
}

// Pool: last in, first out; emptied at the start of every execution.

type Pool struct {
	New   func() any
	epoch int
	items [256]any
	v     [256]byte
	n     int
}

func (p *Pool) fresh() {
	if e := sched.Epoch(); p.epoch != e {
		p.epoch = e
		for i := 0; i < p.n; i++ {
			p.items[i] = nil
		}
		p.n = 0
	}
}

func (p *Pool) Get() any {
	sched.Point(sched.KPool)
	x := p.pop()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

func (p *Pool) pop() any {
	p.fresh()
	if p.n == 0 {
		return nil
	}
	p.n--
	x := p.items[p.n]
	p.items[p.n] = nil
	sched.RaceAcquire(unsafe.Pointer(&p.v[p.n]))
	return x
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	sched.Point(sched.KPool)
	p.fresh()
	if p.n == len(p.items) {
		return
	}
	sched.RaceRelease(unsafe.Pointer(&p.v[p.n]))
	p.items[p.n] = x
	p.n++
}

// Map keeps its entries in order of insertion.

type Map struct {
	e []*entry
	n int
}

type entry struct {
	k, v any
	live bool
	hb   byte
}

func (m *Map) find(k any) *entry {
	for i := 0; i < m.n; i++ {
		if m.e[i].k == k {
			return m.e[i]
		}
	}
	return nil
}

func (m *Map) slot(k any) *entry {
	if x := m.find(k); x != nil {
		return x
	}
	if m.n == len(m.e) {
		ne := make([]*entry, 2*m.n+8)
		for i := 0; i < m.n; i++ {
			ne[i] = m.e[i]
		}
		m.e = ne
	}
	x := &entry{k: k}
	m.e[m.n] = x
	m.n++
	return x
}

func (x *entry) sync() {
	sched.RaceAcquire(unsafe.Pointer(&x.hb))
	sched.RaceRelease(unsafe.Pointer(&x.hb))
}

func (m *Map) Load(k any) (any, bool) {
	sched.Point(sched.KMap)
	x := m.find(k)
	if x == nil {
		return nil, false
	}
	sched.RaceAcquire(unsafe.Pointer(&x.hb))
	if !x.live {
		return nil, false
	}
	return x.v, true
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	sched.Point(sched.KMap)
	x := m.slot(k)
	x.sync()
	old, ok := x.v, x.live
	x.v, x.live = v, true
	return old, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	sched.Point(sched.KMap)
	x := m.slot(k)
	x.sync()
	if x.live {
		return x.v, true
	}
	x.v, x.live = v, true
	return v, false
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) LoadAndDelete(k any) (any, bool) {
	sched.Point(sched.KMap)
	x := m.find(k)
	if x == nil {
		return nil, false
	}
	x.sync()
	if !x.live {
		return nil, false
	}
	v := x.v
	x.v, x.live = nil, false
	return v, true
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	sched.Point(sched.KMap)
	x := m.find(k)
	if x == nil {
		return false
	}
	x.sync()
	if !x.live || x.v != o {
		return false
	}
	x.v = n
	return true
}
func (m *Map) CompareAndDelete(k, o any) bool {
	sched.Point(sched.KMap)
	x := m.find(k)
	if x == nil {
		return false
	}
	x.sync()
	if !x.live || x.v != o {
		return false
	}
	x.v, x.live = nil, false
	return true
}
func (m *Map) Clear() {
	sched.Point(sched.KMap)
	for i := 0; i < m.n; i++ {
		m.e[i].sync()
		m.e[i].v, m.e[i].live = nil, false
	}
}
func (m *Map) Range(f func(k, v any) bool) {
	sched.Point(sched.KMap)
	for i := 0; i < m.n; i++ {
		if i > 0 {
			sched.Point(sched.KMap)
		}
		x := m.e[i]
		if !x.live {
			continue
		}
		sched.RaceAcquire(unsafe.Pointer(&x.hb))
		if !f(x.k, x.v) {
			return
		}
	}
}

// Cond

type Cond struct {
	L       Locker
	tickets [64]*bool
	n       int
	v       byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

type condSig struct{ b *bool }

func (c condSig) Ready(*sched.Thread) bool { return *c.b }
func (c condSig) Describe() string         { return "Cond.Wait" }

func (c *Cond) Wait() {
	var sig bool
	if c.n == len(c.tickets) {
		panic(fmt.Sprint("sched: too many waiters"))
	}
	c.tickets[c.n] = &sig
	c.n++
	c.L.Unlock()
	sched.Wait(sched.KWait, condSig{&sig})
	sched.RaceAcquire(unsafe.Pointer(&c.v))
	c.L.Lock()
}
func (c *Cond) Signal() {
	sched.Point(sched.KWait)
	sched.RaceReleaseMerge(unsafe.Pointer(&c.v))
	if c.n > 0 {
		*c.tickets[0] = true
		for i := 1; i < c.n; i++ {
			c.tickets[i-1] = c.tickets[i]
		}
		c.n--
	}
}
func (c *Cond) Broadcast() {
	sched.Point(sched.KWait)
	sched.RaceReleaseMerge(unsafe.Pointer(&c.v))
	for i := 0; i < c.n; i++ {
		*c.tickets[i] = true
	}
	c.n = 0
}
