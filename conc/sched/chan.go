package sched

import "unsafe"

// chanCore is a channel of the program under test.
type chanCore struct {
	buf    []any
	slots  []byte // one happens-before variable per slot
	head   int
	n      int
	closed bool
	cl     byte
}

type Chan[T any] struct{ c *chanCore }

func MakeChan[T any](size int) *Chan[T] {
	return &Chan[T]{makeCore(size)}
}

func makeCore(size int) *chanCore {
	if size < 0 {
		panic("makechan: size out of range")
	}
	return &chanCore{buf: make([]any, size), slots: make([]byte, size+1)}
}

func As[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

func Use(i int, _ any, _ bool) int { return i }

func core[T any](c *Chan[T]) *chanCore {
	if c == nil {
		return nil
	}
	return c.c
}

func (c *Chan[T]) Send(v T) { selectOp(false, []Case{{core(c), true, v}}) }
func (c *Chan[T]) Recv() T {
	_, v, _ := selectOp(false, []Case{{core(c), false, nil}})
	return As[T](v)
}
func (c *Chan[T]) Recv2() (T, bool) {
	_, v, ok := selectOp(false, []Case{{core(c), false, nil}})
	return As[T](v), ok
}
func (c *Chan[T]) SendCase(v T) Case { return Case{core(c), true, v} }
func (c *Chan[T]) RecvCase() Case    { return Case{core(c), false, nil} }
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	return c.c.length()
}
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return len(c.c.buf)
}
func (c *Chan[T]) Close() { closeCore(core(c)) }

func (c *chanCore) length() int { Point(KChan); return c.n }

func closeCore(c *chanCore) {
	if c == nil {
		panic("close of nil channel")
	}
	Point(KChan)
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	RaceRelease(unsafe.Pointer(&c.cl))
}

// Case is a communication of a select statement.
type Case struct {
	c    *chanCore
	send bool
	v    any
}

// Select performs one of the cases; default is len(cases)+0 reported as -1.
func Select(hasDefault bool, cases ...Case) (int, any, bool) { return selectOp(hasDefault, cases) }

type selBlock struct{ cases []Case }

func (b selBlock) Ready(t *Thread) bool {
	if t != nil && t.hit >= 0 {
		return true
	}
	for i := range b.cases {
		if b.cases[i].ready(t) {
			return true
		}
	}
	return false
}

func (b selBlock) Describe() string {
	if len(b.cases) == 1 {
		if b.cases[0].send {
			return "channel send"
		}
		return "channel receive"
	}
	return "select"
}

// partner finds a goroutine other than t waiting with the opposite operation on
// an unbuffered channel.
func (k *Case) partners(t *Thread) (out [maxThreads]int8, n int) {
	s := S
	if s == nil {
		return
	}
	for i := 0; i < s.n; i++ {
		x := s.threads[i]
		if x == t || x.done || !x.selecting || x.hit >= 0 {
			continue
		}
		for j := range x.cases {
			if x.cases[j].c == k.c && x.cases[j].send != k.send {
				out[n] = int8(i)
				n++
				break
			}
		}
	}
	return
}

func (k *Case) ready(t *Thread) bool {
	if k.c == nil {
		return false
	}
	if k.c.closed {
		return true
	}
	if len(k.c.buf) == 0 {
		_, n := k.partners(t)
		return n > 0
	}
	if k.send {
		return k.c.n < len(k.c.buf)
	}
	return k.c.n > 0
}

func selectOp(hasDefault bool, cases []Case) (int, any, bool) {
	s := S
	var t *Thread
	if s != nil {
		t = s.cur
		t.hit = -1
		t.cases = cases
	}
	b := selBlock{cases}
	Point(KChan)
	if !hasDefault {
		if t != nil {
			t.selecting = true
			// what this goroutine did before is visible to a partner
			for i := range cases {
				if c := cases[i].c; c != nil && len(c.buf) == 0 {
					RaceReleaseMerge(unsafe.Pointer(&c.slots[0]))
				}
			}
		}
		Wait(0, b)
		if t != nil {
			t.selecting = false
			if t.hit >= 0 {
				RaceAcquire(unsafe.Pointer(&cases[t.hit].c.slots[0]))
				h, v, ok := t.hit, t.val, t.ok
				t.hit, t.val, t.cases = -1, nil, nil
				return h, v, ok
			}
		}
	}
	n := 0
	var idx [64]int
	for i := range cases {
		if cases[i].ready(t) {
			idx[n] = i
			n++
		}
	}
	if n == 0 {
		if hasDefault {
			return -1, nil, false
		}
		panic("sched: select woke without a ready case")
	}
	i := idx[Choose(n)]
	k := &cases[i]
	c := k.c
	if t != nil {
		t.cases = nil
	}
	if c.closed {
		if k.send {
			panic("send on closed channel")
		}
		if c.n == 0 {
			RaceAcquire(unsafe.Pointer(&c.cl))
			return i, nil, false
		}
	}
	if len(c.buf) == 0 {
		ps, pn := k.partners(t)
		x := s.threads[ps[Choose(pn)]]
		for j := range x.cases {
			if x.cases[j].c == c && x.cases[j].send != k.send {
				x.hit = j
				break
			}
		}
		RaceReleaseMerge(unsafe.Pointer(&c.slots[0]))
		RaceAcquire(unsafe.Pointer(&c.slots[0]))
		if k.send {
			x.val, x.ok = k.v, true
			return i, nil, false
		}
		return i, x.cases[x.hit].v, true
	}
	if k.send {
		p := (c.head + c.n) % len(c.buf)
		RaceAcquire(unsafe.Pointer(&c.slots[p]))
		RaceRelease(unsafe.Pointer(&c.slots[p]))
		c.buf[p] = k.v
		c.n++
		return i, nil, false
	}
	p := c.head
	v := c.buf[p]
	c.buf[p] = nil
	c.head = (c.head + 1) % len(c.buf)
	c.n--
	RaceAcquire(unsafe.Pointer(&c.slots[p]))
	RaceRelease(unsafe.Pointer(&c.slots[p]))
	return i, v, true
}
