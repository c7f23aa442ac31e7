package main

import (
	"fmt"
	"sort"
	"strings"

	"verif/sched"
	satomic "verif/sched/atomic"
	"verif/sched/hist"
	shim "verif/sched/sync"
)

// litmus programs: small programs whose set of outcomes over all schedules is
// known from the Go memory model and the documentation of sync, channels and
// select. They are explored before every check: an explorer or a replacement
// that loses or invents behaviours must not decide anything.
type litmus struct {
	name string
	want string // outcomes in order, separated by spaces; ! is a blocked one, R a data race
	// the program returns the outcome when its threads are done
	prog func(run func(fs ...func())) string
	one  bool // a race stops the exploration
}

var litmuses = []litmus{
	{name: "store buffering", want: "01 10 11", prog: func(run func(...func())) string {
		var x, y int32
		var a, b hist.Cell
		run(func() { satomic.StoreInt32(&x, 1); a.Set(int(satomic.LoadInt32(&y))) },
			func() { satomic.StoreInt32(&y, 1); b.Set(int(satomic.LoadInt32(&x))) })
		return fmt.Sprint(a.Get()) + fmt.Sprint(b.Get())
	}},
	{name: "lost update", want: "1 2", prog: func(run func(...func())) string {
		var x int64
		inc := func() { v := satomic.LoadInt64(&x); satomic.StoreInt64(&x, v+1) }
		run(inc, inc)
		return fmt.Sprint(x)
	}},
	{name: "three lost updates", want: "1 2 3", prog: func(run func(...func())) string {
		var x int64
		inc := func() { v := satomic.LoadInt64(&x); satomic.StoreInt64(&x, v+1) }
		run(inc, inc, inc)
		return fmt.Sprint(x)
	}},
	{name: "mutex", want: "3", prog: func(run func(...func())) string {
		var x int64
		var m shim.Mutex
		inc := func() { m.Lock(); v := satomic.LoadInt64(&x); satomic.StoreInt64(&x, v+1); m.Unlock() }
		run(inc, inc, inc)
		return fmt.Sprint(x)
	}},
	{name: "mutex orders plain accesses", want: "2", prog: func(run func(...func())) string {
		x := new(int)
		var m shim.Mutex
		inc := func() { m.Lock(); *x++; m.Unlock() }
		run(inc, inc)
		return fmt.Sprint(*x)
	}},
	{name: "plain accesses race", want: "R", one: true, prog: func(run func(...func())) string {
		x := new(int)
		inc := func() { *x++ }
		run(inc, inc)
		return fmt.Sprint(*x)
	}},
	{name: "plain write under a read lock races", want: "R", one: true, prog: func(run func(...func())) string {
		x := new(int)
		var m shim.RWMutex
		inc := func() { m.RLock(); *x++; m.RUnlock() }
		run(inc, inc)
		return fmt.Sprint(*x)
	}},
	{name: "lock order", want: "! ok", prog: func(run func(...func())) string {
		var a, b shim.Mutex
		run(func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock() }, func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock() })
		return "ok"
	}},
	{name: "readers share, writers do not", want: "r1w1 r2w1", prog: func(run func(...func())) string {
		var m shim.RWMutex
		var in, max, win, wmax hist.Cell
		rd := func() {
			m.RLock()
			in.Add(1)
			if in.Get() > max.Get() {
				max.Set(in.Get())
			}
			if win.Get() > 0 {
				wmax.Set(9)
			}
			sched.Point(sched.KUser)
			in.Add(-1)
			m.RUnlock()
		}
		wr := func() {
			m.Lock()
			win.Add(1)
			if in.Get() > 0 {
				wmax.Set(8)
			}
			if wmax.Get() < win.Get() {
				wmax.Set(win.Get())
			}
			sched.Point(sched.KUser)
			win.Add(-1)
			m.Unlock()
		}
		run(rd, rd, wr)
		return fmt.Sprintf("r%dw%d", max.Get(), wmax.Get())
	}},
	{name: "a waiting writer keeps new readers out", want: "! ok", prog: func(run func(...func())) string {
		var m shim.RWMutex
		run(func() { m.RLock(); m.RLock(); m.RUnlock(); m.RUnlock() }, func() { m.Lock(); m.Unlock() })
		return "ok"
	}},
	{name: "try lock", want: "falsetrue truefalse truetrue", prog: func(run func(...func())) string {
		var m shim.Mutex
		var ok [2]bool
		t := func(i int) func() {
			return func() {
				if m.TryLock() {
					ok[i] = true
					sched.Point(sched.KUser)
					m.Unlock()
				}
			}
		}
		run(t(0), t(1))
		return fmt.Sprint(ok[0]) + fmt.Sprint(ok[1])
	}},
	{name: "once", want: "11", prog: func(run func(...func())) string {
		var o shim.Once
		var n, late hist.Cell
		late.Set(1)
		f := func() {
			o.Do(func() { sched.Point(sched.KUser); n.Add(1) })
			if n.Get() != 1 {
				late.Set(0)
			}
		}
		run(f, f)
		return fmt.Sprint(n.Get()) + fmt.Sprint(late.Get())
	}},
	{name: "wait group", want: "2", prog: func(run func(...func())) string {
		var w shim.WaitGroup
		x := new(int)
		var m shim.Mutex
		w.Add(2)
		f := func() { m.Lock(); *x++; m.Unlock(); w.Done() }
		out := ""
		run(f, f, func() { w.Wait(); out = fmt.Sprint(*x) })
		return out
	}},
	{name: "lost signal", want: "! ok", prog: func(run func(...func())) string {
		var m shim.Mutex
		c := shim.NewCond(&m)
		run(func() { m.Lock(); c.Wait(); m.Unlock() }, func() { c.Signal() })
		return "ok"
	}},
	{name: "kept condition", want: "ok", prog: func(run func(...func())) string {
		var m shim.Mutex
		c := shim.NewCond(&m)
		ready := false
		run(func() {
			m.Lock()
			for !ready {
				c.Wait()
			}
			m.Unlock()
		}, func() { m.Lock(); ready = true; m.Unlock(); c.Broadcast() })
		return "ok"
	}},
	{name: "pool", want: "new,new new,used", prog: func(run func(...func())) string {
		p := shim.Pool{New: func() any { return &[]string{"new"} }}
		var l [2]string
		f := func(i int) func() {
			return func() {
				x := p.Get().(*[]string)
				l[i] = (*x)[0]
				(*x)[0] = "used"
				p.Put(x)
			}
		}
		run(f(0), f(1))
		s := l[:]
		sort.Strings(s)
		return strings.Join(s, ",")
	}},
	{name: "unbuffered channel orders", want: "1", prog: func(run func(...func())) string {
		c := sched.MakeChan[int](0)
		x := new(int)
		out := 0
		run(func() { *x = 1; c.Send(0) }, func() { c.Recv(); out = *x })
		return fmt.Sprint(out)
	}},
	{name: "receive from an unbuffered channel orders the sender after it", want: "1", prog: func(run func(...func())) string {
		c := sched.MakeChan[int](0)
		x := new(int)
		out := 0
		run(func() { c.Send(0); out = *x }, func() { *x = 1; c.Recv() })
		return fmt.Sprint(out)
	}},
	{name: "a buffered channel does not order the sender after its receiver", want: "R", one: true, prog: func(run func(...func())) string {
		c := sched.MakeChan[int](1)
		x := new(int)
		run(func() { c.Send(0); *x = 2 }, func() { *x = 1; c.Recv() })
		return fmt.Sprint(*x)
	}},
	{name: "buffered channel", want: "12 21", prog: func(run func(...func())) string {
		c := sched.MakeChan[int](2)
		out := ""
		run(func() { c.Send(1) }, func() { c.Send(2) }, func() { out = fmt.Sprint(c.Recv()) + fmt.Sprint(c.Recv()) })
		return out
	}},
	{name: "full channel", want: "! ok", prog: func(run func(...func())) string {
		c := sched.MakeChan[int](1)
		d := sched.MakeChan[int](0)
		run(func() { c.Send(1); c.Send(2); d.Close() }, func() {
			switch i, _, _ := sched.Select(true, d.RecvCase(), c.RecvCase()); i {
			case 1:
				d.Recv()
			}
		})
		return "ok"
	}},
	{name: "close wakes everyone", want: "0false0false", prog: func(run func(...func())) string {
		c := sched.MakeChan[int](0)
		var l [2]string
		f := func(i int) func() { return func() { v, ok := c.Recv2(); l[i] = fmt.Sprint(v) + fmt.Sprint(ok) } }
		run(f(0), f(1), func() { c.Close() })
		return l[0] + l[1]
	}},
	{name: "closed buffer is drained", want: "7true0false", prog: func(run func(...func())) string {
		c := sched.MakeChan[int](1)
		out := ""
		run(func() { c.Send(7); c.Close() }, func() {
			for i := 0; i < 2; i++ {
				v, ok := c.Recv2()
				out += fmt.Sprint(v) + fmt.Sprint(ok)
			}
		})
		return out
	}},
	{name: "select takes any ready case", want: "0 1", prog: func(run func(...func())) string {
		a, b := sched.MakeChan[int](1), sched.MakeChan[int](1)
		a.Send(1)
		b.Send(1)
		out := ""
		run(func() { i, _, _ := sched.Select(false, a.RecvCase(), b.RecvCase()); out = fmt.Sprint(i) })
		return out
	}},
	{name: "select default", want: "-1 0", prog: func(run func(...func())) string {
		a := sched.MakeChan[int](1)
		out := ""
		run(func() { a.Send(1) }, func() { i, _, _ := sched.Select(true, a.RecvCase()); out = fmt.Sprint(i) })
		return out
	}},
	{name: "map order is fixed", want: "ab", prog: func(run func(...func())) string {
		m := map[string]int{"a": 1, "b": 2}
		out := ""
		run(func() {
			for it := sched.RangeMap(m); it.Next(); {
				out += it.K
			}
		})
		return out
	}},
	{name: "sync map", want: "falsetrue truefalse", prog: func(run func(...func())) string {
		var m shim.Map
		var l [2]bool
		f := func(i int) func() { return func() { _, l[i] = m.LoadOrStore("k", i) } }
		run(f(0), f(1))
		return fmt.Sprint(l[0]) + fmt.Sprint(l[1])
	}},
	{name: "goroutines of the program", want: "1 2", prog: func(run func(...func())) string {
		var x int64
		var w shim.WaitGroup
		run(func() {
			w.Add(2)
			for i := 0; i < 2; i++ {
				sched.Go(func() { v := satomic.LoadInt64(&x); satomic.StoreInt64(&x, v+1); w.Done() })
			}
			w.Wait()
		})
		return fmt.Sprint(satomic.LoadInt64(&x))
	}},
}

// runLitmus explores every litmus program; the first unexpected set of
// outcomes is returned.
func runLitmus() (programs int, execs int64, bad string) {
	for _, l := range litmuses {
		p := sched.NewPath(-1)
		outs := map[string]bool{}
		for {
			races := sched.RaceErrors()
			hist.Reset()
			shim.ResetWaiters()
			res, finished := "", false
			s := sched.Exec(p, sched.KAll|sched.KUser, maxSteps, func() {
				res = l.prog(func(fs ...func()) {
					var ts []*sched.Thread
					for i, f := range fs {
						ts = append(ts, sched.Spawn(fmt.Sprint(i), f))
					}
					sched.Join(ts...)
				})
				finished = true
			})
			execs++
			switch {
			case sched.RaceErrors() != races:
				res = "R"
			case s.Outcome != "" || !finished:
				res = "!"
			}
			outs[res] = true
			if l.one && res == "R" || !p.Next() {
				break
			}
		}
		var got []string
		for o := range outs {
			got = append(got, o)
		}
		sort.Strings(got)
		if strings.Join(got, " ") != l.want {
			return programs, execs, fmt.Sprintf("litmus %q: outcomes %q, expected %q", l.name, strings.Join(got, " "), l.want)
		}
		if p.Pruned || p.Diverged > 0 {
			return programs, execs, fmt.Sprintf("litmus %q: pruned %v diverged %d", l.name, p.Pruned, p.Diverged)
		}
		programs++
	}
	return programs, execs, ""
}
