package main

import (
	"fmt"
	"strings"

	common "github.com/ThinkiumGroup/go-common"
	"verif/sched"
	"verif/sched/hist"
)

// poolWorld is a worker pool whose handler and posters leave marks in a log.
type poolWorld struct {
	p       *common.RoutinePool
	log     hist.Log
	inside  hist.Cell
	queue   int
	counted bool // events are counted by kind
	workers int
	running bool // from the beginning
}

// an event: queue, number and kind
type poolEvent struct{ name, kind string }

func newPool(workers, queue int, counted, running bool) *poolWorld {
	w := &poolWorld{queue: queue, counted: counted, workers: workers, running: running}
	var getter func(interface{}) string
	if counted {
		getter = func(v interface{}) string { return v.(poolEvent).kind }
	}
	w.p = common.NewRoutinePool("p", workers, queue, func(worker string, v interface{}) {
		e := v.(poolEvent)
		w.inside.Add(1)
		w.log.Add("start " + e.name + " " + worker)
		if counted {
			m := common.KeyCount()
			n := 0
			for _, c := range m {
				n += c
			}
			if m[e.kind] < 1 || n > workers {
				w.log.Add(fmt.Sprint("badcount while handling ", e.name, ": ", m))
			}
			m["foreign"] = 1
			delete(m, e.kind)
		} else {
			sched.Point(sched.KUser)
		}
		w.log.Add("end " + e.name + " " + worker)
		w.inside.Add(-1)
	}, getter)
	if running {
		w.log.Add("begin")
		w.p.Start()
	}
	return w
}

func (w *poolWorld) post(q byte, e poolEvent) string {
	w.log.Add("post " + e.name)
	if q == 'H' {
		w.p.PostHigher(e)
	} else {
		w.p.PostLower(e)
	}
	w.log.Add("posted " + e.name)
	return ""
}

// judge reads the log of a finished execution.
func (w *poolWorld) judge(final bool) string {
	l := w.log.List()
	type at struct{ post, posted, start, end int }
	ev := map[string]*at{}
	var names []string
	get := func(n string) *at {
		if ev[n] == nil {
			ev[n] = &at{-1, -1, -1, -1}
			names = append(names, n)
		}
		return ev[n]
	}
	busy := map[string]string{}
	free := 0 // when the single worker last began to look for work
	bad := ""
	fail := func(f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...) + "\n  events: " + strings.Join(l, ", ")
		}
	}
	stopped, begun := false, false
	for i, s := range l {
		f := strings.Fields(s)
		switch f[0] {
		case "begin":
			// (a Start of a running pool changes nothing)
			if stopped || !begun {
				free = i
			}
			begun = true
			stopped = false
		case "post":
			get(f[1]).post = i
		case "posted":
			get(f[1]).posted = i
		case "start":
			a := get(f[1])
			if a.start >= 0 {
				fail("event %s is handled twice", f[1])
			}
			if a.post < 0 {
				fail("event %s is handled but was not posted", f[1])
			}
			if stopped {
				fail("event %s is handled after Stop returned", f[1])
			}
			if busy[f[2]] != "" {
				fail("worker %s handles two events at once", f[2])
			}
			busy[f[2]] = f[1]
			a.start = i
			if w.workers == 1 {
				for _, n := range names {
					b := ev[n]
					if b.start >= 0 || b.posted < 0 {
						continue
					}
					if n[0] == f[1][0] && b.posted < a.post {
						fail("event %s is taken before %s, posted earlier to the same queue", f[1], n)
					}
					if n[0] == 'H' && f[1][0] == 'L' && b.posted < free {
						fail("low-priority %s is taken while high-priority %s was waiting", f[1], n)
					}
				}
			}
		case "end":
			a := get(f[1])
			if a.end >= 0 || busy[f[2]] != f[1] {
				fail("handling of %s ends twice or elsewhere", f[1])
			}
			busy[f[2]] = ""
			a.end = i
			free = i
		case "stopped":
			stopped = true
			for x, e := range busy {
				if e != "" {
					fail("Stop returned while worker %s was handling %s", x, e)
				}
			}
		default:
			if f[0] == "badcount" {
				fail("%s", s)
			}
		}
	}
	if final {
		for _, n := range names {
			if a := ev[n]; a.posted < 0 || a.start < 0 || a.end < 0 {
				fail("event %s was not handled", n)
			}
		}
	}
	return bad
}

func (w *poolWorld) waiting() int { return w.p.HigherLen() + w.p.LowerLen() }

func (w *poolWorld) left() (n int) {
	for _, s := range w.log.List() {
		switch strings.Fields(s)[0] {
		case "posted":
			n++
		case "start":
			n--
		}
	}
	return
}

func checkPool(stops bool) func(a any, _ [][]hist.Rec) string {
	return func(a any, _ [][]hist.Rec) string {
		w := a.(*poolWorld)
		sched.Idle()
		if s := w.judge(w.running && !stops); s != "" {
			return s
		}
		if w.waiting() != w.left() {
			return fmt.Sprintf("%d events are queued, %d were posted and not handled; events: %v", w.waiting(), w.left(), w.log.List())
		}
		sched.Quiet()
		w.log.Add("begin")
		w.p.Start()
		sched.Idle()
		if s := w.judge(true); s != "" {
			return "started at the end: " + s
		}
		if w.inside.Get() != 0 || w.waiting() != 0 {
			return fmt.Sprintf("idle pool with %d handlers running and %d events queued", w.inside.Get(), w.waiting())
		}
		if m := common.KeyCount(); len(m) != 0 {
			return fmt.Sprintf("idle pool has counts %v", m)
		}
		if n := sched.AliveDaemons(); n != w.workers {
			return fmt.Sprintf("running pool of %d has %d workers", w.workers, n)
		}
		w.p.Stop()
		w.log.Add("stopped")
		if n := sched.AliveDaemons(); n != 0 {
			return fmt.Sprintf("%d workers left after Stop", n)
		}
		w.p.Stop()
		if w.queue == 0 {
			return ""
		}
		if w.post('L', poolEvent{"Lz", "z"}); w.p.LowerLen() != 1 {
			return "an event posted to a stopped pool is not queued"
		}
		w.log.Add("begin")
		w.p.Start()
		sched.Idle()
		if s := w.judge(true); s != "" {
			return "started again: " + s
		}
		w.p.Stop()
		if n := sched.AliveDaemons(); n != 0 {
			return fmt.Sprintf("%d workers left after the last Stop", n)
		}
		return ""
	}
}

// poolPosts makes the threads of posters for every choice of queues.
func poolPosts(shape []int, f func(name string, threads [][]Op)) {
	total := 0
	for _, n := range shape {
		total += n
	}
	for code := 0; code < 1<<total; code++ {
		var ths [][]Op
		var names []string
		k := 0
		for t, n := range shape {
			var th []Op
			for j := 0; j < n; j++ {
				q := byte("LH"[code>>k&1])
				k++
				e := poolEvent{fmt.Sprintf("%c%d%c", q, t, 'a'+j), []string{"k", "m"}[k%2]}
				th = append(th, op("post "+e.name, func(w *poolWorld) string { return w.post(q, e) }))
			}
			ths = append(ths, th)
			names = append(names, opNames(th))
		}
		f(strings.Join(names, " || "), ths)
	}
}

func init() {
	stop := op("Stop", func(w *poolWorld) string { w.p.Stop(); w.log.Add("stopped"); return "" })
	start := op("Start", func(w *poolWorld) string { w.log.Add("begin"); w.p.Start(); return "" })
	quietStop := op("Stop", func(w *poolWorld) string { w.p.Stop(); return "" })
	lens := op("lengths", func(w *poolWorld) string { w.waiting(); return str(len(w.p.String()) > 0) })
	counts := op("KeyCount", func(w *poolWorld) string {
		m := common.KeyCount()
		for k := range m {
			m[k] = 99
		}
		return ""
	})
	suite(&Suite{ID: "C04",
		Rule: "every interleaving, at channel, lock, wait-group and goroutine operations up to a bound on deviations from running the first ready thread on, of posters, workers, starters and stoppers; every execution's event log is judged, then the pool is drained, stopped, posted to, started and stopped again",
		Scenarios: func(thorough bool) []*Scenario {
			var out []*Scenario
			kinds := sched.KChan | sched.KLock | sched.KWait | sched.KGo
			add := func(name string, workers, queue int, counted, running, stops bool, bound int, threads [][]Op) {
				out = append(out, &Scenario{
					Name: fmt.Sprintf("%d workers, queues of %d: %s", workers, queue, name), Kinds: kinds, Bound: bound, Delay: true,
					New:     func() any { return newPool(workers, queue, counted, running) },
					Threads: threads, Check: checkPool(stops)})
			}
			b := func(quick, deep int) int {
				if thorough {
					return deep
				}
				return quick
			}
			// b takes fewer deviations for larger programs
			shapes := [][]int{{1}, {2}, {3}, {1, 1}, {2, 1}, {1, 1, 1}, {2, 2}, {3, 1}}
			for _, sh := range shapes {
				sh := sh
				n := 0
				for _, x := range sh {
					n += x
				}
				poolPosts(sh, func(name string, ths [][]Op) {
					// small and ample queues, one and two workers
					for _, q := range []int{0, 1, 4} {
						add(name, 1, q, false, true, false, b(3, 5), ths)
						if n <= 3 {
							add(name, 2, q, false, true, false, b(2, 4), ths)
						}
					}
					if n <= 3 {
						add(name+" counted", 2, 2, true, true, false, b(2, 4), ths)
						add(name+" counted || KeyCount", 1, 2, true, true, false, b(2, 4), append(append([][]Op{}, ths...), []Op{counts}))
						// stopping
						with := func(more ...[]Op) [][]Op { return append(append([][]Op{}, ths...), more...) }
						add(name+" || Stop", 1, 4, false, true, true, b(3, 5), with([]Op{stop}))
						add(name+" || Stop", 2, 4, false, true, true, b(2, 4), with([]Op{stop}))
						add(name+" || Stop || Stop", 1, 4, false, true, true, b(2, 4), with([]Op{stop}, []Op{stop}))
						add(name+" || lengths; Stop", 1, 4, false, true, true, b(2, 4), with([]Op{lens, stop}))
						// starting late
						add(name+" || Start", 1, 4, false, false, false, b(3, 5), with([]Op{start}))
						add(name+" || Start || Start", 2, 4, false, false, false, b(2, 4), with([]Op{start}, []Op{start}))
						add(name+" || Stop; Start", 1, 4, false, true, true, b(2, 4), with([]Op{stop, start}))
						add(name+" || Stop || Start", 1, 4, false, true, true, b(2, 4), with([]Op{quietStop}, []Op{start}))
						add(name+" || Start; Stop; Start", 2, 4, false, false, true, b(2, 4), with([]Op{start, quietStop, start}))
					}
				})
			}
			add("PostHigher nil; post H || post L", 1, 1, true, true, false, b(3, 5), [][]Op{
				{op("PostHigher nil", func(w *poolWorld) string { w.p.PostHigher(nil); return "" }),
					op("post H", func(w *poolWorld) string { return w.post('H', poolEvent{"Ha", "k"}) })},
				{op("post L", func(w *poolWorld) string { return w.post('L', poolEvent{"La", "k"}) })}})
			return out
		}})
}
