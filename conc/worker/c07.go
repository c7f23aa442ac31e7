package main

import (
	"errors"
	"fmt"

	common "github.com/ThinkiumGroup/go-common"
	"verif/harness/fw"
	"verif/sched"
	"verif/sched/hist"
)

// svcWorld is a service with recording actions.
type svcWorld struct {
	s      *common.AbstractService
	log    hist.Log
	inside hist.Cell
}

var errAction = errors.New("action failed")

func svcAction(w *svcWorld, name string, fail bool) func() error {
	return func() error {
		w.inside.Add(1)
		if w.inside.Get() > 1 {
			w.log.Add("two actions at once")
		}
		w.log.Add(name)
		sched.Point(sched.KUser)
		w.inside.Add(-1)
		if fail {
			return errAction
		}
		return nil
	}
}

type svcChanger struct{ i, s, c func() error }

func (x svcChanger) Initializer() error { return x.i() }
func (x svcChanger) Starter() error     { return x.s() }
func (x svcChanger) Closer() error      { return x.c() }

// svcModel is the lifecycle: new -> initialized -> started -> stopped ->
// initialized ...; a failing action leaves the state as it was.
type svcModel struct{ st int }

const (
	svcNew = iota
	svcInit
	svcStarted
	svcStopped
)

func (m *svcModel) call(k int, fail bool) (allowed bool) {
	switch k {
	case 0:
		allowed = m.st == svcNew || m.st == svcStopped
	case 1:
		allowed = m.st == svcInit
	case 2:
		allowed = m.st == svcStarted
	}
	if allowed && !fail {
		m.st = []int{svcInit, svcStarted, svcStopped}[k]
	}
	return
}

func svcHistories(c *fw.Ctx) {
	depth := c.Pick(5, 6)
	kinds := []string{"Init", "Start", "Close"}
	// symbols: call k with a succeeding, failing or absent action
	n := 1
	for i := 0; i < depth; i++ {
		n *= 9
	}
	for code := 0; code < n; code++ {
		for mode := 0; mode < 2; mode++ { // functions set directly or through SetChanger
			s := new(common.AbstractService)
			m := &svcModel{}
			x := code
			hist := ""
			for i := 0; i < depth; i++ {
				k, how := x%9/3, x%3
				x /= 9
				ran := 0
				act := func() error {
					ran++
					if how == 1 {
						return errAction
					}
					return nil
				}
				other := func() error { ran += 100; return nil }
				fs := [3]func() error{other, other, other}
				fs[k] = act
				if how == 2 {
					if mode == 1 {
						continue
					}
					fs[k] = nil
				}
				if mode == 1 {
					s.SetChanger(svcChanger{fs[0], fs[1], fs[2]})
				} else {
					s.InitFunc, s.StartFunc, s.CloseFunc = fs[0], fs[1], fs[2]
				}
				var err error
				switch k {
				case 0:
					err = s.Init()
				case 1:
					err = s.Start()
				case 2:
					err = s.Close()
				}
				hist += fmt.Sprintf(" %s/%s", kinds[k], []string{"ok", "fail", "none"}[how])
				before := m.st
				allowed := m.call(k, how == 1)
				wantRan := 0
				if allowed && how != 2 {
					wantRan = 1
				}
				c.Trans.Add(1)
				switch {
				case ran != wantRan:
					c.Fail("lifecycle", "calls%s: the last ran its action %d times (others count 100), expected %d in state %d", hist, ran, wantRan, before)
				case !allowed && err == nil:
					c.Fail("lifecycle", "calls%s: the last was accepted in state %d", hist, before)
				case allowed && how == 1 && !errors.Is(err, errAction):
					c.Fail("lifecycle", "calls%s: the failure of the action was not reported: %v", hist, err)
				case allowed && how != 1 && err != nil:
					c.Fail("lifecycle", "calls%s: the last was refused in state %d: %v", hist, before, err)
				}
			}
			c.Evals.Add(1)
		}
	}
	c.States.Add(int64(n))
	// a copy does not share the original's life
	for st := 0; st < 4; st++ {
		s := new(common.AbstractService)
		for i := 0; i < st; i++ {
			[]func() error{s.Init, s.Start, s.Close}[i]()
		}
		cp := s.Copy()
		m, mc := &svcModel{st}, &svcModel{st}
		for i := 0; i < 3; i++ {
			if ok := mc.call(i, false); ok != ([]func() error{cp.Init, cp.Start, cp.Close}[i]() == nil) {
				c.Fail("copy", "the copy of a service in state %d answers call %s wrongly", st, kinds[i])
			}
		}
		for i := 2; i >= 0; i-- {
			if ok := m.call(i, false); ok != ([]func() error{s.Init, s.Start, s.Close}[i]() == nil) {
				c.Fail("copy", "a service in state %d answers call %s wrongly after its copy was used", st, kinds[i])
			}
		}
	}
}

func init() {
	suite(&Suite{ID: "C07",
		Rule: "every call sequence up to the depth with succeeding, failing and absent actions against a lifecycle automaton; every interleaving of small concurrent call sets from every state with every failure pattern, compared with the one-at-a-time orders",
		Pre:  svcHistories,
		Scenarios: func(thorough bool) []*Scenario {
			ops := []Op{
				op("Init", func(w *svcWorld) string { return str(w.s.Init()) }),
				op("Start", func(w *svcWorld) string { return str(w.s.Start()) }),
				op("Close", func(w *svcWorld) string { return str(w.s.Close()) }),
			}
			var out []*Scenario
			for st := 0; st < 4; st++ {
				for mask := 0; mask < 8; mask++ {
					st, mask := st, mask
					base := Scenario{Name: fmt.Sprintf("state %d, failing actions %03b", st, mask), Bound: -1,
						New: func() any {
							w := &svcWorld{s: new(common.AbstractService)}
							for i := 0; i < st; i++ {
								[]func() error{w.s.Init, w.s.Start, w.s.Close}[i]()
							}
							w.s.InitFunc = svcAction(w, "init", mask&1 != 0)
							w.s.StartFunc = svcAction(w, "start", mask&2 != 0)
							w.s.CloseFunc = svcAction(w, "close", mask&4 != 0)
							return w
						},
						Digest: func(w any) string {
							x := w.(*svcWorld)
							x.s.InitFunc, x.s.StartFunc, x.s.CloseFunc = nil, nil, nil
							return str(x.log.List(), x.s.Start(), x.s.Init(), x.s.Close(), x.s.Init())
						},
					}
					out = append(out, product(base, ops, 1, 1, 1)...)
					out = append(out, product(base, ops, 2, 1)...)
					out = append(out, product(base, ops, 2, 2)...)
					if thorough {
						out = append(out, product(base, ops, 2, 1, 1)...)
						out = append(out, product(base, ops, 1, 1, 1, 1)...)
					}
				}
			}
			return out
		}})
}
