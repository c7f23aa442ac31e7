package seq

import (
	"bytes"
	"fmt"

	"verif/harness/fw"
)

// checkRoot opens root from the store and compares everything under it.
func checkRoot(d *faultDB, root []byte, m map[string]string, extra []string) string {
	t := openTrie(d, bytes.Clone(root))
	for k, v := range m {
		got, ok := t.Get([]byte(k))
		if !ok || got != v {
			return fmt.Sprintf("opening root %x: Get(%x) = %s,%v want %s", root, k, short(got), ok, short(v))
		}
	}
	for _, k := range extra {
		if _, had := m[k]; !had {
			if got, ok := t.Get([]byte(k)); ok {
				return fmt.Sprintf("opening root %x: Get(%x) = %s but it is not there", root, k, short(got))
			}
		}
	}
	return ""
}

// checkDurable: every committed root is readable from the store as it was at its commit and as it
// was after every later write that changed or removed an existing binding, and from the final store.
// (A store that only gained new bindings since a successful read of a root still reads it.)
func (w *tWorld) checkDurable() {
	for _, r := range w.commits {
		if e := checkRoot(storeAt(w.d.log, r.pos), r.root, r.m, w.f.keys); e != "" {
			w.fail("at the commit itself: %s", e)
		}
		for _, p := range w.d.overwrote {
			if p >= r.pos {
				if e := checkRoot(storeAt(w.d.log, p+1), r.root, r.m, w.f.keys); e != "" {
					w.fail("crash after write %d: %s", p, e)
				}
			}
		}
		if e := checkRoot(w.d, r.root, r.m, w.f.keys); e != "" {
			w.fail("later: %s", e)
		}
	}
}

// runFaulty runs a history whose store writes fail as told by failWrite. A commit during which a
// write failed must report an error. Returns the number of write attempts.
func runFaulty(f family, ops []tOp, failWrite func(n int) bool) (*tWorld, int) {
	w := newTWorld(f)
	w.d.failWrite = failWrite
	for i, o := range ops {
		before := w.d.failed
		switch o.kind {
		case opCommit, opReopen:
			r, err := w.t.CommitAndHash()
			if err == nil && w.d.failed > before {
				w.fail("step %d: a store write failed during the commit, but it reported success", i)
			}
			if err != nil && w.d.failed == before {
				w.fail("step %d: commit failed without a store failure: %v", i, err)
			}
			if err == nil {
				w.commits = append(w.commits, commitRec{root: bytes.Clone(r), m: copyMap(w.m), pos: len(w.d.log)})
				if o.kind == opReopen {
					w.t = openTrie(w.d, bytes.Clone(r))
				}
			}
		default:
			w.apply(o)
		}
	}
	// a later commit that reports success is again complete
	attempts := w.d.wcount
	w.d.failWrite = nil
	w.apply(tOp{kind: opCommit})
	w.checkAll()
	w.checkDurable()
	return w, attempts
}

func init() {
	fw.Register(fw.Check{ID: "T03", Level: fw.Faults,
		Rule: "every history of put/delete/commit/collapse/reopen up to the depth from every committed start: every committed root is reopened from the store at every crash point; for every history ending in commits, every single store write (thorough: every pair), and every suffix of writes, fails in turn, followed by continued operation and a retry; non-trivial = a write failed or a binding was changed",
		Run: func(c *fw.Ctx) {
			runWide(c, nil, func(w *tWorld) { w.apply(tOp{kind: opCommit}); w.checkDurable() })
			exploreTrie(c, families, []tOp{resCommit}, []int{c.Pick(2, 3)}, alphaMut, func(w *tWorld) {
				w.apply(tOp{kind: opCommit})
				w.checkDurable()
			})
			big := func(w *tWorld) {
				w.apply(tOp{kind: opCommit})
				w.checkDurable()
			}
			exploreTrie(c, families[:c.Pick(2, 8)], []tOp{resReopen}, []int{3}, alphaBig, big)
			exploreTrie(c, families[:c.Pick(2, 8)], []tOp{resBig}, []int{c.Pick(2, 3)}, alphaBig, big)
			// faults
			alpha := func(f family, big bool) []tOp {
				var a []tOp
				for k := range f.keys {
					if big {
						a = append(a, tOp{opPutBig, k, '7'}, tOp{opDel, k, 0})
					} else {
						a = append(a, tOp{opPut, k, '2'}, tOp{opDel, k, 0})
					}
				}
				return append(a, tOp{kind: opCommit}, tOp{kind: opCollapse}, tOp{kind: opReopen}, tOp{kind: opHash})
			}
			type job struct {
				s   start
				op  tOp
				big bool
			}
			var jobs []job
			for fi, f := range families {
				rs := []tOp{resCommit}
				if c.Thorough {
					rs = []tOp{resMem, resCommit}
				}
				for _, s := range starts(f, rs) {
					for _, o := range alpha(f, false) {
						jobs = append(jobs, job{s, o, false})
					}
					if fi < 2 || c.Thorough { // values large enough to be dropped from memory
						for _, o := range alpha(f, true) {
							jobs = append(jobs, job{s, o, true})
						}
					}
				}
			}
			depth := c.Pick(1, 2)
			c.Parallel(len(jobs), func(i int, sl *fw.Slot) {
				j := jobs[i]
				al := alpha(j.s.f, j.big)
				eachSeq(al, depth, func(seq []tOp) bool {
					if c.Expired() {
						return false
					}
					ops := append(append([]tOp{}, j.s.ops...), j.op)
					ops = append(ops, seq...)
					ops = append(ops, tOp{kind: opCommit}, tOp{kind: opCollapse}, tOp{opPut, 1, '3'}, tOp{kind: opCommit})
					_, n := runFaulty(j.s.f, ops, nil)
					try := func(name string, fwr func(int) bool) {
						sl.Begin(func() string { return name + " in " + history(j.s.f, ops) })
						w, _ := runFaulty(j.s.f, ops, fwr)
						c.Evals.Add(1)
						c.Trans.Add(int64(len(ops)))
						if w.d.failed > 0 {
							c.Nontriv.Add(1)
						}
						if w.bad != "" {
							h := history(j.s.f, ops)
							c.Fail(name+" "+h, "%s fails in history %s\n%s", name, h, w.bad)
						}
					}
					for a := 0; a < n; a++ {
						try(fmt.Sprintf("write %d", a), func(i int) bool { return i == a })
						try(fmt.Sprintf("writes %d..", a), func(i int) bool { return i >= a })
						if c.Thorough {
							for b := a + 1; b < n && b < a+6; b++ {
								try(fmt.Sprintf("writes %d,%d", a, b), func(i int) bool { return i == a || i == b })
							}
						}
					}
					return true
				})
			})
		}})
}
