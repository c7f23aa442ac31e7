package seq

import (
	"bytes"
	"fmt"
	"strings"
	"sync"

	"github.com/ThinkiumGroup/go-common/trie"

	"verif/harness/fw"
)

// storeBase is storeAt on top of an overlay's shared contents.
func storeBase(d *faultDB, n int) *faultDB {
	s := storeAt(d.log, n)
	s.under = d.under
	return s
}

// histDurable: everything under root is readable from the store alone.
func histDurable(d *faultDB, root []byte, n uint64, strict bool, idx []uint64) string {
	t, err := newHist(d, root, strict)
	if err != nil {
		return fmt.Sprintf("opening the root of %d entries: %v", n, err)
	}
	w := &hWorld{d: d, t: t, n: n}
	if e := t.Expecting(); e != n {
		w.fail("Expecting() = %d, want %d", e, n)
	}
	for _, i := range idx {
		w.get(i)
	}
	w.hash()
	if n > 0 {
		w.prove(n - 1)
		w.prove(n / 2)
	}
	if err := lendAppend(t, n, histVal(n)); err != nil {
		w.fail("Append(%d): %v", n, err)
	} else {
		w.n++
		w.hash()
	}
	return w.bad
}

type hCommit struct {
	at   int
	root []byte
	n    uint64
}

type fHist struct {
	*hWorld
	commits []hCommit
}

func (w *fHist) appendN(k int) {
	for ; k > 0; k-- {
		before := w.d.failed
		if err := lendAppend(w.t, w.n, histVal(w.n)); err != nil {
			if w.d.failed == before {
				w.fail("Append(%d): %v", w.n, err)
			}
			return
		}
		w.n++
	}
}

func (w *fHist) committed(err error, before int, what string) {
	if (err != nil) != (w.d.failed > before) {
		w.fail("%s returned %v, store failures during it: %d", what, err, w.d.failed-before)
	}
	if err == nil {
		w.croot, w.cn = histRoot(w.n), w.n
		w.commits = append(w.commits, hCommit{len(w.d.log), histRoot(w.n), w.n})
	}
}

var faultHistOps = []struct {
	name string
	f    func(w *fHist)
}{
	{"append 1", func(w *fHist) { w.appendN(1) }},
	{"append to the boundary", func(w *fHist) { w.appendN(int(16 - w.n%16)) }},
	{"commit", func(w *fHist) {
		b := w.d.failed
		err := w.t.Commit()
		w.committed(err, b, "Commit")
	}},
	{"commit and hash", func(w *fHist) {
		b := w.d.failed
		_, err := w.t.CommitAndHash()
		w.committed(err, b, "CommitAndHash")
	}},
	{"collapse", func(w *fHist) {
		w.t.CollapseBefore((w.n - 1) &^ 15)
		w.t.CollapseBefore((w.n - 1) &^ 255)
	}},
	{"clone", func(w *fHist) {
		b := w.d.failed
		t := w.t.Clone()
		if t == nil {
			if w.d.failed == b {
				w.fail("Clone returned nil")
			}
			return
		}
		if w.d.failed > b {
			// the commit inside failed; a clone that is handed out all the same must be a clone
			if h, err := t.HashValue(); err != nil || !bytes.Equal(h, histRoot(w.n)) {
				w.fail("Clone with a failing store returned a tree with root %x (%v)", h, err)
			}
			return
		}
		w.t = t
		w.committed(nil, b, "Clone")
	}},
	{"reopen", func(w *fHist) {
		t, err := newHist(w.d, w.croot, true)
		if err != nil {
			w.fail("reopening %d committed entries: %v", w.cn, err)
			return
		}
		w.t, w.n = t, w.cn
	}},
	{"cut to half", func(w *fHist) {
		if w.n < 2 {
			return
		}
		b := w.d.failed
		t, err := w.t.Chop(w.n / 2)
		if err != nil {
			if w.d.failed == b {
				w.fail("Chop(%d) of %d: %v", w.n/2, w.n, err)
			}
			return
		}
		w.t, w.n = t, w.n/2+1
	}},
}

func init() {
	fw.Register(fw.Check{ID: "H04", Level: fw.Faults, Run: runH04,
		Rule: "every history over append, append up to a node boundary, commit, collapse, clone, reopen and cut up to the depth, from several log lengths; for each, every crash point (every prefix of the store's write log after each successful commit): all roots committed by then are opened from the store alone and compared; and every single write of each history failing, alone or together with all later ones until a final retried commit. Non-trivial: at least one commit happened (crash) or the write failed (fault)"})
	fw.Register(fw.Check{ID: "H05", Level: fw.MC, Run: runH05,
		Rule: "every history over append (next, wrong), merge of a proof (right, wrong), live hash, preliminary commit, commit, commit-and-hash, rollback, collapses and lookups up to the depth, from an empty, a short, a boundary and a partial tree, committed or not; base and live roots, lookups, membership and expected index compared with the model after every step; every single failing store write"})
}

func runH04(c *fw.Ctx) {
	starts := append(histStarts([]uint64{0, 14, 255, 4095}, 14), histStarts([]uint64{300}, 0)...)
	ops := faultHistOps
	type job struct {
		s *histStart
		a int
	}
	var jobs []job
	for _, s := range starts {
		for a := range ops {
			jobs = append(jobs, job{s, a})
		}
	}
	run := func(s *histStart, seq []int, fail func(n int) bool) *fHist {
		w := &fHist{hWorld: s.open()}
		if !s.mem {
			w.commits = append(w.commits, hCommit{0, s.root, s.n})
		}
		w.d.failWrite = fail
		for _, o := range seq {
			ops[o].f(w)
			c.Trans.Add(1)
			if w.bad != "" {
				return w
			}
		}
		return w
	}
	idxs := func(n uint64) []uint64 {
		var out []uint64
		for i := uint64(0); i <= n; i++ {
			if i < 18 || i+34 > n {
				out = append(out, i)
			}
		}
		return out
	}
	explore := func(depth int, faults bool) {
		c.Parallel(len(jobs), func(i int, sl *fw.Slot) {
			j := jobs[i]
			seq := make([]int, depth)
			seq[0] = j.a
			name := func() string {
				ss := []string{j.s.String() + ";"}
				for _, o := range seq {
					ss = append(ss, ops[o].name+",")
				}
				return strings.Join(ss, " ")
			}
			sl.Begin(name)
			var rec func(p int) bool
			rec = func(p int) bool {
				if p < depth {
					for o := range ops {
						seq[p] = o
						if !rec(p + 1) {
							return false
						}
					}
					return true
				}
				sl.Begin(nil)
				w := run(j.s, seq, nil)
				c.Evals.Add(1)
				if w.bad != "" {
					c.Fail(name(), "%s\n%s", name(), w.bad)
				}
				total := w.d.wcount
				for _, cm := range w.commits {
					c.Nontriv.Add(1)
					for p := cm.at; p <= len(w.d.log); p++ {
						if p > cm.at && p < len(w.d.log) && !overwrites(w.d, p) {
							continue // the same store, plus an unrelated key
						}
						c.Evals.Add(1)
						if bad := histDurable(storeBase(w.d, p), cm.root, cm.n, true, idxs(cm.n)); bad != "" {
							c.Fail(name()+" crash", "%s crash after store write %d of %d; root committed at write %d: %s", name(), p, len(w.d.log), cm.at, bad)
						}
					}
				}
				if !faults {
					return !c.Expired()
				}
				for k := 0; k < total; k++ {
					for _, forever := range []bool{false, true} {
						k, forever := k, forever
						what := func() string { return fmt.Sprintf("%s store write %d fails, all later too: %v", name(), k, forever) }
						w := run(j.s, seq, func(n int) bool { return n == k || (forever && n > k) })
						w.d.failWrite = nil
						c.Evals.Add(1)
						if w.d.failed > 0 {
							c.Nontriv.Add(1)
						}
						if w.bad == "" {
							w.hash()
							if err := w.t.Commit(); err != nil {
								w.fail("final Commit: %v", err)
							} else {
								w.commits = append(w.commits, hCommit{0, histRoot(w.n), w.n})
							}
							for _, cm := range w.commits {
								if bad := histDurable(w.d.overlay(), cm.root, cm.n, true, idxs(cm.n)); bad != "" {
									w.fail("in the end: %s", bad)
								}
							}
						}
						if w.bad != "" {
							c.Fail(what(), "%s: %s", what(), w.bad)
						}
						sl.Begin(nil)
					}
				}
				return !c.Expired()
			}
			rec(1)
		})
	}
	explore(2, true)
	explore(c.Pick(3, 4), true)
	if c.Thorough {
		explore(5, false)
	}
	c.Sample("14 entries appended; append to the boundary, commit, append 1, crash after every write")
}

// overwrites: log entry p-1 changed a binding that existed.
func overwrites(d *faultDB, p int) bool {
	for _, o := range d.overwrote {
		if o == p-1 {
			return true
		}
	}
	return false
}

// ---- H05

type hrView struct {
	n      uint64
	merged map[uint64]bool
}

type hrWorld struct {
	d     *faultDB
	r     *trie.RevertableHistoryTree
	full  *trie.HistoryTree // complete reference of fullN entries for proofs
	fullN uint64
	low   uint64 // entries below this are absent in base unless merged (partial trees)
	base  hrView
	live  *hrView
	pre   []byte
	bad   string
	// entries of merged proofs that a (preliminary) commit or a collapse may have written to the store: they
	// are stored under the hashes of the base tree's nodes, so the base may come to hold them
	written map[uint64]bool
}

func (w *hrWorld) fail(format string, a ...any) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(format, a...)
	}
}

func (w *hrWorld) cur() hrView {
	if w.live != nil {
		return *w.live
	}
	return w.base
}

func (w *hrWorld) edit() *hrView {
	if w.live == nil {
		m := map[uint64]bool{}
		for k := range w.base.merged {
			m[k] = true
		}
		w.live = &hrView{w.base.n, m}
	}
	w.pre = nil
	return w.live
}

func (w *hrWorld) check() {
	h, err := w.r.HashValue()
	if err != nil || !bytes.Equal(h, histRoot(w.base.n)) {
		w.fail("base root %x (%v), want that of %d entries", h, err, w.base.n)
	}
	spoil(h)
	for _, i := range []uint64{0, 1, 3, w.low / 2, w.low - 2, w.low, w.low + 1, w.base.n - 1, w.base.n, w.cur().n - 1, w.cur().n} {
		var want, unknown bool
		switch {
		case i >= w.base.n:
		case i >= w.low || w.base.merged[i]:
			want = true
		default:
			// a proof brings the neighbour of its entry along
			unknown = i^1 >= w.low || w.base.merged[i^1] || w.written[i] || w.written[i^1]
		}
		v, ok := w.r.Get(i)
		if (!unknown && ok != want) || (ok && !bytes.Equal(v, histVal(i))) {
			w.fail("Get(%d) = %x, %v with %d base entries", i, v, ok, w.base.n)
		}
		spoil(v)
		if has := w.r.Has(i); has != ok {
			w.fail("Has(%d) = %v, Get says %v", i, has, ok)
		}
		if want && i == w.base.n-1 {
			v, ps, ok := w.r.GetProof(i)
			if !ok || !bytes.Equal(v, histVal(i)) {
				w.fail("GetProof(%d) = %x, %v", i, v, ok)
			} else if r, err := ps.Proof(bytesToHash(v)); err != nil || !bytes.Equal(r, histRoot(w.base.n)) {
				w.fail("proof of %d folds to %x, %v", i, r, err)
			}
		}
	}
	if e := w.r.Expecting(); e != w.base.n && e != w.cur().n {
		w.fail("Expecting() = %d, base %d, live %d", e, w.base.n, w.cur().n)
	}
}

// write notes that the live view may be written to the store.
func (w *hrWorld) write() {
	if w.written == nil {
		w.written = map[uint64]bool{}
	}
	for i := range w.cur().merged {
		w.written[i] = true
	}
}

func (w *hrWorld) liveHash() {
	h, err := w.r.PreHashValue()
	if err != nil || !bytes.Equal(h, histRoot(w.cur().n)) {
		w.fail("live root %x (%v), want that of %d entries", h, err, w.cur().n)
	}
	spoil(h)
}

func (w *hrWorld) commitDone() {
	w.base, w.live = w.cur(), nil
	h, err := w.r.HashValue()
	if err != nil {
		w.fail("HashValue: %v", err)
	}
	if w.pre != nil && !bytes.Equal(h, w.pre) {
		w.fail("commit led to root %x, the preliminary commit had announced %x", h, w.pre)
	}
	w.pre = nil
}

func (w *hrWorld) durable() {
	t, err := newHist(w.d, histRoot(w.base.n), false)
	if err != nil {
		w.fail("opening the committed root: %v", err)
		return
	}
	if e := t.Expecting(); e != w.base.n {
		w.fail("reopened tree expects %d, committed %d", e, w.base.n)
	}
	for i := uint64(0); i < w.base.n; i++ {
		v, ok := t.Get(i)
		if (i >= w.low || w.base.merged[i]) && (!ok || !bytes.Equal(v, histVal(i))) {
			w.fail("reopened tree: Get(%d) = %x, %v", i, v, ok)
		}
	}
}

type hrOp struct {
	name string
	f    func(w *hrWorld)
}

var hrOps = []hrOp{
	{"append", func(w *hrWorld) {
		n := w.cur().n
		before := w.d.failed
		if err := lendAppend(w.r, n, histVal(n)); err != nil {
			if w.d.failed == before {
				w.fail("Append(%d): %v", n, err)
			}
			return
		}
		w.edit().n++
	}},
	{"append wrong", func(w *hrWorld) {
		n := w.cur().n
		if n > 0 && lendAppend(w.r, n-1, altVal) == nil {
			w.fail("Append(%d) with %d live entries succeeded", n-1, n)
		}
		if lendAppend(w.r, n+1, altVal) == nil {
			w.fail("Append(%d) with %d live entries succeeded", n+1, n)
		}
	}},
	{"merge", func(w *hrWorld) { w.merge(0) }},
	{"merge 2nd", func(w *hrWorld) { w.merge(w.low / 2) }},
	{"merge wrong", func(w *hrWorld) {
		if w.low == 0 {
			return
		}
		v, ps, _ := w.full.GetProof(0)
		if w.r.MergeProof(1, v, ps) == nil {
			w.fail("MergeProof with a wrong index succeeded")
		}
		if w.r.MergeProof(0, altVal, ps) == nil {
			w.fail("MergeProof with a wrong value succeeded")
		}
	}},
	{"live hash", func(w *hrWorld) { w.liveHash() }},
	{"precommit", func(w *hrWorld) {
		w.write()
		before := w.d.failed
		h, err := w.r.PreCommit()
		if (err != nil) != (w.d.failed > before) {
			w.fail("PreCommit: %v, store failures during it %d", err, w.d.failed-before)
		}
		if err == nil {
			w.pre = bytes.Clone(h)
			if !bytes.Equal(h, histRoot(w.cur().n)) {
				w.fail("PreCommit = %x for %d live entries", h, w.cur().n)
			}
		}
	}},
	{"commit", func(w *hrWorld) {
		w.write()
		before := w.d.failed
		err := w.r.Commit()
		if (err != nil) != (w.d.failed > before) {
			w.fail("Commit: %v, store failures during it %d", err, w.d.failed-before)
		}
		w.commitDone()
		if err == nil {
			w.durable()
		}
	}},
	{"commit and hash", func(w *hrWorld) {
		w.write()
		before := w.d.failed
		h, err := w.r.CommitAndHash()
		if (err != nil) != (w.d.failed > before) {
			w.fail("CommitAndHash: %v, store failures during it %d", err, w.d.failed-before)
		}
		if err == nil && !bytes.Equal(h, histRoot(w.cur().n)) {
			w.fail("CommitAndHash = %x for %d live entries", h, w.cur().n)
		}
		w.commitDone()
		if err == nil {
			w.durable()
		}
	}},
	{"rollback", func(w *hrWorld) { w.r.Rollback(); w.live, w.pre = nil, nil }},
	{"collapse", func(w *hrWorld) {
		w.write()
		w.r.PreCollapseBefore((w.cur().n - 1) &^ 15)
		w.r.CollapseBefore((w.base.n - 1) &^ 15)
	}},
	{"rebase", func(w *hrWorld) {
		if w.live != nil {
			return
		}
		before := w.d.failed
		if err := w.r.Commit(); err != nil {
			if w.d.failed == before {
				w.fail("Commit: %v", err)
			}
			return
		}
		d := w.d.clone()
		r, err := w.r.Rebase(d)
		if err != nil || r == nil {
			w.fail("Rebase: %v", err)
			return
		}
		d.failWrite, d.wcount, d.failed = w.d.failWrite, w.d.wcount, w.d.failed
		w.d, w.r = d, r
	}},
}

func (w *hrWorld) merge(i uint64) {
	if w.low == 0 || w.cur().n != w.fullN {
		return
	}
	v, ps, _ := w.full.GetProof(i)
	before := w.d.failed
	if err := w.r.MergeProof(i, v, ps); err != nil {
		if w.d.failed == before {
			w.fail("MergeProof(%d): %v", i, err)
		}
		return
	}
	w.edit().merged[i] = true
}

var (
	fullMu sync.Mutex
	fulls  = map[uint64]*trie.HistoryTree{}
)

// fullHist is a complete tree that is only asked for proofs.
func fullHist(n uint64) *trie.HistoryTree {
	fullMu.Lock()
	defer fullMu.Unlock()
	if fulls[n] == nil {
		fulls[n] = buildHist(n)
	}
	return fulls[n]
}

type hrStart struct {
	n       uint64
	partial bool
	commit  bool
}

func (s hrStart) String() string {
	return fmt.Sprintf("%+v", struct {
		Entries            uint64
		Partial, Committed bool
	}{s.n, s.partial, s.commit})
}

func (s hrStart) open() *hrWorld {
	w := &hrWorld{d: newFaultDB(), base: hrView{s.n, map[uint64]bool{}}, fullN: s.n}
	var t *trie.HistoryTree
	if s.partial {
		w.full = fullHist(s.n)
		w.low = s.n - 1
		v, ps, _ := w.full.GetProof(s.n - 1)
		t, _ = trie.RestoreTreeFromProofs(w.d, histPrefix, s.n-1, v, ps)
	} else {
		t, _ = newHist(w.d, nil, true)
		for i := uint64(0); i < s.n; i++ {
			lendAppend(t, i, histVal(i))
		}
	}
	if s.commit {
		t.Commit()
	}
	w.r = &trie.RevertableHistoryTree{Origin: t}
	return w
}

func runH05(c *fw.Ctx) {
	histRoot(600)
	starts := []hrStart{{0, false, false}, {3, false, true}, {15, false, false}, {16, false, true}, {31, true, false}, {18, true, true}}
	type job struct {
		s hrStart
		a int
	}
	var jobs []job
	for _, s := range starts {
		for a := range hrOps {
			jobs = append(jobs, job{s, a})
		}
	}
	explore := func(depth int, faults bool) {
		c.Parallel(len(jobs), func(i int, sl *fw.Slot) {
			j := jobs[i]
			seq := make([]int, depth)
			seq[0] = j.a
			name := func() string {
				ss := []string{j.s.String() + ":"}
				for _, o := range seq {
					ss = append(ss, hrOps[o].name+",")
				}
				return strings.Join(ss, " ")
			}
			sl.Begin(name)
			run := func(fail func(int) bool) *hrWorld {
				w := j.s.open()
				w.d.wcount = 0
				w.d.failWrite = fail
				for _, o := range seq {
					hrOps[o].f(w)
					c.Trans.Add(1)
					if fail != nil {
						w.check()
					}
				}
				w.check()
				w.liveHash()
				return w
			}
			var rec func(p int) bool
			rec = func(p int) bool {
				if p < depth {
					for o := range hrOps {
						seq[p] = o
						if !rec(p + 1) {
							return false
						}
					}
					return true
				}
				sl.Begin(nil)
				w := run(nil)
				c.States.Add(1)
				c.Traces.Add(1)
				if w.bad != "" {
					c.Fail(name(), "%s\n%s", name(), w.bad)
				}
				if faults {
					for k := 0; k < w.d.wcount; k++ {
						w := run(func(n int) bool { return n == k })
						w.d.failWrite = nil
						if w.bad == "" {
							hrOps[7].f(w)
							w.check()
						}
						c.States.Add(1)
						c.Traces.Add(1)
						if w.bad != "" {
							c.Fail(fmt.Sprintf("%s write %d", name(), k), "%s store write %d fails\n%s", name(), k, w.bad)
						}
						sl.Begin(nil)
					}
				}
				return !c.Expired()
			}
			rec(1)
		})
	}
	explore(c.Pick(3, 4), true)
	if !c.Thorough {
		keep := jobs[:0]
		for _, j := range jobs {
			if j.s == starts[2] || j.s == starts[5] {
				keep = append(keep, j)
			}
		}
		jobs = keep
	}
	explore(c.Pick(4, 5), false)
	c.Sample("partial tree of 31 entries: merge, append, precommit, commit")
}
