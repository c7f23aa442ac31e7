package seq

import (
	"bytes"
	"fmt"

	"github.com/ThinkiumGroup/go-common/trie"

	"verif/harness/fw"
)

// H03: partial trees. The complete tree of n entries is the reference; a partial tree is restored from
// the proof of entry n-1 in a store of its own and has proofs of older entries merged.

type partial struct {
	n      uint64
	t      *trie.HistoryTree
	d      *faultDB
	merged map[uint64]bool
	bad    string
}

func (p *partial) fail(format string, a ...any) {
	if p.bad == "" {
		p.bad = fmt.Sprintf(format, a...)
	}
}

func restorePartial(full *trie.HistoryTree, n uint64) *partial {
	p := &partial{n: n, d: newFaultDB(), merged: map[uint64]bool{n - 1: true}}
	v, ps, ok := full.GetProof(n - 1)
	if !ok {
		p.fail("GetProof(%d) of the complete tree failed", n-1)
		return p
	}
	t, err := trie.RestoreTreeFromProofs(p.d, histPrefix, n-1, v, ps)
	if err != nil || t == nil {
		p.fail("RestoreTreeFromProofs(%d): %v", n-1, err)
		return p
	}
	spoil(v)
	p.t = t
	return p
}

func (p *partial) hash(when string) {
	if p.bad != "" {
		return
	}
	h, err := p.t.HashValue()
	if err != nil || !bytes.Equal(h, histRoot(p.n)) {
		p.fail("%s: root of the partial tree is %x (%v), the complete tree of %d entries has %x", when, h, err, p.n, histRoot(p.n))
	}
	spoil(h)
}

func (p *partial) merge(full *trie.HistoryTree, i uint64) {
	if p.bad != "" {
		return
	}
	v, ps, ok := full.GetProof(i)
	if !ok {
		p.fail("GetProof(%d) of the complete tree failed", i)
		return
	}
	if err := p.t.MergeProof(i, v, ps); err != nil {
		p.fail("MergeProof(%d): %v", i, err)
		return
	}
	spoil(v)
	p.merged[i] = true
}

func (p *partial) append(k int) {
	for ; k > 0 && p.bad == ""; k-- {
		if e := p.t.Expecting(); e != p.n {
			p.fail("Expecting() = %d, the log has %d entries", e, p.n)
			return
		}
		if err := lendAppend(p.t, p.n, histVal(p.n)); err != nil {
			p.fail("Append(%d): %v", p.n, err)
			return
		}
		p.merged[p.n] = true
		p.n++
		p.hash(fmt.Sprintf("after appending %d", p.n-1))
	}
}

// readable: merged and appended entries can be read and proved.
func (p *partial) readable(when string) {
	if p.bad != "" {
		return
	}
	for i := range p.merged {
		v, ok := p.t.Get(i)
		if !ok || !bytes.Equal(v, histVal(i)) {
			p.fail("%s: Get(%d) = %x, %v", when, i, v, ok)
			return
		}
		v, ps, ok := p.t.GetProof(i)
		if !ok || !bytes.Equal(v, histVal(i)) {
			p.fail("%s: GetProof(%d) = %x, %v", when, i, v, ok)
			return
		}
		if e := checkHistProof(ps, i, v, histRoot(p.n)); e != "" {
			p.fail("%s: %s", when, e)
			return
		}
	}
	if _, ok := p.t.Get(p.n); ok {
		p.fail("%s: Get(%d) found something past the end", when, p.n)
	}
}

// reload: commit, and continue from the store (as Clone and a restart do).
func (p *partial) reload(clone bool) {
	if p.bad != "" {
		return
	}
	if clone {
		if p.t = p.t.Clone(); p.t == nil {
			p.fail("Clone returned nil")
		}
		return
	}
	root, err := p.t.CommitAndHash()
	if err != nil || !bytes.Equal(root, histRoot(p.n)) {
		p.fail("CommitAndHash = %x, %v", root, err)
		return
	}
	if p.t, err = newHist(p.d, root, false); err != nil {
		p.fail("reopening the committed partial tree: %v", err)
	}
}

// scenario: restore at n, merge the given entries, variant of reloading and collapsing, append.
func partialScenario(full *trie.HistoryTree, n uint64, merge []uint64, variant, more int) string {
	p := restorePartial(full, n)
	p.hash("restored")
	if variant == 5 && p.bad == "" { // appended before anything is merged
		p.append(more)
		p.readable("appended")
		return p.bad
	}
	for _, i := range merge {
		p.merge(full, i)
		p.hash(fmt.Sprintf("after merging %d", i))
		if variant == 4 {
			p.reload(true)
		}
	}
	p.readable("merged")
	switch variant {
	case 1:
		p.reload(false)
	case 2:
		p.reload(true)
	case 3:
		p.reload(false)
		if p.bad == "" {
			p.t.CollapseBefore((n - 1) &^ 15)
			p.t.CollapseBefore((n - 1) &^ 255)
		}
		p.hash("after collapsing")
	}
	p.readable("reloaded")
	p.append(more)
	p.readable("appended")
	if variant > 0 && p.bad == "" {
		p.reload(variant == 2)
		p.hash("reloaded again")
		p.readable("reloaded again")
		p.append(2)
	}
	return p.bad
}

func init() {
	fw.Register(fw.Check{ID: "H03", Level: fw.MC, Run: runH03,
		Rule: "for every length up to the bound and around 256 and 4096: restore from the last proof, merge every single older entry and every ordered pair, under six ways of committing, cloning, collapsing and reopening, then append and compare roots, lookups and proofs with the complete tree; frontiers forged at every power of two and node boundary up to 2^64-1; every single-place tampering of merged proofs must be refused without changing the tree; every cut of every length, followed by appends, commit and reopen"})
}

func runH03(c *fw.Ctx) {
	max := uint64(c.Pick(40, 100))
	histRoot(5000)
	type job struct {
		n     uint64
		pairs bool
		step  uint64
		more  int
	}
	var jobs []job
	for n := uint64(1); n <= max; n++ {
		jobs = append(jobs, job{n, n <= uint64(c.Pick(24, 64)), 1, 18})
	}
	for _, n := range []uint64{34, 50, 255, 256, 257, 273, 300, 512} {
		jobs = append(jobs, job{n, true, uint64(c.Pick(29, 7)), 3})
	}
	for _, n := range []uint64{4095, 4097} {
		jobs = append(jobs, job{n, true, uint64(c.Pick(509, 131)), 3})
	}
	c.Parallel(len(jobs), func(i int, sl *fw.Slot) {
		j := jobs[len(jobs)-1-i]
		full := buildHist(j.n)
		run := func(merge []uint64, variant int) bool {
			desc := func() string { return fmt.Sprintf("restore at %d entries, merge %v, variant %d", j.n, merge, variant) }
			sl.Begin(desc)
			c.States.Add(1)
			c.Traces.Add(1)
			c.Trans.Add(int64(len(merge) + j.more + 1))
			more := j.more
			if len(merge) == 2 {
				more = 3
			}
			if bad := partialScenario(full, j.n, merge, variant, more); bad != "" {
				c.Fail(desc(), "%s (0 plain, 1 commit+reopen, 2 clone, 3 commit, reopen and collapse, 4 clone after every merge, 5 append at once)\n%s", desc(), bad)
			}
			return !c.Expired()
		}
		for v := 0; v < 6; v++ {
			if !run(nil, v) {
				return
			}
		}
		for a := uint64(0); a+1 < j.n; a += j.step {
			for v := 0; v < 4; v++ {
				if !run([]uint64{a}, v) {
					return
				}
			}
			if j.pairs {
				for b := uint64(0); b+1 < j.n; b += j.step {
					if a == b {
						continue
					}
					for _, v := range []int{0, 1, 2, 4} {
						if v > 0 && !c.Thorough && (a+b)%3 != 0 {
							continue
						}
						if !run([]uint64{a, b}, v) {
							return
						}
					}
				}
			}
		}
		if j.n <= 20 { // all of them, upwards and downwards
			var up, down []uint64
			for k := uint64(0); k+1 < j.n; k++ {
				up = append(up, k)
				down = append([]uint64{k}, down...)
			}
			for v := 0; v < 5; v++ {
				run(up, v)
				run(down, v)
			}
		}
	})
	// forged frontiers anywhere in the index space
	var lasts []uint64
	for b := 0; b < 64; b++ {
		for _, d := range []int64{-17, -2, -1, 0, 1, 15} {
			lasts = append(lasts, uint64(1)<<b+uint64(d), (uint64(1)<<b)*5+uint64(d))
		}
	}
	lasts = append(lasts, ^uint64(0), ^uint64(0)-1, ^uint64(0)-20, 0x0123456789abcdef, 0xfffffffffffffff0)
	c.Parallel(len(lasts), func(i int, sl *fw.Slot) {
		last := lasts[i]
		desc := func() string { return fmt.Sprintf("frontier at %#x", last) }
		sl.Begin(desc)
		f := &refFrontier{last: last, val: histVal(last)}
		for l := range f.left {
			f.left[l] = refHash([]byte{byte(l)}, []byte("left"))
		}
		d := newFaultDB()
		t, err := trie.RestoreTreeFromProofs(d, histPrefix, last, f.val, f.proof())
		if err != nil {
			c.Fail(desc(), "%s: RestoreTreeFromProofs: %v", desc(), err)
		}
		for k := 0; k < 20; k++ {
			h, err := t.HashValue()
			if err != nil || !bytes.Equal(h, f.root()) {
				c.Fail(desc(), "%s + %d: root %x, %v; want %x", desc(), k, h, err, f.root())
			}
			if v, ps, ok := t.GetProof(f.last); !ok || !bytes.Equal(v, f.val) {
				c.Fail(desc(), "%s + %d: GetProof of the last entry: %x, %v", desc(), k, v, ok)
			} else if f.last != ^uint64(0) {
				if e := checkHistProof(ps, f.last, f.val, f.root()); e != "" {
					c.Fail(desc(), "%s + %d: %s", desc(), k, e)
				}
			}
			if k%5 == 4 {
				if t = t.Clone(); t == nil {
					c.Fail(desc(), "%s + %d: Clone failed", desc(), k)
				}
			}
			if k == 12 {
				t.Commit()
				t.CollapseBefore(f.last &^ 15)
			}
			c.States.Add(1)
			c.Trans.Add(1)
			if f.last == ^uint64(0) { // the index space is used up
				if lendAppend(t, 0, altVal) == nil {
					c.Fail("full", "a tree holding the largest index accepted index 0 again")
				}
				if h2, err := t.HashValue(); err != nil || !bytes.Equal(h2, f.root()) {
					c.Fail("full", "a refused Append to a full tree changed its root to %x, %v", h2, err)
				}
				break
			}
			if err := lendAppend(t, f.last+1, histVal(f.last+1)); err != nil {
				c.Fail(desc(), "%s: Append(%#x): %v", desc(), f.last+1, err)
			}
			f.append(histVal(f.last + 1))
		}
		c.Traces.Add(1)
	})
	// tampered proofs are refused and change nothing
	for _, n := range []uint64{2, 5, 17, 18, 40, 260} {
		full := buildHist(n)
		var is []uint64
		for _, i := range []uint64{0, 1, n / 2, n - 2, n - 1} {
			is = append(is, i)
		}
		c.Parallel(len(is), func(x int, sl *fw.Slot) {
			i := is[x]
			desc := func() string { return fmt.Sprintf("tampered merge of %d into %d", i, n) }
			sl.Begin(desc)
			v, ps, _ := full.GetProof(i)
			items, _ := ps.ToItems()
			p := restorePartial(full, n)
			try := func(what string, key uint64, v []byte, ch trie.ProofChain) {
				c.Traces.Add(1)
				var err error
				if pan := fw.Try(func() { err = p.t.MergeProof(key, v, ch) }); pan != nil {
					c.Fail(desc()+what, "%s, %s: MergeProof panicked: %v", desc(), what, pan)
				}
				if err == nil {
					c.Fail(desc()+what, "%s, %s: MergeProof succeeded", desc(), what)
				}
				p.hash("after a refused merge")
				p.readable("after a refused merge")
				if v, ok := p.t.Get(i); ok && !bytes.Equal(v, histVal(i)) {
					p.fail("after a refused merge, Get(%d) = %x", i, v)
				}
				if e := p.t.Expecting(); e != n {
					p.fail("after a refused merge, Expecting() = %d", e)
				}
				if p.bad != "" {
					c.Fail(desc()+what, "%s, %s: %s", desc(), what, p.bad)
				}
			}
			tamperItems(items, func(what string, ti []trieItem) { try(what, i, v, itemsProof(ti)) })
			try("other value", i, altVal, ps)
			try("other index", i+1, v, ps)
			try("short value", i, v[:31], ps)
			try("no proof", i, v, nil)
			c.States.Add(1)
		})
	}
	// cutting
	cuts := []uint64{}
	for n := uint64(1); n <= uint64(c.Pick(40, 120)); n++ {
		cuts = append(cuts, n)
	}
	cuts = append(cuts, 256, 257, 273, 300, 515)
	if c.Thorough {
		cuts = append(cuts, 4096, 4100)
	}
	c.Parallel(len(cuts), func(x int, sl *fw.Slot) {
		n := cuts[len(cuts)-1-x]
		desc := func() string { return fmt.Sprintf("cutting %d entries", n) }
		sl.Begin(desc)
		for form := 0; form < 4; form++ { // uncommitted, committed, reopened, hashed before
			w := (&histStart{n: n, mem: true}).open()
			switch form {
			case 1:
				w.t.Commit()
			case 2:
				root, _ := w.t.CommitAndHash()
				w.t, _ = newHist(w.d, root, true)
			case 3:
				w.t.HashValue()
			}
			step := uint64(1)
			if n > 130 {
				step = 3
			}
			for k := uint64(0); k < n && !c.Expired(); k += step {
				sl.Begin(nil)
				c.Traces.Add(1)
				bad := func(format string, a ...any) {
					c.Fail(fmt.Sprintf("chop %d of %d form %d", k, n, form), "%s (form %d) at %d: %s", desc(), form, k, fmt.Sprintf(format, a...))
				}
				t, err := w.t.Chop(k)
				if err != nil {
					bad("%v", err)
				}
				cw := &hWorld{d: w.d, t: t, n: k + 1}
				cw.hash()
				if e := t.Expecting(); e != k+1 {
					cw.fail("Expecting() = %d", e)
				}
				look := func(cw *hWorld) {
					for i := uint64(0); i < cw.n && i < 3; i++ {
						cw.get(i)
					}
					for i := cw.n; i > 0 && i+20 > cw.n; i-- {
						cw.get(i - 1)
					}
					cw.get(cw.n)
					cw.get(cw.n + 1)
					cw.prove(cw.n - 1)
					cw.prove(cw.n / 2)
				}
				look(cw)
				if k%2 == 0 {
					root, err := t.CommitAndHash()
					if err != nil || !bytes.Equal(root, histRoot(k+1)) {
						cw.fail("CommitAndHash = %x, %v", root, err)
					}
					if cw.t, err = newHist(w.d, root, true); err != nil {
						cw.fail("reopening the committed cut tree: %v", err)
						bad("%s", cw.bad)
					}
					look(cw)
				}
				for m := 0; m < 3; m++ {
					if err := lendAppend(cw.t, cw.n, histVal(cw.n)); err != nil {
						cw.fail("Append(%d): %v", cw.n, err)
						break
					}
					cw.n++
					cw.hash()
				}
				look(cw)
				w.hash() // the original is untouched
				c.States.Add(1)
				if cw.bad != "" {
					bad("%s", cw.bad)
				}
			}
			w.checkAll()
			if w.bad != "" {
				c.Fail(desc(), "%s: the tree that was cut: %s", desc(), w.bad)
			}
			if _, err := w.t.Chop(n); err == nil {
				c.Fail(desc(), "%s: Chop(%d) succeeded", desc(), n)
			}
		}
	})
	c.Sample("restore at 33 entries, merge [0 16], variant 1, append 18")
}
