package seq

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/ThinkiumGroup/go-common/trie"

	"verif/harness/fw"
)

type hWorld struct {
	d     *faultDB
	t     *trie.HistoryTree
	n     uint64 // entries held
	croot []byte // last committed root
	cn    uint64
	bad   string
}

func (w *hWorld) fail(format string, a ...any) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(format, a...)
	}
}

type hOp struct {
	name string
	f    func(w *hWorld)
}

// histStart is a committed tree of some length, shared read-only by many histories.
type histStart struct {
	n    uint64
	mem  bool // build in memory, never committed
	d    *faultDB
	root []byte
}

func buildHist(n uint64) *trie.HistoryTree {
	t, err := newHist(newFaultDB(), nil, true)
	if err != nil {
		panic(err)
	}
	for i := uint64(0); i < n; i++ {
		if err := lendAppend(t, i, histVal(i)); err != nil {
			panic(fmt.Sprintf("Append(%d): %v", i, err))
		}
	}
	return t
}

func histStarts(ns []uint64, memMax uint64) []*histStart {
	var out []*histStart
	for _, n := range ns {
		d := newFaultDB()
		t, _ := newHist(d, nil, true)
		for i := uint64(0); i < n; i++ {
			if err := lendAppend(t, i, histVal(i)); err != nil {
				panic(fmt.Sprintf("Append(%d): %v", i, err))
			}
		}
		root, err := t.CommitAndHash()
		if err != nil {
			panic(fmt.Sprintf("CommitAndHash at %d: %v", n, err))
		}
		histRoot(n + 64)
		out = append(out, &histStart{n: n, d: d, root: bytes.Clone(root)})
		if n <= memMax {
			out = append(out, &histStart{n: n, mem: true})
		}
	}
	return out
}

func (s *histStart) String() string {
	if s.mem {
		return fmt.Sprintf("%d entries appended", s.n)
	}
	return fmt.Sprintf("%d entries committed and reopened", s.n)
}

func (s *histStart) open() *hWorld {
	if s.mem {
		d := newFaultDB()
		t, _ := newHist(d, nil, true)
		for i := uint64(0); i < s.n; i++ {
			lendAppend(t, i, histVal(i))
		}
		return &hWorld{d: d, t: t, n: s.n, croot: refNil}
	}
	d := s.d.overlay()
	t, err := newHist(d, s.root, true)
	w := &hWorld{d: d, t: t, n: s.n, croot: s.root, cn: s.n}
	if err != nil {
		w.fail("opening the committed root of %d entries: %v", s.n, err)
		w.t, _ = newHist(d, nil, true)
	}
	return w
}

func (w *hWorld) hash() {
	h, err := w.t.HashValue()
	if err != nil || !bytes.Equal(h, histRoot(w.n)) {
		w.fail("root of %d entries is %x (%v), want %x", w.n, h, err, histRoot(w.n))
	}
	spoil(h)
}

func (w *hWorld) get(i uint64) {
	v, ok := w.t.Get(i)
	if ok != (i < w.n) || (ok && !bytes.Equal(v, histVal(i))) {
		w.fail("Get(%d) = %x, %v with %d entries", i, v, ok, w.n)
	}
	spoil(v)
	if h := w.t.Has(i); h != (i < w.n) {
		w.fail("Has(%d) = %v with %d entries", i, h, w.n)
	}
}

// window: indexes worth looking at in a log of n entries.
func window(n uint64) []uint64 {
	m := map[uint64]bool{}
	var out []uint64
	add := func(i uint64) {
		if i < n+300 && !m[i] {
			m[i] = true
			out = append(out, i)
		}
	}
	add(0)
	for _, d := range []uint64{1, 2, 3, 16, 17, 256} {
		add(n - d)
	}
	add(n)
	add(n + 1)
	add(n + 16)
	add((n-1)&^15 - 1)
	add((n-1)&^255 - 1)
	return out
}

func (w *hWorld) prove(i uint64) {
	v, ps, ok := w.t.GetProof(i)
	if ok != (i < w.n) {
		w.fail("GetProof(%d) ok=%v with %d entries", i, ok, w.n)
		return
	}
	if !ok {
		return
	}
	if !bytes.Equal(v, histVal(i)) {
		w.fail("GetProof(%d) returns value %x", i, v)
	}
	if e := checkHistProof(ps, i, v, histRoot(w.n)); e != "" {
		w.fail("%d entries: %s", w.n, e)
	}
	spoil(v)
}

func (w *hWorld) checkAll() {
	if e := w.t.Expecting(); e != w.n {
		w.fail("Expecting() = %d with %d entries", e, w.n)
	}
	if x, want := w.t.String(), fmt.Sprintf("Expecting:%d", w.n); !strings.Contains(x, want) {
		w.fail("String() = %s with %d entries", x, w.n)
	}
	for _, i := range window(w.n) {
		w.get(i)
	}
	w.hash()
	w.prove(w.n - 1)
	w.prove((w.n-1)&^15 - 1)
	w.hash()
}

var histOps = []hOp{
	{"Append(next)", func(w *hWorld) {
		if err := lendAppend(w.t, w.n, histVal(w.n)); err != nil {
			w.fail("Append(%d) with %d entries: %v", w.n, w.n, err)
			return
		}
		w.n++
	}},
	{"HashValue", func(w *hWorld) { w.hash() }},
	{"Commit", func(w *hWorld) {
		if err := w.t.Commit(); err != nil {
			w.fail("Commit: %v", err)
		}
		w.croot, w.cn = histRoot(w.n), w.n
	}},
	{"CollapseBefore(last&^15)", func(w *hWorld) { w.t.CollapseBefore((w.n - 1) &^ 15) }},
	{"Clone", func(w *hWorld) {
		w.t = w.t.Clone()
		w.croot, w.cn = histRoot(w.n), w.n
		if w.t == nil {
			w.fail("Clone returned nil")
			w.t, _ = newHist(w.d, nil, true)
		}
	}},
	{"Reopen", func(w *hWorld) {
		t, err := newHist(w.d, w.croot, true)
		if err != nil {
			w.fail("reopening %d committed entries: %v", w.cn, err)
			return
		}
		w.t, w.n = t, w.cn
	}},
	// the short list above is explored deeper
	{"Append(last again)", func(w *hWorld) {
		if w.n > 0 && lendAppend(w.t, w.n-1, altVal) == nil {
			w.fail("Append(%d) with %d entries succeeded", w.n-1, w.n)
		}
	}},
	{"Append(next+1)", func(w *hWorld) {
		if lendAppend(w.t, w.n+1, altVal) == nil {
			w.fail("Append(%d) with %d entries succeeded", w.n+1, w.n)
		}
	}},
	{"Append(0 again)", func(w *hWorld) {
		if w.n > 0 && lendAppend(w.t, 0, altVal) == nil {
			w.fail("Append(0) with %d entries succeeded", w.n)
		}
	}},
	{"Append(next, empty)", func(w *hWorld) {
		if lendAppend(w.t, w.n, nil) == nil {
			w.fail("Append of an empty value succeeded")
		}
	}},
	{"CommitAndHash", func(w *hWorld) {
		h, err := w.t.CommitAndHash()
		if err != nil || !bytes.Equal(h, histRoot(w.n)) {
			w.fail("CommitAndHash of %d entries = %x, %v", w.n, h, err)
		}
		spoil(h)
		w.croot, w.cn = histRoot(w.n), w.n
	}},
	{"CollapseBefore(last&^255)", func(w *hWorld) { w.t.CollapseBefore((w.n - 1) &^ 255) }},
	{"CollapseBefore(last&^15-16)", func(w *hWorld) { w.t.CollapseBefore((w.n-1)&^15 - 16) }},
	{"CollapseBefore(next)", func(w *hWorld) { w.t.CollapseBefore(w.n) }},
	{"Rebase", func(w *hWorld) {
		if err := w.t.Commit(); err != nil {
			w.fail("Commit: %v", err)
		}
		w.croot, w.cn = histRoot(w.n), w.n
		d := w.d.overlay()
		t, err := w.t.Rebase(d)
		if err != nil || t == nil {
			w.fail("Rebase: %v", err)
			return
		}
		w.d, w.t = d, t
	}},
	{"Lookups", func(w *hWorld) {
		for _, i := range window(w.n) {
			w.get(i)
		}
	}},
	{"Proofs", func(w *hWorld) {
		for _, i := range []uint64{w.n - 1, (w.n-1)&^15 - 1, w.n} {
			w.prove(i)
		}
	}},
}

// exploreHist runs every history of depth steps over ops from each start.
func exploreHist(c *fw.Ctx, starts []*histStart, ops []hOp, depth int) {
	type job struct {
		s *histStart
		a int
	}
	var jobs []job
	for _, s := range starts {
		for a := range ops {
			jobs = append(jobs, job{s, a})
		}
	}
	c.Parallel(len(jobs), func(i int, sl *fw.Slot) {
		j := jobs[i]
		seq := make([]int, depth)
		seq[0] = j.a
		desc := func() string {
			ss := []string{j.s.String() + ";"}
			for _, o := range seq {
				ss = append(ss, ops[o].name)
			}
			return strings.Join(ss, " ")
		}
		sl.Begin(desc)
		n := 0
		var rec func(p int) bool
		rec = func(p int) bool {
			if p < depth {
				for o := range ops {
					seq[p] = o
					if !rec(p + 1) {
						return false
					}
				}
				return true
			}
			w := j.s.open()
			for _, o := range seq {
				ops[o].f(w)
				c.Trans.Add(1)
			}
			w.checkAll()
			c.States.Add(1)
			c.Traces.Add(1)
			if w.bad != "" {
				d := desc()
				c.Fail(d, "history: %s\n%s", d, w.bad)
			}
			n++
			if n%16 == 0 {
				sl.Begin(nil)
				return !c.Expired()
			}
			return true
		}
		rec(1)
	})
}

func init() {
	fw.Register(fw.Check{ID: "H01", Level: fw.MC,
		Rule: "every history over appends (next, past, future index, empty value), hashing, commits, collapses at several places, clone, rebase, reopen, lookups and proofs up to the depth, from log lengths on both sides of every tree-node boundary up to 4096; contents, expected index, membership and root compared with an independent reference model; and every length up to a bound appended one by one",
		Run: func(c *fw.Ctx) {
			lens := []uint64{0, 1, 15, 16, 31, 254, 256, 4095}
			if c.Thorough {
				lens = []uint64{0, 1, 14, 15, 16, 31, 32, 240, 254, 255, 256, 272, 4094, 4096}
			}
			starts := histStarts(lens, 16)
			c.Sample(fmt.Sprintf("starts %v", starts))
			exploreHist(c, starts, histOps, c.Pick(3, 4))
			exploreHist(c, starts, histOps[:6], c.Pick(5, 7))
			if c.Thorough {
				exploreHist(c, histStarts([]uint64{0, 15, 16, 255}, 16), histOps, 5)
			}
			// one long log; everything readable at every boundary
			w := (&histStart{mem: true}).open()
			sl := c.NewSlot()
			for n := uint64(0); n < uint64(c.Pick(4200, 70000)) && !c.Expired(); n++ {
				sl.Begin(func() string { return fmt.Sprint("long log, ", n) })
				if err := lendAppend(w.t, n, histVal(n)); err != nil {
					w.fail("Append(%d): %v", n, err)
				}
				w.n++
				c.Trans.Add(1)
				if n%64 == 63 || n < 300 {
					w.checkAll()
				}
				if n == 300 || n == 4100 || n == 65600 {
					for i := uint64(0); i <= n+2; i++ {
						w.get(i)
					}
					w.t.Commit()
				}
				if n%16 == 0 && n%32 != 0 {
					w.t.CollapseBefore(n)
				}
				if w.bad != "" {
					c.Fail(fmt.Sprintf("long log %d", n), "log of %d entries: %s", n+1, w.bad)
				}
			}
			sl.End()
		}})
	fw.Register(fw.Check{ID: "H02", Level: fw.MC, Run: runH02,
		Rule: "every log length up to the bound plus windows around 4096 (and 65536): root against the reference model, built in one go, hashed at every step, committed and reopened, and with parts collapsed; every index proved at every length in each form; every tampering of every path item of the proofs of selected lengths (each hash replaced or bit-flipped, each side flipped, items dropped, added, swapped, other value, other index) must not fold to the root for that index; all roots pairwise distinct, also for every sequence over two values up to a length"})
}

func runH02(c *fw.Ctx) {
	max := c.Pick(290, 700)
	histRoot(uint64(max) + 2)
	seen := newRootTable()
	c.Parallel(max+1, func(i int, sl *fw.Slot) {
		n := uint64(max - i)
		sl.Begin(func() string { return fmt.Sprintf("length %d", n) })
		proveAll := func(form string, w *hWorld) {
			w.hash()
			for i := uint64(0); i <= n; i++ {
				w.prove(i)
				c.Traces.Add(1)
				sl.Begin(nil)
			}
			w.hash()
			c.States.Add(1)
			if w.bad != "" {
				c.Fail(fmt.Sprintf("%s length %d", form, n), "%s, length %d: %s", form, n, w.bad)
			}
		}
		w := (&histStart{n: n, mem: true}).open()
		proveAll("appended without hashing", w)
		if e := seen.add("", fmt.Sprint(n), histRoot(n)); e != "" {
			c.Fail("collision", "%s", e)
		}
		// hashed after every append, on another tree
		w = (&histStart{mem: true}).open()
		for k := uint64(0); k < n; k++ {
			lendAppend(w.t, k, histVal(k))
			w.n++
			w.hash()
			c.Trans.Add(1)
		}
		proveAll("hashed at every step", w)
		root, err := w.t.CommitAndHash()
		if err != nil {
			w.fail("CommitAndHash: %v", err)
		}
		proveAll("committed", w)
		for _, strict := range []bool{true, false} {
			t, err := newHist(w.d, root, strict)
			if err != nil {
				c.Fail(fmt.Sprint("reopen ", n), "reopening %d committed entries (strict %v): %v", n, strict, err)
				return
			}
			proveAll("reopened", &hWorld{d: w.d, t: t, n: n})
		}
		for _, m := range []uint64{15, 255} {
			w.t.CollapseBefore((n - 1) &^ m)
			w.hash()
			proveAll("collapsed", w)
		}
	})
	// windows around higher boundaries: one tree, all interesting proofs at each length
	bounds := []uint64{4096}
	if c.Thorough {
		bounds = append(bounds, 8192, 65536)
	}
	for _, b := range bounds {
		histRoot(b + 20)
		starts := histStarts([]uint64{b - 4}, 0)
		c.Parallel(9, func(i int, sl *fw.Slot) {
			sl.Begin(func() string { return fmt.Sprintf("window %d+%d", b, i-4) })
			w := starts[0].open()
			for k := 0; k < i; k++ {
				lendAppend(w.t, w.n, histVal(w.n))
				w.n++
			}
			for k := uint64(0); k <= w.n; k++ {
				w.prove(k)
				c.Traces.Add(1)
				sl.Begin(nil)
			}
			w.hash()
			c.States.Add(1)
			if w.bad != "" {
				c.Fail(fmt.Sprintf("window %d+%d", b, i-4), "%s", w.bad)
			}
		})
	}
	// sequences over two values: roots equal the reference, all distinct
	L := c.Pick(9, 12)
	c.Parallel(1<<L, func(i int, sl *fw.Slot) {
		sl.Begin(func() string { return fmt.Sprintf("two-valued sequences %b", i) })
		t, _ := newHist(newFaultDB(), nil, true)
		var vals [][]byte
		for k := 0; k < L; k++ {
			v := histVal(0)
			if i>>k&1 == 1 {
				v = altVal
			}
			vals = append(vals, v)
			lendAppend(t, uint64(k), v)
		}
		h, err := t.HashValue()
		if err != nil || !bytes.Equal(h, refRoot(vals)) {
			c.Fail(fmt.Sprintf("two-valued %b", i), "two-valued sequence %b of length %d: root %x, %v; want %x", i, L, h, err, refRoot(vals))
		}
		if e := seen.add("", fmt.Sprintf("two-valued %b", i), h); e != "" {
			c.Fail("collision", "%s", e)
		}
		for k := 0; k < L; k++ {
			v, ps, ok := t.GetProof(uint64(k))
			if !ok || !bytes.Equal(v, vals[k]) {
				c.Fail("two-valued proof", "two-valued sequence %b: GetProof(%d) = %x, %v", i, k, v, ok)
			}
			if e := checkHistProof(ps, uint64(k), v, h); e != "" {
				c.Fail("two-valued proof", "two-valued sequence %b: %s", i, e)
			}
			c.Traces.Add(1)
		}
		c.States.Add(1)
	})
	// tampered proofs
	lens := []uint64{1, 2, 3, 5, 8, 15, 16, 17, 31, 33, 100, 255, 256, 257}
	c.Parallel(len(lens), func(i int, sl *fw.Slot) {
		n := lens[i]
		sl.Begin(func() string { return fmt.Sprintf("tampered proofs, length %d", n) })
		t := buildHist(n)
		root := histRoot(n)
		step := uint64(1)
		if n > 40 {
			step = uint64(c.Pick(13, 3))
		}
		for k := uint64(0); k < n; k += step {
			v, ps, ok := t.GetProof(k)
			if !ok {
				c.Fail("tamper", "GetProof(%d) of %d failed", k, n)
			}
			for j := uint64(0); j < n; j++ {
				if j != k {
					if r, err := ps.Proof(bytesToHash(histVal(j))); err == nil && bytes.Equal(r, root) {
						c.Fail("tamper", "length %d: the proof of %d also proves the value of %d", n, k, j)
					}
				}
			}
			items, err := ps.ToItems()
			if err != nil || len(items) != 64 {
				c.Fail("tamper", "length %d: proof of %d has %d items (%v)", n, k, len(items), err)
			}
			tamperItems(items, func(what string, ti []trieItem) {
				c.Traces.Add(1)
				p := itemsProof(ti)
				r, err := p.Proof(bytesToHash(v))
				if err == nil && bytes.Equal(r, root) && p.BigKey().Uint64() == k {
					c.Fail("tamper", "length %d, proof of %d, %s: still verifies", n, k, what)
				}
				if err == nil && bytes.Equal(r, root) {
					c.Fail("tamper", "length %d, proof of %d, %s: verifies index %s", n, k, what, p.BigKey())
				}
			})
			sl.Begin(nil)
		}
	})
	c.Sample("lengths 0..290 and 4092..4100, every index proved in six forms")
}
