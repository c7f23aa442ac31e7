package seq

import (
	"bytes"
	"fmt"

	"verif/harness/fw"
)

// exploreTrie runs every (start, sequence) of the given depth and hands the world reached to end.
// Every proper prefix of a sequence is itself explored by the smaller depths, so end only needs to
// look at the final state.
func exploreTrie(c *fw.Ctx, fams []family, res []tOp, depths []int, alpha func(f family) []tOp, end func(w *tWorld)) {
	type job struct {
		s     start
		depth int
		first int
	}
	var jobs []job
	for _, d := range depths {
		for _, f := range fams {
			na := len(alpha(f))
			for _, s := range starts(f, res) {
				if d == 0 {
					jobs = append(jobs, job{s, 0, 0})
					continue
				}
				for i := 0; i < na; i++ {
					jobs = append(jobs, job{s, d, i})
				}
			}
		}
	}
	c.Parallel(len(jobs), func(i int, sl *fw.Slot) {
		j := jobs[i]
		al := alpha(j.s.f)
		var cur []tOp
		sl.Begin(func() string { return history(j.s.f, append(append([]tOp{}, j.s.ops...), cur...)) })
		n := int64(0)
		run := func(seq []tOp) bool {
			cur = seq
			n++
			w := newTWorld(j.s.f)
			for _, o := range j.s.ops {
				w.apply(o)
			}
			for _, o := range seq {
				w.apply(o)
			}
			end(w)
			c.States.Add(1)
			c.Trans.Add(int64(len(j.s.ops) + len(seq)))
			c.Traces.Add(1)
			if len(w.m) > 0 {
				c.Nontriv.Add(1)
			}
			c.Evals.Add(1)
			if w.bad != "" {
				h := history(j.s.f, append(append([]tOp{}, j.s.ops...), seq...))
				c.Fail(h, "history %s\n%s\nexpected contents: %s", h, w.bad, content(w.m))
			}
			if n%64 == 0 {
				sl.Begin(nil)
				if c.Expired() {
					return false
				}
			}
			return true
		}
		if j.depth == 0 {
			run(nil)
			return
		}
		eachSeq(al, j.depth-1, func(seq []tOp) bool {
			full := append([]tOp{al[j.first]}, seq...)
			return run(full)
		})
	})
	for _, f := range fams[:2] {
		ss := starts(f, res)
		al := alpha(f)
		s := ss[len(ss)-1]
		c.Sample(history(f, append(append([]tOp{}, s.ops...), al[0], al[len(al)-1], al[len(al)/2])))
	}
}

func alphaFull(f family) []tOp {
	var a []tOp
	for k := range f.keys {
		a = append(a, tOp{opPut, k, '2'}, tOp{opDel, k, 0}, tOp{opGet, k, 0})
	}
	return append(a, tOp{kind: opCommit}, tOp{kind: opCollapse}, tOp{kind: opReopen}, tOp{kind: opHash})
}

// alphaMut leaves out pure lookups; overwriting with the old and a new value.
func alphaMut(f family) []tOp {
	var a []tOp
	for k := range f.keys {
		a = append(a, tOp{opPut, k, '2'}, tOp{opDel, k, 0})
	}
	return append(a, tOp{opPut, 0, '1'}, tOp{kind: opCommit}, tOp{kind: opCollapse}, tOp{kind: opReopen}, tOp{kind: opHash})
}

func alphaBig(f family) []tOp {
	var a []tOp
	for k := range f.keys[:4] {
		a = append(a, tOp{opPutBig, k, '7'}, tOp{opDel, k, 0})
	}
	return append(a, tOp{opPut, 0, '1'}, tOp{opProof, 1, 0}, tOp{kind: opCommit}, tOp{kind: opCollapse}, tOp{kind: opReopen}, tOp{kind: opHash})
}

// wideCases: structured histories over bigger tries, each described by a name and run by a function
// on a world; after every step of the plan check is called.
type widePlan struct {
	name  string
	steps []func(w *tWorld)
}

func put(k, v string) func(w *tWorld) { return func(w *tWorld) { w.put(k, v) } }
func del(k string) func(w *tWorld)    { return func(w *tWorld) { w.del(k) } }
func op(k tKind) func(w *tWorld)      { return func(w *tWorld) { w.apply(tOp{kind: k}) } }

// widePlans builds, for every fan-out, order and residence pattern, fill-and-empty histories; for
// every key length chains of nested keys; values around the size where stored values are collapsed;
// and untouched nodes ageing over more than a hundred commits.
func widePlans(thorough bool) []widePlan {
	var out []widePlan
	pats := [][]tKind{{}, {opCommit}, {opReopen}, {opHash}, {opCommit, opCollapse}}
	orders := func(n int) [][]int {
		asc, desc, zig := make([]int, n), make([]int, n), make([]int, n)
		for i := 0; i < n; i++ {
			asc[i], desc[i] = i, n-1-i
			if i%2 == 0 {
				zig[i] = i / 2
			} else {
				zig[i] = n - 1 - i/2
			}
		}
		return [][]int{asc, desc, zig}
	}
	for _, base := range []string{"", "\x77", "\x70\x01"} {
		for n := 2; n <= 16; n++ {
			for _, withBase := range []bool{false, true} {
				for pi, pat := range pats {
					for oi, ord := range orders(n) {
						for shape := 0; shape < 2; shape++ {
							key := func(i int) string {
								if shape == 0 {
									return base + string([]byte{byte(i << 4)})
								}
								return base + string([]byte{0x30 | byte(i), byte(i)})
							}
							var st []func(w *tWorld)
							if withBase {
								st = append(st, put(base, "b"))
							}
							for i := 0; i < n; i++ {
								st = append(st, put(key(ord[i]), fmt.Sprint("v", i)))
							}
							for _, k := range pat {
								st = append(st, op(k))
							}
							for i := 0; i < n; i++ {
								st = append(st, del(key(ord[(i+n/2)%n])))
								for _, k := range pat {
									st = append(st, op(k))
								}
							}
							out = append(out, widePlan{fmt.Sprintf("fan base=%x n=%d withBase=%v pat=%d ord=%d shape=%d", base, n, withBase, pi, oi, shape), st})
						}
					}
				}
			}
		}
	}
	maxLen := 40
	if thorough {
		maxLen = 100
	}
	for l := 1; l <= maxLen; l++ {
		for pi, pat := range pats {
			var st []func(w *tWorld)
			long := make([]byte, l)
			for i := range long {
				long[i] = byte(i*7 + 1)
			}
			// key, its sibling by last nibble, by first nibble, its parent, its extension
			ks := []string{string(long), string(long[:l-1]) + string([]byte{long[l-1] ^ 1}), string([]byte{long[0] ^ 0x10}) + string(long[1:]),
				string(long[:l-1]), string(long) + "\x00", string(long[:l/2])}
			for i, k := range ks {
				st = append(st, put(k, fmt.Sprint(i)))
				for _, p := range pat {
					st = append(st, op(p))
				}
			}
			for _, i := range []int{3, 0, 5, 1, 4, 2} {
				st = append(st, del(ks[i]))
				for _, p := range pat {
					st = append(st, op(p))
				}
			}
			out = append(out, widePlan{fmt.Sprintf("len %d pat %d", l, pi), st})
		}
	}
	// nested chain: every prefix of a long key, inserted and removed in both directions
	for _, n := range []int{3, 8, 20, 33} {
		for dir := 0; dir < 4; dir++ {
			for pi, pat := range pats {
				var st []func(w *tWorld)
				for i := 0; i < n; i++ {
					j := i
					if dir&1 == 1 {
						j = n - 1 - i
					}
					st = append(st, put(string(bytes.Repeat([]byte{0xc3}, j)), fmt.Sprint("c", j)))
				}
				for _, p := range pat {
					st = append(st, op(p))
				}
				for i := 0; i < n; i++ {
					j := i
					if dir&2 == 2 {
						j = n - 1 - i
					}
					st = append(st, del(string(bytes.Repeat([]byte{0xc3}, j))))
					for _, p := range pat {
						st = append(st, op(p))
					}
				}
				out = append(out, widePlan{fmt.Sprintf("nest n=%d dir=%d pat=%d", n, dir, pi), st})
			}
		}
	}
	// values around the collapse size, overwritten and removed over several commits
	for _, sz := range []int{0, 1, 31, 32, 33, 4094, 4095, 4096, 4097, 5000, 70000} {
		for pi, pat := range pats {
			v := string(bytes.Repeat([]byte{'B'}, sz))
			var st []func(w *tWorld)
			add := func(f func(w *tWorld)) {
				st = append(st, f)
				for _, p := range pat {
					st = append(st, op(p), op(p))
				}
			}
			add(put("\x12", v))
			add(put("\x12\x34", "s"))
			add(put("\x12\x44", v+"2"))
			add(op(opCommit))
			add(op(opCommit))
			add(put("\x12\x34", v))
			add(del("\x12\x44"))
			add(put("\x12\x34\x56", "t"))
			add(op(opCommit))
			add(op(opCommit))
			add(put("\x12", v+"3"))
			add(del("\x12\x34"))
			add(del("\x12"))
			add(del("\x12\x34\x56"))
			out = append(out, widePlan{fmt.Sprintf("value size %d pat %d", sz, pi), st})
		}
	}
	// ageing: nodes untouched for many commits are collapsed, then needed again
	for _, n := range []int{95, 99, 100, 101, 102, 103, 120} {
		for v := 0; v < 6; v++ {
			var st []func(w *tWorld)
			ks := []string{"\x11\x11", "\x11\x12", "\x22\x11", "\x22\x22", "\x22", "\x33\x33\x33"}
			for i, k := range ks {
				st = append(st, put(k, fmt.Sprint("age", i)))
			}
			st = append(st, op(opCommit))
			for i := 0; i < n; i++ {
				if v%2 == 0 {
					st = append(st, put("\x77", fmt.Sprint(i)))
				}
				st = append(st, op(opCommit))
			}
			switch v {
			case 0, 1:
				st = append(st, del("\x11\x11"), op(opCommit), del("\x22"), put("\x33\x33\x34", "n"), op(opCommit))
			case 2, 3:
				st = append(st, put("\x22\x23", "n"), op(opReopen), del("\x22\x22"), op(opCommit), put("\x11", "p"))
			default:
				st = append(st, op(opIterate), put("\x33", "q"), del("\x33\x33\x33"), op(opHash), del("\x11\x12"), op(opCommit))
			}
			out = append(out, widePlan{fmt.Sprintf("age n=%d v=%d", n, v), st})
		}
	}
	return out
}

func runWide(c *fw.Ctx, each func(w *tWorld), last func(w *tWorld)) {
	plans := widePlans(c.Thorough)
	c.Parallel(len(plans), func(i int, sl *fw.Slot) {
		p := plans[i]
		step := 0
		sl.Begin(func() string { return fmt.Sprintf("%s, step %d", p.name, step) })
		w := newTWorld(family{name: p.name})
		for s, f := range p.steps {
			step = s
			f(w)
			if each != nil {
				each(w)
			}
			c.Trans.Add(1)
			if w.bad != "" {
				c.Fail(fmt.Sprintf("%s step %d", p.name, s), "plan %s, after step %d\n%s\nexpected contents: %s", p.name, s, w.bad, short(content(w.m)))
			}
		}
		if last != nil {
			last(w)
			if w.bad != "" {
				c.Fail(p.name+" end", "plan %s, at its end\n%s", p.name, w.bad)
			}
		}
		c.States.Add(1)
		c.Traces.Add(1)
		c.Evals.Add(1)
		c.Nontriv.Add(1)
	})
}

// checkKeys checks lookups of every key held and of near misses of them.
func (w *tWorld) checkKeys() {
	for k := range w.m {
		w.get(k)
	}
	i := 0
	for k := range w.m {
		if i > 12 {
			break
		}
		i++
		w.get(k + "\x00")
		if len(k) > 0 {
			w.get(k[:len(k)-1])
			w.get(k[:len(k)-1] + string([]byte{k[len(k)-1] ^ 1}))
			w.get(string([]byte{k[0] ^ 0x10}) + k[1:])
		}
	}
}

func init() {
	allRes := []tOp{resMem, resCommit, resReopen}
	fw.Register(fw.Check{ID: "T01", Level: fw.MC,
		Rule: "every history start+sequence: start = every subset of a 5-key family inserted and left in memory, committed, or reopened; sequence = every word over put/delete/get of each key, commit, collapse, reopen, hash up to the depth; plus fan-out, length, nesting, value-size and ageing plans checked after every step",
		Run: func(c *fw.Ctx) {
			runWide(c, func(w *tWorld) { w.checkKeys() }, nil)
			exploreTrie(c, families, allRes, []int{0, 1, 2, 3}, alphaFull, func(w *tWorld) { w.checkAll() })
			exploreTrie(c, families[:c.Pick(3, 8)], []tOp{resCommit, resBig}, []int{1, 2, 3}, alphaBig, func(w *tWorld) { w.checkAll() })
			// growth from the empty trie, where start subsets above insert in one order only
			exploreFromEmpty(c, c.Pick(5, 6), func(w *tWorld) { w.checkAll() })
			if c.Thorough {
				exploreTrie(c, families, allRes, []int{4}, alphaMut, func(w *tWorld) { w.checkAll() })
			}
		}})
	fw.Register(fw.Check{ID: "T02", Level: fw.MC,
		Rule: "as T01; the root reached is compared with the root of a trie freshly built from the final contents in key order, all contents of a family have distinct roots, and asking for the root twice or before a lookup changes nothing",
		Run: func(c *fw.Ctx) {
			canon := newCanon(c)
			end := func(w *tWorld) {
				r, err := w.t.HashValue()
				if err != nil {
					w.fail("HashValue: %v", err)
					return
				}
				if want := canon.root(w.m); !bytes.Equal(r, want) {
					w.fail("root %x, but the same contents built afresh have %x", r, want)
				}
				r2, _ := w.t.HashValue()
				if !bytes.Equal(r, r2) {
					w.fail("asking for the root again gave %x after %x", r2, r)
				}
				if w.t.IsEmpty() != (len(w.m) == 0) {
					w.fail("IsEmpty=%v with %d entries", w.t.IsEmpty(), len(w.m))
				}
				w.checkKeysFew()
				if r3, err := w.t.CommitAndHash(); err != nil || !bytes.Equal(r, r3) {
					w.fail("root after commit %x (%v), before %x", r3, err, r)
				}
			}
			runWide(c, nil, nil) // sanity of the plans themselves
			runWide(c, func(w *tWorld) {
				r, err := w.t.HashValue()
				if err != nil {
					w.fail("HashValue: %v", err)
				} else if want := canon.root(w.m); !bytes.Equal(r, want) {
					w.fail("root %x, but the same contents built afresh have %x", r, want)
				}
			}, end)
			exploreTrie(c, families, allRes, []int{0, 1, 2, 3}, alphaMut, end)
			exploreTrie(c, families[:c.Pick(3, 8)], []tOp{resCommit, resBig}, []int{1, 2, 3}, alphaBig, end)
			exploreFromEmpty(c, c.Pick(5, 6), end)
			if c.Thorough {
				exploreTrie(c, families, allRes, []int{4}, alphaMut, end)
			}
			canon.distinct(c)
		}})
}

func (w *tWorld) checkKeysFew() {
	for i, k := range w.f.keys {
		if i < 2 {
			w.get(k)
		}
	}
}

// exploreFromEmpty: every insertion order, values and deletions from the empty trie over 4 keys.
func exploreFromEmpty(c *fw.Ctx, depth int, end func(w *tWorld)) {
	var fams []family
	for _, f := range families {
		fams = append(fams, family{f.name, f.keys[:4]})
	}
	type job struct {
		f     family
		a, b  int
		depth int
	}
	alpha := func(f family) []tOp {
		var a []tOp
		for k := range f.keys {
			a = append(a, tOp{opPut, k, '1'}, tOp{opDel, k, 0})
		}
		return append(a, tOp{kind: opReopen}, tOp{kind: opHash})
	}
	na := len(alpha(fams[0]))
	var jobs []job
	for _, f := range fams {
		for a := 0; a < na; a++ {
			for b := 0; b < na; b++ {
				jobs = append(jobs, job{f, a, b, depth})
			}
		}
	}
	c.Parallel(len(jobs), func(i int, sl *fw.Slot) {
		j := jobs[i]
		al := alpha(j.f)
		var cur []tOp
		sl.Begin(func() string { return history(j.f, cur) })
		n := 0
		eachSeq(al, j.depth-2, func(seq []tOp) bool {
			full := append([]tOp{al[j.a], al[j.b]}, seq...)
			cur = full
			// the first operation that matters is an insert, and two root queries in a row add nothing
			if al[j.a].kind != opPut {
				return true
			}
			for x := 1; x < len(full); x++ {
				if full[x].kind == opHash && full[x-1].kind == opHash {
					return true
				}
			}
			w := newTWorld(j.f)
			for _, o := range full {
				w.apply(o)
			}
			end(w)
			c.States.Add(1)
			c.Trans.Add(int64(len(full)))
			c.Traces.Add(1)
			c.Evals.Add(1)
			c.Nontriv.Add(1)
			if w.bad != "" {
				h := history(j.f, full)
				c.Fail(h, "history %s\n%s\nexpected contents: %s", h, w.bad, content(w.m))
			}
			n++
			if n%64 == 0 {
				sl.Begin(nil)
				return !c.Expired()
			}
			return true
		})
	})
}
