package seq

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"verif/harness/fw"
)

// ---- T08: revertable trie

type rOp struct {
	name string
	f    func(w *rWorld)
}

type rChk struct {
	n    int
	root []byte
	m    map[string]string
}

type rWorld struct {
	f     family
	d     *faultDB
	r     *trie.RevertableTrie
	base  map[string]string
	live  map[string]string // nil: same as base
	chk   []rChk
	pre   []byte // root announced by a preliminary commit, while still valid
	bad   string
	setTo bool
	canon *canonRoots
}

func (w *rWorld) fail(format string, a ...any) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(format, a...)
	}
}

func (w *rWorld) cur() map[string]string {
	if w.live != nil {
		return w.live
	}
	return w.base
}

func (w *rWorld) edit() map[string]string {
	if w.live == nil {
		w.live = copyMap(w.base)
	}
	w.pre = nil
	return w.live
}

func (w *rWorld) check() {
	for _, k := range w.f.keys {
		v, ok := w.r.Get([]byte(k))
		want, had := w.base[k]
		if ok != had || (had && v != want) {
			w.fail("base view: Get(%x) = %s,%v want %s,%v", k, short(v), ok, want, had)
		}
		v, ok = w.r.GetLive([]byte(k))
		want, had = w.cur()[k]
		if ok != had || (had && v != want) {
			w.fail("live view: GetLive(%x) = %s,%v want %s,%v", k, short(v), ok, want, had)
		}
	}
}

func (w *rWorld) checkRoots() {
	if h, err := w.r.HashValue(); err != nil || !bytes.Equal(h, w.canon.root(w.base)) {
		w.fail("base root %x (%v), want that of %s", h, err, content(w.base))
	}
	if h, err := w.r.PreHashValue(); err != nil || !bytes.Equal(h, w.canon.root(w.cur())) {
		w.fail("live root %x (%v), want that of %s", h, err, content(w.cur()))
	}
}

func (w *rWorld) checkIters() {
	for i, m := range []map[string]string{w.base, w.cur()} {
		it := w.r.ValueIterator()
		if i == 1 {
			it = w.r.LiveValueIterator()
		}
		got, bad := collect(it, len(m))
		var want []kv
		for _, k := range sortedKeys(m) {
			want = append(want, kv{k, m[k]})
		}
		if bad != "" || kvs(got) != kvs(want) {
			w.fail("iterator of view %d: %s, want %s %s", i, kvs(got), kvs(want), bad)
		}
	}
}

// checkViews asks the proofs, copies, dumps and the live trie itself.
func (w *rWorld) checkViews() {
	root, err := w.r.HashValue()
	if err != nil {
		w.fail("HashValue: %v", err)
		return
	}
	root = bytes.Clone(root)
	sameTrie := func(what string, get func(k []byte) (interface{}, bool), m map[string]string) {
		for _, k := range w.f.keys {
			v, ok := get([]byte(k))
			want, had := m[k]
			if ok != had || had && v != want {
				w.fail("%s: %x = %s,%v want %s,%v", what, k, short(v), ok, want, had)
			}
		}
	}
	proofs := func(what string, r *trie.RevertableTrie) {
		for _, k := range w.f.keys {
			want, had := w.base[k]
			v, p, ok := r.GetProof([]byte(k))
			if ok != had || had && (v != want || !trie.VerifyProofChain(vHash(want), p, root)) {
				w.fail("%s: proof of %x = %s,%v for base %s,%v", what, k, short(v), ok, want, had)
			}
			if len(k) == 0 {
				continue
			}
			ex, p, err := r.GetExistenceProof([]byte(k))
			if err != nil || ex != had {
				w.fail("%s: existence of %x = %v,%v for base %v", what, k, ex, err, had)
				continue
			}
			if len(w.base) > 0 {
				e2, err := p.IsExist([]byte(k))
				h, err2 := p.ExistenceHash()
				if err != nil || err2 != nil || e2 != had || !bytes.Equal(h, root) {
					w.fail("%s: existence proof of %x says %v,%v under %x,%v; base %v under %x", what, k, e2, err, h, err2, had, root)
				}
			}
		}
	}
	proofs("revertable trie", w.r)
	if d := w.r.IsDirty(); !d && content(w.cur()) != content(w.base) {
		w.fail("IsDirty=false with live %s over base %s", content(w.cur()), content(w.base))
	}
	cp := w.r.Copy()
	sameTrie("copy", cp.Get, w.base)
	sameTrie("live view of the copy", cp.GetLive, w.base)
	if h, err := cp.HashValue(); err != nil || !bytes.Equal(h, root) {
		w.fail("copy has root %x (%v), want %x", h, err, root)
	}
	if cp.IsDirty() {
		w.fail("copy is dirty")
	}
	proofs("copy", cp)
	cp.Put([]byte(w.f.keys[0]), "in the copy")
	cp.Commit()
	w.check()
	w.checkRoots()
	rb, err := w.r.Rebase(w.d)
	if err != nil {
		w.fail("Rebase: %v", err)
	} else {
		sameTrie("rebased", rb.Get, w.base)
		sameTrie("live view of rebased", rb.GetLive, w.base)
		rb.Delete([]byte(w.f.keys[0]))
		rb.Commit()
	}
	w.check()
	to := newFaultDB()
	dumped := map[string]string{}
	if err := w.r.Dump(to, func(k, v []byte) { dumped[string(k)] = string(v) }); err != nil {
		w.fail("Dump after Copy and Rebase: %v", err)
	} else if len(w.base) > 0 {
		if e := checkRoot(to, root, w.base, w.f.keys); e != "" {
			w.fail("dump: %s", e)
		}
	}
	lt, err := w.r.LiveTrie()
	if err != nil {
		w.fail("LiveTrie: %v", err)
		return
	}
	sameTrie("live trie", lt.Get, w.cur())
	v := tvString(w.f.keys[1])
	lt.Put([]byte(w.f.keys[1]), "direct")
	w.edit()[w.f.keys[1]] = "direct"
	w.check()
	w.checkRoots()
	if w.r.PutValue(nil) {
		w.fail("PutValue(nil) reported success")
	}
	if !w.r.PutValue(v) {
		w.fail("PutValue reported failure")
	}
	if g, ok := w.r.GetLive(v.Key()); !ok || g != v {
		w.fail("GetLive after PutValue = %v,%v", g, ok)
	}
	w.r.Rollback()
	w.live, w.chk, w.pre = nil, nil, nil
	w.check()
	w.checkRoots()
}

// tvString is a value that names its own key.
type tvString string

func (t tvString) Key() []byte { return []byte(t) }

func revOps(f family) []rOp {
	var ops []rOp
	for i := range f.keys {
		k := f.keys[i]
		ops = append(ops, rOp{fmt.Sprintf("Put(%x)", k), func(w *rWorld) {
			v := fmt.Sprint(len(w.cur()), len(w.chk))
			b := []byte(k)
			if !w.r.Put(b, v) {
				w.fail("Put(%x) reported failure", k)
			}
			spoil(b) // the key is the caller's
			w.edit()[k] = v
		}})
		ops = append(ops, rOp{fmt.Sprintf("Del(%x)", k), func(w *rWorld) {
			b := []byte(k)
			ch, old := w.r.Delete(b)
			spoil(b)
			want, had := w.cur()[k]
			if ch != had || (had && old != want) {
				w.fail("Delete(%x) = %v,%s; live holds %v,%s", k, ch, short(old), had, want)
			}
			delete(w.edit(), k)
		}})
	}
	revert := func(name string, pick func(w *rWorld) int) rOp {
		return rOp{"RevertTo(" + name + ")", func(w *rWorld) {
			i := pick(w)
			if i < 0 || i >= len(w.chk) {
				root := bytes.Repeat([]byte{1}, 32)
				if i >= 0 {
					i += 100 // beyond any check point recorded before a SetTo as well
				}
				if err := w.r.RevertTo(i, root); err == nil {
					w.fail("RevertTo(%d) with %d check points succeeded", i, len(w.chk))
				}
				return
			}
			if err := w.r.RevertTo(w.chk[i].n, bytes.Clone(w.chk[i].root)); err != nil {
				w.fail("RevertTo(%d): %v", i, err)
			}
			w.live = copyMap(w.chk[i].m)
			w.chk = w.chk[:i]
			w.pre = nil
		}}
	}
	ops = append(ops,
		rOp{"CheckPoint", func(w *rWorld) {
			n, root, err := w.r.CheckPoint()
			// whether SetTo forgets the earlier check points is not part of the property
			want := len(w.chk)
			if w.setTo {
				if want = n; len(w.chk) > 0 {
					want = w.chk[len(w.chk)-1].n + 1
				}
			}
			if err != nil || n < 0 || n != want {
				w.fail("CheckPoint = %d, %v with %d recorded", n, err, len(w.chk))
			}
			w.chk = append(w.chk, rChk{n, bytes.Clone(root), copyMap(w.cur())})
		}},
		revert("0", func(w *rWorld) int { return 0 }),
		revert("last", func(w *rWorld) int { return len(w.chk) - 1 }),
		revert("1", func(w *rWorld) int { return 1 }),
		rOp{"RevertTo(last, wrong root)", func(w *rWorld) {
			i := len(w.chk) - 1
			if i < 0 {
				return
			}
			r := bytes.Clone(w.chk[i].root)
			r[0] ^= 1
			if err := w.r.RevertTo(w.chk[i].n, r); err == nil {
				w.fail("RevertTo(%d) with a wrong root succeeded", i)
			}
		}},
		rOp{"Rollback", func(w *rWorld) { w.r.Rollback(); w.live = nil; w.chk = nil; w.pre = nil; w.setTo = false }},
		rOp{"PreCommit", func(w *rWorld) {
			r, err := w.r.PreCommit()
			if err != nil {
				w.fail("PreCommit: %v", err)
			}
			w.pre = bytes.Clone(r)
		}},
		rOp{"Commit", func(w *rWorld) {
			if err := w.r.Commit(); err != nil {
				w.fail("Commit: %v", err)
			}
			w.commitDone()
		}},
		rOp{"CommitAndHash", func(w *rWorld) {
			h, err := w.r.CommitAndHash()
			if err != nil || !bytes.Equal(h, w.canon.root(w.cur())) {
				w.fail("CommitAndHash = %x, %v", h, err)
			}
			w.commitDone()
		}},
		rOp{"Hashes", func(w *rWorld) { w.checkRoots() }},
		rOp{"SetTo", func(w *rWorld) {
			t := openTrie(w.d, nil)
			t.Put([]byte(w.f.keys[0]), "set")
			if err := w.r.SetTo(t); err != nil {
				w.fail("SetTo: %v", err)
			}
			w.base = map[string]string{w.f.keys[0]: "set"}
			w.live, w.chk, w.pre = nil, nil, nil
			w.setTo = true
		}},
	)
	return ops
}

func (w *rWorld) commitDone() {
	w.base, w.live, w.chk, w.setTo = w.cur(), nil, nil, false
	h, err := w.r.HashValue()
	if err != nil {
		w.fail("HashValue: %v", err)
	}
	if w.pre != nil && !bytes.Equal(h, w.pre) {
		w.fail("commit led to root %x, the preliminary commit had announced %x", h, w.pre)
	}
	w.pre = nil
	if e := checkRoot(w.d, h, w.base, w.f.keys); e != "" {
		w.fail("after commit, from the store: %s", e)
	}
}

func init() {
	fw.Register(fw.Check{ID: "T08", Level: fw.MC,
		Rule: "every history over put/delete of each key, check point, revert (first, second, last, wrong root, nonexistent), rollback, preliminary commit, commit, set-to and root queries up to the depth, from every subset of a key family committed or not; base and live lookups compared with the model after every step, roots and iterators at the end; and every single failing store write in histories of puts, check points, commits and rollbacks",
		Run: func(c *fw.Ctx) {
			canon := newCanon(c)
			type job struct {
				f     family
				mask  int
				dirty bool
				first int
				depth int
				views bool
			}
			var jobs []job
			for i, f := range []family{families[0], families[1], families[4]} {
				sf := family{f.name, f.keys[:2]}
				n := len(revOps(sf))
				for mask := 0; mask < 4; mask++ {
					for _, dirty := range []bool{false, true} {
						for o := 0; o < n; o++ {
							jobs = append(jobs, job{sf, mask, dirty, o, c.Pick(4, 5), false})
							jobs = append(jobs, job{sf, mask, dirty, o, c.Pick(3, 4), true})
							if i == 0 && mask == 3 && !dirty {
								jobs = append(jobs, job{sf, mask, dirty, o, c.Pick(5, 6), false})
							}
						}
					}
				}
			}
			c.Parallel(len(jobs), func(i int, sl *fw.Slot) {
				j := jobs[i]
				ops := revOps(j.f)
				seq := make([]int, j.depth)
				seq[0] = j.first
				desc := func() string {
					ss := []string{fmt.Sprintf("%s start %b dirty=%v:", j.f.name, j.mask, j.dirty)}
					for _, o := range seq {
						ss = append(ss, ops[o].name)
					}
					return strings.Join(ss, " ")
				}
				sl.Begin(desc)
				n := 0
				var rec func(p int) bool
				rec = func(p int) bool {
					if p < j.depth {
						for o := range ops {
							seq[p] = o
							if !rec(p + 1) {
								return false
							}
						}
						return true
					}
					w := newRWorld(j.f, j.mask, j.dirty, canon)
					for _, o := range seq {
						ops[o].f(w)
						c.Trans.Add(1)
					}
					w.check()
					w.checkRoots()
					w.checkIters()
					w.check()
					if j.views {
						w.checkViews()
					}
					c.States.Add(1)
					c.Traces.Add(1)
					c.Evals.Add(1)
					if w.bad != "" {
						d := desc()
						c.Fail(d, "history %s\n%s\nbase %s live %s", d, w.bad, content(w.base), content(w.cur()))
					}
					n++
					if n%64 == 0 {
						sl.Begin(nil)
						return !c.Expired()
					}
					return true
				}
				rec(1)
			})
			revFaults(c, canon)
			c.Sample("prefixes start 3: Put(12) CheckPoint Del() RevertTo(0) Commit; both views and roots compared")
		}})
	fw.Register(fw.Check{ID: "T09", Level: fw.MC,
		Rule: "every history over store/remove a sub-trie under each of three keys (one empty), change inside a sub-trie, root query, commit and reopen up to the depth; lookup, key list, iteration, root and proofs compared with the model at the end; plus 1..20 sub-tries with every proof; every truncation of a root record; every single failing store write followed by a retry",
		Run:  runT09})
}

func newRWorld(f family, mask int, dirty bool, canon *canonRoots) *rWorld {
	d := newFaultDB()
	t := openTrie(d, nil)
	base := map[string]string{}
	for k := range f.keys {
		if mask&(1<<k) != 0 {
			t.Put([]byte(f.keys[k]), "0")
			base[f.keys[k]] = "0"
		}
	}
	if !dirty {
		t.Commit()
	}
	return &rWorld{f: f, d: d, r: &trie.RevertableTrie{Origin: t}, base: base, canon: canon}
}

// revFaults: one store write fails; the operation during which it failed may report failure, but the
// base view must keep its contents and what a later successful commit publishes must be complete.
func revFaults(c *fw.Ctx, canon *canonRoots) {
	f := family{"prefixes", families[0].keys[:3]}
	kinds := []string{"put", "del", "check", "precommit", "commit", "rollback"}
	depth := c.Pick(3, 4)
	var run func(seq []int, failAt int) (attempts int, bad string)
	run = func(seq []int, failAt int) (int, string) {
		w := newRWorld(f, 3, true, canon)
		w.d.failWrite = func(n int) bool { return n == failAt }
		for i, o := range seq {
			before := w.d.failed
			switch kinds[o] {
			case "put":
				k := f.keys[i%3]
				if w.r.Put([]byte(k), fmt.Sprint("n", i)) {
					w.edit()[k] = fmt.Sprint("n", i)
				} else if w.d.failed == before {
					w.fail("Put failed without a store failure")
				}
			case "del":
				k := f.keys[(i+1)%3]
				_, had := w.cur()[k]
				ch, _ := w.r.Delete([]byte(k))
				if ch {
					delete(w.edit(), k)
				} else if had && w.d.failed == before {
					w.fail("Delete failed without a store failure")
				}
			case "check":
				_, _, err := w.r.CheckPoint()
				if (err != nil) != (w.d.failed > before) {
					w.fail("CheckPoint: %v, store failures during it: %d", err, w.d.failed-before)
				}
			case "precommit":
				_, err := w.r.PreCommit()
				if (err != nil) != (w.d.failed > before) {
					w.fail("PreCommit: %v, store failures during it: %d", err, w.d.failed-before)
				}
			case "commit":
				err := w.r.Commit()
				if (err != nil) != (w.d.failed > before) {
					w.fail("Commit: %v, store failures during it: %d", err, w.d.failed-before)
				}
				w.base, w.live = w.cur(), nil
			case "rollback":
				w.r.Rollback()
				w.live = nil
			}
			w.check()
		}
		attempts := w.d.wcount
		w.d.failWrite = nil
		if err := w.r.Commit(); err != nil {
			w.fail("final Commit: %v", err)
		}
		w.commitDone()
		w.check()
		return attempts, w.bad
	}
	var seqs [][]int
	var gen func(p []int)
	gen = func(p []int) {
		if len(p) == depth {
			seqs = append(seqs, append([]int(nil), p...))
			return
		}
		for o := range kinds {
			gen(append(p, o))
		}
	}
	gen(nil)
	c.Parallel(len(seqs), func(i int, sl *fw.Slot) {
		n, bad := run(seqs[i], -1)
		for a := -1; a < n; a++ {
			if a >= 0 {
				_, bad = run(seqs[i], a)
			}
			c.Evals.Add(1)
			c.States.Add(1)
			c.Trans.Add(int64(depth))
			if bad != "" {
				s := ""
				for _, o := range seqs[i] {
					s += kinds[o] + " "
				}
				c.Fail(fmt.Sprintf("%s write %d", s, a), "two keys in an uncommitted base; history %s; store write %d fails\n%s", s, a, bad)
			}
		}
	})
}

// ---- T09

type cWorld struct {
	d    *faultDB
	t    *trie.SmallCombinedTrie
	m    map[string]map[string]string
	subs map[string]*trie.Trie
	bad  string
}

func (w *cWorld) fail(format string, a ...any) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(format, a...)
	}
}

func combAdapter(d *faultDB) db.DataAdapter { return db.NewKeyPrefixedDataAdapter(d, []byte("c")) }

func newCWorld() *cWorld {
	d := newFaultDB()
	return &cWorld{d: d, t: trie.NewCombinedTrie(combAdapter(d)), m: map[string]map[string]string{}, subs: map[string]*trie.Trie{}}
}

func (w *cWorld) keys() []string {
	var ks []string
	for k := range w.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (w *cWorld) content() string {
	s := ""
	for _, k := range w.keys() {
		s += fmt.Sprintf("%x{%s} ", k, content(w.m[k]))
	}
	return s
}

func (w *cWorld) putSub(k string, m map[string]string) {
	t := openTrie(w.d, nil)
	for ik, iv := range m {
		t.Put([]byte(ik), iv)
	}
	b := []byte(k)
	if !w.t.Put(b, t) {
		w.fail("Put(%x) reported failure", k)
	}
	spoil(b) // the key is the caller's
	w.m[k] = copyMap(m)
	w.subs[k] = t
}

func (w *cWorld) delSub(k string) {
	b := []byte(k)
	ch, old := w.t.Delete(b)
	spoil(b)
	_, had := w.m[k]
	if ch != had {
		w.fail("Delete(%x) = %v, held: %v", k, ch, had)
	}
	if had && w.subs[k] != nil && old != any(w.subs[k]) {
		w.fail("Delete(%x) handed back another sub-trie", k)
	}
	delete(w.m, k)
	delete(w.subs, k)
}

func (w *cWorld) sub(k string) *trie.Trie {
	v, ok := w.t.Get([]byte(k))
	if _, had := w.m[k]; ok != had {
		w.fail("Get(%x) ok=%v, held: %v", k, ok, had)
		return nil
	}
	if !ok {
		return nil
	}
	t, isT := v.(*trie.Trie)
	if !isT || t == nil {
		w.fail("Get(%x) = %v", k, v)
		return nil
	}
	if s := w.subs[k]; s != nil && s != t {
		w.fail("Get(%x) is not the sub-trie stored", k)
	}
	return t
}

func (w *cWorld) reopen() {
	h, err := w.t.HashValue()
	if err != nil {
		w.fail("HashValue: %v", err)
		return
	}
	n := trie.NewCombinedTrie(combAdapter(w.d))
	na := db.NewKeyPrefixedDataAdapter(w.d, []byte("n"))
	va := db.NewKeyPrefixedDataAdapter(w.d, []byte("v"))
	if err := n.InitTrie(bytes.Clone(h), na, va, vEncode, vDecode, nil); err != nil {
		w.fail("InitTrie(%x) after commit: %v", h, err)
		return
	}
	w.t = n
	w.subs = map[string]*trie.Trie{}
	if h2, err := n.HashValue(); err != nil || !bytes.Equal(h, h2) {
		w.fail("reopened root is %x (%v), was %x", h2, err, h)
	}
}

func (w *cWorld) check(ask []string) []byte {
	ks := w.keys()
	if got := w.t.Keys(); strings.Join(got, "|") != strings.Join(ks, "|") || len(got) != len(ks) {
		w.fail("Keys() = %q, want %q", got, ks)
	}
	dirty := false
	for _, k := range ks {
		if t := w.sub(k); t != nil && t.IsDirty() {
			dirty = true
		}
	}
	if got := w.t.IsDirty(); got != dirty {
		w.fail("IsDirty is %v, some sub-trie has unsaved changes: %v", got, dirty)
	}
	h, err := w.t.HashValue()
	if err != nil {
		w.fail("HashValue: %v", err)
		return nil
	}
	root := bytes.Clone(h)
	for _, k := range ask {
		t := w.sub(k)
		_, had := w.m[k]
		v, p, ok := w.t.GetProof([]byte(k))
		if ok != had {
			w.fail("GetProof(%x) ok=%v, held: %v", k, ok, had)
		}
		if t == nil || !had {
			continue
		}
		for ik, iv := range w.m[k] {
			if g, ok := t.Get([]byte(ik)); !ok || g != iv {
				w.fail("sub-trie %x: Get(%x) = %s,%v want %s", k, ik, short(g), ok, iv)
			}
		}
		got, bad := collect(t.ValueIterator(), len(w.m[k]))
		if bad != "" || len(got) != len(w.m[k]) {
			w.fail("sub-trie %x holds %s %s, want %s", k, kvs(got), bad, content(w.m[k]))
		}
		sh, err := t.HashValue()
		if err != nil {
			w.fail("sub-trie root: %v", err)
			continue
		}
		if v != any(t) {
			w.fail("GetProof(%x) gives another value", k)
		}
		r, err := p.Proof(bytesToHash(sh))
		if err != nil || !bytes.Equal(r, root) {
			w.fail("proof of %x folds from %x to %x (%v), root %x", k, sh, r, err, root)
		}
		for _, o := range ask {
			if o == k || w.m[o] == nil {
				continue
			}
			oh, _ := w.sub(o).HashValue()
			if !bytes.Equal(oh, sh) {
				if r, err := p.Proof(bytesToHash(oh)); err == nil && bytes.Equal(r, root) {
					w.fail("proof of %x also verifies the sub-trie of %x", k, o)
				}
			}
		}
	}
	it := w.t.ValueIterator()
	i := 0
	for it.Next() {
		k, v := it.Current()
		if i >= len(ks) || string(k) != ks[i] || v != any(w.sub(ks[i])) {
			w.fail("iterator visits %x at position %d, keys %q", k, i, ks)
			break
		}
		i++
	}
	if i != len(ks) {
		w.fail("iterator visited %d of %d keys", i, len(ks))
	}
	if h2, err := w.t.HashValue(); err != nil || !bytes.Equal(root, h2) {
		w.fail("queries changed the root from %x to %x", root, h2)
	}
	return root
}

// damagedRecords: the record of a combined root, missing or cut anywhere, is refused, and what was
// opened before keeps its contents.
func damagedRecords(c *fw.Ctx) {
	for n := 1; n <= 5; n++ {
		for empty := -1; empty < n; empty++ {
			w := newCWorld()
			var ask []string
			for i := 0; i < n; i++ {
				k := strings.Repeat("k", i%3) + fmt.Sprint(i)
				ask = append(ask, k)
				m := map[string]string{"\x10": "v" + k}
				if i == empty {
					m = nil
				}
				w.putSub(k, m)
			}
			if err := w.t.Commit(); err != nil {
				w.fail("Commit: %v", err)
			}
			w.check(ask)
			root, err := w.t.HashValue()
			if err != nil {
				w.fail("HashValue: %v", err)
			}
			root = bytes.Clone(root)
			key := "c" + string(root)
			rec, ok := w.d.m[key]
			d := fmt.Sprintf("%d sub-tries, empty one %d", n, empty)
			if w.bad != "" || !ok {
				c.Fail(d, "%s: record stored: %v %s", d, ok, w.bad)
				continue
			}
			na := db.NewKeyPrefixedDataAdapter(w.d, []byte("n"))
			va := db.NewKeyPrefixedDataAdapter(w.d, []byte("v"))
			for cut := -1; cut < len(rec); cut++ {
				if cut < 0 {
					delete(w.d.m, key)
				} else {
					w.d.m[key] = rec[:cut]
				}
				c.Evals.Add(1)
				t := trie.NewCombinedTrie(combAdapter(w.d))
				if err := t.InitTrie(bytes.Clone(root), na, va, vEncode, vDecode, nil); err == nil {
					c.Fail(d, "%s: root record of %d bytes cut to %d (-1: missing) is opened with keys %q", d, len(rec), cut, t.Keys())
				}
			}
			w.d.m[key] = rec
			w.reopen()
			w.check(ask)
			if w.bad != "" {
				c.Fail(d, "%s: %s", d, w.bad)
			}
		}
	}
}

func runT09(c *fw.Ctx) {
	outer := []string{"", "a", "ab"}
	inner := []string{"\x10", "\x11"}
	type cop struct {
		name string
		f    func(w *cWorld)
	}
	var ops []cop
	for _, k := range outer {
		k := k
		ops = append(ops,
			cop{fmt.Sprintf("Put(%q,t1)", k), func(w *cWorld) { w.putSub(k, map[string]string{inner[0]: "1" + k}) }},
			cop{fmt.Sprintf("Put(%q,empty)", k), func(w *cWorld) { w.putSub(k, nil) }},
			cop{fmt.Sprintf("Del(%q)", k), func(w *cWorld) { w.delSub(k) }},
			cop{fmt.Sprintf("%q.Put", k), func(w *cWorld) {
				if t := w.sub(k); t != nil {
					t.Put([]byte(inner[1]), "i")
					w.m[k][inner[1]] = "i"
				}
			}},
			cop{fmt.Sprintf("%q.Del", k), func(w *cWorld) {
				if t := w.sub(k); t != nil {
					t.Delete([]byte(inner[0]))
					delete(w.m[k], inner[0])
				}
			}})
	}
	ops = append(ops,
		cop{"Hash", func(w *cWorld) { w.t.HashValue() }},
		cop{"Commit", func(w *cWorld) {
			if err := w.t.Commit(); err != nil {
				w.fail("Commit: %v", err)
			}
			if w.t.IsDirty() {
				w.fail("dirty after a commit")
			}
		}},
		cop{"Commit+Reopen", func(w *cWorld) {
			if err := w.t.Commit(); err != nil {
				w.fail("Commit: %v", err)
			}
			w.reopen()
		}})
	var mu = newRootTable()
	depth := c.Pick(4, 5)
	type job struct{ a, b int }
	var jobs []job
	for a := range ops {
		for b := range ops {
			jobs = append(jobs, job{a, b})
		}
	}
	c.Parallel(len(jobs), func(i int, sl *fw.Slot) {
		seq := make([]int, depth)
		seq[0], seq[1] = jobs[i].a, jobs[i].b
		desc := func() string {
			var ss []string
			for _, o := range seq {
				ss = append(ss, ops[o].name)
			}
			return strings.Join(ss, " ")
		}
		sl.Begin(desc)
		n := 0
		var rec func(p int) bool
		rec = func(p int) bool {
			if p < depth {
				for o := range ops {
					seq[p] = o
					if !rec(p + 1) {
						return false
					}
				}
				return true
			}
			w := newCWorld()
			for _, o := range seq {
				ops[o].f(w)
			}
			root := w.check(outer)
			if root != nil && w.bad == "" {
				if e := mu.add(strings.Join(w.keys(), "|")+fmt.Sprint(len(w.m)), w.content(), root); e != "" {
					w.fail("%s", e)
				}
			}
			if w.bad == "" {
				if err := w.t.Commit(); err != nil {
					w.fail("Commit: %v", err)
				}
				w.reopen()
				w.check(outer)
			}
			c.States.Add(1)
			c.Traces.Add(1)
			c.Evals.Add(1)
			c.Trans.Add(int64(depth))
			if w.bad != "" {
				d := desc()
				c.Fail(d, "history %s\n%s\nexpected %s", d, w.bad, w.content())
			}
			n++
			if n%64 == 0 {
				sl.Begin(nil)
				return !c.Expired()
			}
			return true
		}
		rec(2)
	})
	c.Sample("Put(\"a\",t1) \"a\".Put Commit+Reopen Del(\"\"); lookups, key list, proofs, reopen")
	damagedRecords(c)
	// many sub-tries
	for n := 1; n <= c.Pick(20, 40); n++ {
		w := newCWorld()
		var ask []string
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("k%d", (i*7)%n)
			if w.m[k] == nil {
				w.putSub(k, map[string]string{"\x01": k})
			}
			ask = append(ask, k)
		}
		r0 := w.check(ask)
		for _, k := range w.keys() {
			if w.m[k] == nil {
				continue
			}
			t := w.sub(k)
			t.Put([]byte("x"), "y")
			w.m[k]["x"] = "y"
			r1 := w.check(ask)
			if bytes.Equal(r0, r1) {
				w.fail("changing the sub-trie %s of %d did not change the root", k, n)
			}
			t.Delete([]byte("x"))
			delete(w.m[k], "x")
			if r2, _ := w.t.HashValue(); !bytes.Equal(r0, r2) {
				w.fail("restoring the sub-trie %s of %d did not restore the root", k, n)
			}
		}
		if err := w.t.Commit(); err != nil {
			w.fail("Commit: %v", err)
		}
		w.reopen()
		w.check(ask)
		for _, k := range ask {
			if w.m[k] != nil {
				w.delSub(k)
				w.check(ask)
			}
		}
		c.States.Add(1)
		c.Traces.Add(1)
		if w.bad != "" {
			c.Fail(fmt.Sprintf("%d sub-tries", n), "%d sub-tries: %s", n, w.bad)
		}
	}
	// failing writes: the commit says so, and a retry is complete
	for n := 1; n <= 4; n++ {
		build := func() *cWorld {
			w := newCWorld()
			for i := 0; i < n; i++ {
				w.putSub(fmt.Sprint("s", i), map[string]string{"\x01": fmt.Sprint(i), "\x02": "b"})
			}
			return w
		}
		w := build()
		w.t.Commit()
		total := w.d.wcount
		for a := 0; a < total; a++ {
			w := build()
			w.d.failWrite = func(i int) bool { return i == a }
			err := w.t.Commit()
			if err == nil {
				w.fail("a store write failed during the commit, but it reported success")
			}
			w.d.failWrite = nil
			if err := w.t.Commit(); err != nil {
				w.fail("Commit retried: %v", err)
			}
			w.reopen()
			w.check(w.keys())
			c.Evals.Add(1)
			c.States.Add(1)
			if w.bad != "" {
				c.Fail(fmt.Sprintf("write %d of %d sub-tries", a, n), "%d sub-tries, store write %d fails: %s", n, a, w.bad)
			}
		}
	}
}
