package main

import (
	"bytes"
	"fmt"

	"github.com/ThinkiumGroup/go-common/trie"
	"verif/sched"
	"verif/sched/hist"
)

// --- the history tree

type histWorld struct {
	d *kvDB
	h *trie.HistoryTree
	n uint64
}

func hval(i uint64, b byte) []byte { return append(bytes.Repeat([]byte{b}, 31), byte(i)) }

// short shows a value; the slice is overwritten afterwards, as its owner may.
func short(b []byte) string {
	s := "nil"
	if len(b) > 0 {
		s = fmt.Sprintf("%x%x", b[0], b[len(b)-1])
	}
	for i := range b {
		b[i] = '%'
	}
	return s
}

type histSaved struct {
	kv   *hist.KV
	root []byte
}

var histSaves = map[uint64]histSaved{}

func newHist(n uint64, reopen bool) *histWorld {
	if sv, ok := histSaves[n]; ok && reopen {
		w := &histWorld{d: &kvDB{sv.kv.Clone()}, n: n}
		h, err := trie.NewHistoryTree(w.d, []byte("h"), sv.root, true)
		if err != nil {
			panic(err)
		}
		w.h = h
		return w
	}
	w := &histWorld{d: newKV(), n: n}
	h, err := trie.NewHistoryTree(w.d, []byte("h"), nil, true)
	if err != nil {
		panic(err)
	}
	for i := uint64(0); i < n; i++ {
		if h.Append(i, hval(i, 7)) != nil {
			panic("append")
		}
	}
	w.h = h
	if reopen {
		root, err := h.CommitAndHash()
		if err != nil {
			panic(err)
		}
		histSaves[n] = histSaved{w.d.kv.Clone(), append([]byte{}, root...)}
		if w.h, err = trie.NewHistoryTree(w.d, []byte("h"), root, true); err != nil {
			panic(err)
		}
	}
	return w
}

// full is the number of entries as a reader sees it, the root and what is
// stored under it
func histDigest(a any) string {
	w := a.(*histWorld)
	return histTree(w.d, w.h, w.n)
}

func histTree(d *kvDB, h *trie.HistoryTree, n uint64) string {
	if h == nil {
		return "none"
	}
	s := fmt.Sprint(h.Expecting(), " ")
	for i := uint64(0); i < n+4; i++ {
		if n > 4 && i < n-2 && i > 0 && i != 15 {
			continue
		}
		v, ok := h.Get(i)
		s += short(v) + str(ok) + " "
	}
	s += hex4(h.HashValue()) + errs(h.Commit())
	root, err := h.HashValue()
	s += hex4(root, err)
	r, err := trie.NewHistoryTree(d, []byte("h"), root, false)
	if err != nil {
		return s + " not loadable"
	}
	s += fmt.Sprint(" ", r.Expecting())
	for i := uint64(0); i < n+4; i++ {
		if n > 4 && i < n-2 && i > 0 && i != 15 {
			continue
		}
		v, ok := r.Get(i)
		s += short(v) + str(ok) + " "
	}
	return s
}

// --- the revertable trie

type revWorld struct {
	d    *kvDB
	r    *trie.RevertableTrie
	root []byte
	hist *trie.RevertableHistoryTree
	n    uint64
}

func revDigest(a any) string {
	w := a.(*revWorld)
	s := fmt.Sprint(w.r.IsDirty(), " ")
	for _, k := range trieKeys {
		v, ok := w.r.Get([]byte(k))
		s += str(v, ok)
		v, ok = w.r.GetLive([]byte(k))
		s += str(v, ok) + " "
	}
	s += hex4(w.r.HashValue()) + hex4(w.r.PreHashValue())
	n, root, err := w.r.CheckPoint()
	s += fmt.Sprint(" ", n, hex4(root, err))
	h, err := w.r.CommitAndHash()
	s += hex4(h, err)
	t := openTrie(w.d, h)
	return s + iterate(t.ValueIterator())
}

func revHistDigest(a any) string {
	w := a.(*revWorld)
	s := fmt.Sprint(w.hist.Expecting(), " ", hex4(w.hist.HashValue()), hex4(w.hist.PreHashValue()))
	h, err := w.hist.CommitAndHash()
	s += hex4(h, err)
	t, err := trie.NewHistoryTree(w.d, []byte("h"), h, false)
	if err != nil {
		return s + " not loadable"
	}
	return s + histTree(w.d, t, w.n)
}

func init() {
	suite(&Suite{ID: "C02",
		Rule: "every interleaving, at lock operations, of two and three concurrent call sequences on the history tree, the revertable trie and the revertable history tree, from several starting states, compared with the one-at-a-time orders, with the race detector on",
		Scenarios: func(thorough bool) []*Scenario {
			var out []*Scenario
			kinds := sched.KLock | sched.KMap
			shapes := func(base Scenario, core, all []Op) {
				base.Bound = 3
				if thorough {
					base.Bound = 5
				}
				base.Kinds = kinds
				out = append(out, product(base, all, 1, 1)...)
				base.Bound = 2
				out = append(out, product(base, core, 2, 1)...)
				base.Bound = 2
				out = append(out, product(base, core, 1, 1, 1)...)
				if thorough {
					out = append(out, product(base, all, 1, 1, 1)...)
					out = append(out, product(base, core, 2, 2)...)
					base.Bound = 3
					out = append(out, product(base, all, 2, 1)...)
					base.Bound = -1
					out = append(out, product(base, core, 1, 1)...)
				}
			}
			{
				type W = *histWorld
				app := func(d uint64, b byte) Op {
					return op(fmt.Sprintf("Append +%d %c", d, '0'+b), func(w W) string {
						v := hval(w.n+d, b)
						s := "a" + errs(w.h.Append(w.n+d, v))
						for i := range v {
							v[i] = '#'
						}
						return s
					})
				}
				core := []Op{
					app(0, 1), app(0, 2), app(1, 3),
					op("Get last", func(w W) string { v, ok := w.h.Get(w.n - 1); return short(v) + str(ok) }),
					op("HashValue", func(w W) string { return hex4(w.h.HashValue()) }),
					op("Commit", func(w W) string { return "c" + errs(w.h.Commit()) }),
					op("CollapseBefore", func(w W) string { return "c" + errs(w.h.CollapseBefore(w.n&^15)) }),
				}
				all := append(append([]Op{}, core...),
					op("Get next", func(w W) string { v, ok := w.h.Get(w.n); return short(v) + str(ok) }),
					op("Has next", func(w W) string { return str(w.h.Has(w.n)) }),
					op("Expecting", func(w W) string { return str(w.h.Expecting()) }),
					op("CommitAndHash", func(w W) string { return hex4(w.h.CommitAndHash()) }),
					op("GetProof first", func(w W) string {
						v, p, ok := w.h.GetProof(0)
						return fmt.Sprint(short(v), ok, p)
					}),
					op("GetProof next", func(w W) string {
						v, p, ok := w.h.GetProof(w.n)
						return fmt.Sprint(short(v), ok, p)
					}),
					op("Clone", func(w W) string {
						c := w.h.Clone()
						s := str(c.Expecting()) + hex4(c.HashValue())
						c.Append(c.Expecting(), hval(9, 9))
						return s
					}),
					op("Rebase", func(w W) string {
						c, err := w.h.Rebase(w.d)
						if err != nil {
							return "error"
						}
						return str(c.Expecting()) + hex4(c.HashValue())
					}),
					op("String", func(w W) string { return hex4([]byte(w.h.String()), nil) + str(len(w.h.String()) > 0) }),
					op("Chop", func(w W) string {
						c, err := w.h.Chop(w.n - 1)
						if err != nil {
							return "error"
						}
						return str(c.Expecting()) + hex4(c.HashValue())
					}),
				)
				for _, n := range []uint64{0, 2, 16, 17} {
					for _, re := range []bool{false, true} {
						n, re := n, re
						if n == 0 && re || !thorough && (n == 2 || n == 17 && re || n == 16 && !re) {
							continue
						}
						shapes(Scenario{Name: fmt.Sprintf("history tree of %d, reopened %v", n, re), New: func() any { return newHist(n, re) }, Digest: histDigest}, core, all)
					}
				}
			}
			{
				// a tree of 17 known by the proof of its last entry
				type W = *histWorld
				full := newHist(17, false)
				full.h.HashValue()
				proof := map[uint64]trie.ProofChain{}
				for _, i := range []uint64{0, 1, 15, 16} {
					_, p, ok := full.h.GetProof(i)
					if !ok {
						panic("no proof")
					}
					proof[i] = p
				}
				merge := func(i uint64) Op {
					return op(fmt.Sprint("MergeProof ", i), func(w W) string { return "m" + errs(w.h.MergeProof(i, hval(i, 7), proof[i].Clone())) })
				}
				get := func(i uint64) Op {
					return op(fmt.Sprint("Get ", i), func(w W) string { v, ok := w.h.Get(i); return short(v) + str(ok) })
				}
				core := []Op{merge(0), merge(1), merge(15), get(0), get(15),
					op("Append 17", func(w W) string { return "a" + errs(w.h.Append(17, hval(17, 1))) }),
					op("HashValue", func(w W) string { return hex4(w.h.HashValue()) }),
				}
				all := append(append([]Op{}, core...), merge(16), get(16),
					op("Expecting", func(w W) string { return str(w.h.Expecting()) }),
					op("Has 0", func(w W) string { return str(w.h.Has(0)) }),
					op("GetProof 15", func(w W) string { v, p, ok := w.h.GetProof(15); return fmt.Sprint(short(v), ok, p) }),
					op("Clone", func(w W) string { c := w.h.Clone(); return str(c.Expecting()) + hex4(c.HashValue()) }),
					op("String", func(w W) string { return str(len(w.h.String()) > 0) }),
				)
				shapes(Scenario{Name: "history tree known by proofs", New: func() any {
					w := &histWorld{d: newKV(), n: 17}
					var err error
					if w.h, err = trie.RestoreTreeFromProofs(w.d, []byte("h"), 16, hval(16, 7), proof[16].Clone()); err != nil {
						panic(err)
					}
					return w
				}, Digest: func(a any) string {
					w := a.(W)
					s := fmt.Sprint(w.h.Expecting(), " ")
					for _, i := range []uint64{0, 1, 15, 16, 17} {
						v, ok := w.h.Get(i)
						s += short(v) + str(ok) + " "
					}
					return s + hex4(w.h.HashValue())
				}}, core, all)
			}
			{
				// the same tree behind a revertable one
				type W = *revWorld
				full := newHist(17, false)
				full.h.HashValue()
				proof := map[uint64]trie.ProofChain{}
				for _, i := range []uint64{0, 15, 16} {
					_, p, ok := full.h.GetProof(i)
					if !ok {
						panic("no proof")
					}
					proof[i] = p
				}
				merge := func(i uint64) Op {
					return op(fmt.Sprint("MergeProof ", i), func(w W) string { return "m" + errs(w.hist.MergeProof(i, hval(i, 7), proof[i].Clone())) })
				}
				get := func(i uint64) Op {
					return op(fmt.Sprint("Get ", i), func(w W) string { v, ok := w.hist.Get(i); return short(v) + str(ok) })
				}
				core := []Op{merge(0), merge(15), get(0),
					op("Append 17", func(w W) string { return "a" + errs(w.hist.Append(17, hval(17, 1))) }),
					op("Rollback", func(w W) string { w.hist.Rollback(); return "" }),
				}
				all := append(append([]Op{}, core...), get(16),
					op("HashValue", func(w W) string { return hex4(w.hist.HashValue()) }),
					op("PreHashValue", func(w W) string { return hex4(w.hist.PreHashValue()) }),
					op("Commit", func(w W) string { return "c" + errs(w.hist.Commit()) }),
					op("Expecting", func(w W) string { return str(w.hist.Expecting()) }),
					op("Has 0", func(w W) string { return str(w.hist.Has(0)) }),
					op("GetProof 15", func(w W) string { v, p, ok := w.hist.GetProof(15); return fmt.Sprint(short(v), ok, p) }),
					op("String", func(w W) string { return str(len(w.hist.String()) > 0) }),
				)
				shapes(Scenario{Name: "revertable history tree known by proofs", New: func() any {
					w := &revWorld{d: newKV(), n: 17}
					h, err := trie.RestoreTreeFromProofs(w.d, []byte("h"), 16, hval(16, 7), proof[16].Clone())
					if err != nil {
						panic(err)
					}
					w.hist = &trie.RevertableHistoryTree{Origin: h}
					return w
				}, Digest: func(a any) string {
					w := a.(W)
					s := fmt.Sprint(w.hist.Expecting(), " ")
					for _, i := range []uint64{0, 15, 16, 17} {
						v, ok := w.hist.Get(i)
						s += short(v) + str(ok) + " "
					}
					return s + hex4(w.hist.HashValue()) + hex4(w.hist.PreHashValue())
				}}, core, all)
			}
			{
				type W = *revWorld
				mk := func(f func(w W)) func() any {
					return func() any {
						w := &revWorld{d: newKV()}
						t := openTrie(w.d, nil)
						t.Put([]byte("a"), "0")
						t.Put([]byte("b"), "B")
						h, err := t.CommitAndHash()
						if err != nil {
							panic(err)
						}
						w.r = &trie.RevertableTrie{Origin: openTrie(w.d, h)}
						f(w)
						return w
					}
				}
				revert := op("RevertTo 0", func(w W) string { return "r" + errs(w.r.RevertTo(0, w.root)) })
				core := []Op{
					op("Put a 1", func(w W) string { return str(w.r.Put([]byte("a"), "1")) }),
					op("Delete b", func(w W) string { return str(w.r.Delete([]byte("b"))) }),
					op("GetLive a", func(w W) string { return str(w.r.GetLive([]byte("a"))) }),
					op("Get a", func(w W) string { return str(w.r.Get([]byte("a"))) }),
					op("Rollback", func(w W) string { w.r.Rollback(); return "" }),
					op("Commit", func(w W) string { return "c" + errs(w.r.Commit()) }),
					op("CheckPoint", func(w W) string { n, h, err := w.r.CheckPoint(); return str(n) + hex4(h, err) }),
					revert,
				}
				all := append(append([]Op{}, core...),
					op("HashValue", func(w W) string { return hex4(w.r.HashValue()) }),
					op("PreHashValue", func(w W) string { return hex4(w.r.PreHashValue()) }),
					op("PreCommit", func(w W) string { return hex4(w.r.PreCommit()) }),
					op("CommitAndHash", func(w W) string { return hex4(w.r.CommitAndHash()) }),
					op("IsDirty", func(w W) string { return str(w.r.IsDirty()) }),
					op("GetProof a", func(w W) string { return fmt.Sprint(w.r.GetProof([]byte("a"))) }),
					op("GetExistenceProof b", func(w W) string { return fmt.Sprint(w.r.GetExistenceProof([]byte("b"))) }),
					op("ValueIterator", func(w W) string { return iterate(w.r.ValueIterator()) }),
					op("LiveValueIterator", func(w W) string { return iterate(w.r.LiveValueIterator()) }),
					op("PutValue", func(w W) string { return str(w.r.PutValue(tValue("x"))) }),
					op("Copy", func(w W) string {
						c := w.r.Copy()
						s := str(c.Get([]byte("a"))) + str(c.Get([]byte("b")))
						c.Put([]byte("zz"), "copy")
						return s
					}),
					op("Rebase", func(w W) string {
						c, err := w.r.Rebase(w.d)
						if err != nil {
							return "error"
						}
						return hex4(c.HashValue())
					}),
					op("SetTo", func(w W) string { return "s" + errs(w.r.SetTo(openTrie(w.d, nil))) }),
					op("LiveTrie", func(w W) string { t, err := w.r.LiveTrie(); return str(t != nil) + errs(err) }),
					op("Dump", func(w W) string {
						to := newKV()
						n := 0
						err := w.r.Dump(to, func(k, v []byte) { n++ })
						return str(to.kv.Len(), n) + errs(err)
					}),
				)
				for _, st := range []struct {
					name string
					f    func(w W)
				}{
					{"clean", func(w W) {}},
					{"changed", func(w W) { w.r.Put([]byte("ab"), "live") }},
					{"check-pointed and changed", func(w W) {
						w.r.Put([]byte("ab"), "live")
						_, w.root, _ = w.r.CheckPoint()
						w.root = append([]byte{}, w.root...)
						w.r.Put([]byte("ab"), "later")
					}},
				} {
					c := core
					if st.name != "check-pointed and changed" {
						c = core[:len(core)-1]
					}
					shapes(Scenario{Name: "revertable trie " + st.name, New: mk(st.f), Digest: revDigest}, c, all)
				}
			}
			{
				type W = *revWorld
				core := []Op{
					op("Append +0 1", func(w W) string { return "a" + errs(w.hist.Append(w.n, hval(w.n, 1))) }),
					op("Append +0 2", func(w W) string { return "a" + errs(w.hist.Append(w.n, hval(w.n, 2))) }),
					op("Append +1 3", func(w W) string { return "a" + errs(w.hist.Append(w.n+1, hval(w.n+1, 3))) }),
					op("Get next", func(w W) string { v, ok := w.hist.Get(w.n); return short(v) + str(ok) }),
					op("Rollback", func(w W) string { w.hist.Rollback(); return "" }),
					op("Commit", func(w W) string { return "c" + errs(w.hist.Commit()) }),
					op("PreCommit", func(w W) string { return hex4(w.hist.PreCommit()) }),
				}
				all := append(append([]Op{}, core...),
					op("HashValue", func(w W) string { return hex4(w.hist.HashValue()) }),
					op("PreHashValue", func(w W) string { return hex4(w.hist.PreHashValue()) }),
					op("CommitAndHash", func(w W) string { return hex4(w.hist.CommitAndHash()) }),
					op("Expecting", func(w W) string { return str(w.hist.Expecting()) }),
					op("Has next", func(w W) string { return str(w.hist.Has(w.n)) }),
					op("GetProof first", func(w W) string {
						v, p, ok := w.hist.GetProof(0)
						return fmt.Sprint(short(v), ok, p)
					}),
					op("CollapseBefore", func(w W) string { return "c" + errs(w.hist.CollapseBefore(w.n&^15)) }),
					op("PreCollapseBefore", func(w W) string { return "c" + errs(w.hist.PreCollapseBefore(w.n&^15)) }),
					op("Rebase", func(w W) string {
						c, err := w.hist.Rebase(w.d)
						if err != nil || c == nil {
							return "error"
						}
						return hex4(c.HashValue())
					}),
					op("String", func(w W) string { return str(len(w.hist.String()) > 0) }),
				)
				for _, n := range []uint64{0, 16} {
					for _, live := range []bool{false, true} {
						n, live := n, live
						if n == 0 && !live && !thorough {
							continue
						}
						shapes(Scenario{Name: fmt.Sprintf("revertable history tree of %d, changed %v", n, live), New: func() any {
							x := newHist(n, true)
							w := &revWorld{d: x.d, n: n, hist: &trie.RevertableHistoryTree{Origin: x.h}}
							if live {
								w.hist.Append(n, hval(n, 5))
								w.n++
							}
							return w
						}, Digest: revHistDigest}, core, all)
					}
				}
			}
			return out
		}})
}
