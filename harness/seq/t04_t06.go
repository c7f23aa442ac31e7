package seq

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/trie"
	"verif/harness/fw"
)

func vHash(v string) common.Hash {
	h, err := common.HashObject(v)
	if err != nil {
		panic(err)
	}
	return common.BytesToHash(h)
}

// contentsOf a family: every subset of its keys with distinct values ("#i") plus larger universes.
type contentCase struct {
	name string
	m    map[string]string
	ask  []string // keys to ask about, held or not
}

func contentCases(big bool) []contentCase {
	var out []contentCase
	near := func(keys []string) []string {
		set := map[string]bool{}
		for _, k := range keys {
			set[k] = true
			set[k+"\x00"] = true
			set[k+"\x01\x02"] = true
			if len(k) > 0 {
				set[k[:len(k)-1]] = true
				set[k[:len(k)-1]+string([]byte{k[len(k)-1] ^ 1})] = true
				set[k[:len(k)-1]+string([]byte{k[len(k)-1] ^ 0x80})] = true
				set[string([]byte{k[0] ^ 0x10})+k[1:]] = true
			}
		}
		var out []string
		for k := range set {
			out = append(out, k)
		}
		sort.Strings(out)
		return out
	}
	for _, f := range families {
		for mask := 0; mask < 1<<len(f.keys); mask++ {
			m := map[string]string{}
			for i, k := range f.keys {
				if mask&(1<<i) != 0 {
					m[k] = fmt.Sprintf("#%d", i)
				}
			}
			out = append(out, contentCase{fmt.Sprintf("%s/%b", f.name, mask), m, near(f.keys)})
		}
	}
	// every key of up to two bytes over a small nibble alphabet, in every fan-out
	for _, base := range []string{"", "\x9a"} {
		for n := 1; n <= 16; n++ {
			for _, withBase := range []bool{false, true} {
				for gap := 1; gap <= 2; gap++ {
					m := map[string]string{}
					var ks []string
					if withBase {
						m[base] = "#b"
						ks = append(ks, base)
					}
					for i := 0; i < n; i++ {
						k := base + string([]byte{byte((i*gap)%16)<<4 | byte((i*gap)/16)})
						m[k] = fmt.Sprintf("#%d", i)
						ks = append(ks, k)
						if i%5 == 0 {
							m[k+"zz"] = fmt.Sprintf("#z%d", i)
							ks = append(ks, k+"zz")
						}
					}
					out = append(out, contentCase{fmt.Sprintf("fan %x %d %v %d", base, n, withBase, gap), m, near(ks)})
				}
			}
		}
	}
	maxLen := 24
	if big {
		maxLen = 80
	}
	for l := 1; l <= maxLen; l++ {
		long := make([]byte, l)
		for i := range long {
			long[i] = byte(i*11 + 3)
		}
		ks := []string{string(long), string(long[:l-1]) + string([]byte{long[l-1] ^ 1}), string([]byte{long[0] ^ 0x10}) + string(long[1:]), string(long[:l/2]), string(long) + "\x07\x08"}
		for drop := -1; drop < len(ks); drop++ {
			m := map[string]string{}
			for i, k := range ks {
				if i != drop {
					m[k] = fmt.Sprintf("#%d", i)
				}
			}
			out = append(out, contentCase{fmt.Sprintf("len %d drop %d", l, drop), m, near(ks)})
		}
	}
	// all 2-byte keys with nibbles in {0,1,f}: 81 keys; every 3rd, 5th, all
	var dense []string
	nib := []byte{0, 1, 15}
	for _, a := range nib {
		for _, b := range nib {
			for _, c := range nib {
				for _, d := range nib {
					dense = append(dense, string([]byte{a<<4 | b, c<<4 | d}))
				}
			}
			dense = append(dense, string([]byte{a<<4 | b}))
		}
	}
	for _, st := range []int{1, 2, 3, 5, 7} {
		m := map[string]string{}
		for i := 0; i < len(dense); i += st {
			m[dense[i]] = fmt.Sprintf("#%d", i)
		}
		out = append(out, contentCase{fmt.Sprintf("dense/%d", st), m, near(dense)})
	}
	// a large value collapses away from its node after two commits
	bigv := string(bytes.Repeat([]byte{'b'}, 5000))
	out = append(out, contentCase{"bigvalues", map[string]string{"\x11": bigv, "\x11\x22": bigv + "1", "\x11\x33": "s", "\x21": bigv + "2"}, near([]string{"\x11", "\x11\x22", "\x11\x33", "\x21"})})
	return out
}

// residences of a trie with given contents
var residenceNames = []string{"memory", "committed", "twice committed", "reopened", "reopened, half touched", "modified back"}

func buildResident(m map[string]string, res int) *tWorld {
	w := newTWorld(family{name: "x"})
	ks := sortedKeys(m)
	for _, k := range ks {
		w.put(k, m[k])
	}
	switch res {
	case 1:
		w.apply(tOp{kind: opCommit})
	case 2:
		w.apply(tOp{kind: opCommit})
		w.apply(tOp{kind: opCommit})
	case 3:
		w.apply(tOp{kind: opReopen})
	case 4:
		w.apply(tOp{kind: opReopen})
		for i, k := range ks {
			if i%2 == 0 {
				w.put(k, m[k])
			}
		}
	case 5:
		w.apply(tOp{kind: opReopen})
		for i, k := range ks {
			if i%2 == 1 {
				w.del(k)
				w.put(k, m[k])
			}
			if i%3 == 0 {
				if _, had := m[k+"\x40"]; !had {
					w.put(k+"\x40", "tmp")
					w.del(k + "\x40")
				}
			}
		}
	}
	return w
}

// tamper yields every alteration of a proof chain in the parts that take part in folding.
func tamper(p trie.ProofChain, each func(desc string, q trie.ProofChain)) {
	for i := range p {
		q := append(append(trie.ProofChain{}, p[:i]...), p[i+1:]...)
		each(fmt.Sprintf("drop %d", i), q)
		q = append(append(append(trie.ProofChain{}, p[:i+1]...), p[i].Clone()), p[i+1:]...)
		each(fmt.Sprintf("duplicate %d", i), q)
		for j := i + 1; j < len(p); j++ {
			if !p[i].Equal(p[j]) {
				q = p.Clone()
				q[i], q[j] = q[j], q[i]
				each(fmt.Sprintf("swap %d %d", i, j), q)
			}
		}
		mod := func(desc string, f func(n *trie.NodeProof)) {
			q := p.Clone()
			f(q[i])
			each(fmt.Sprintf("node %d: %s", i, desc), q)
		}
		for _, bit := range []uint{5, 6, 7} { // value, children, prefix flags
			mod(fmt.Sprintf("header bit %d", bit), func(n *trie.NodeProof) { n.Header.NT ^= trie.NodeType(1 << bit) })
		}
		if p[i].Header.NT.HasPrefix() {
			mod("header odd flag", func(n *trie.NodeProof) { n.Header.NT ^= 0x10 })
			mod("header first nibble", func(n *trie.NodeProof) { n.Header.NT ^= 0x01 })
			for b := range p[i].Header.KeyString {
				mod(fmt.Sprintf("key fragment byte %d", b), func(n *trie.NodeProof) { n.Header.KeyString[b] ^= 0x01 })
			}
			mod("longer key fragment", func(n *trie.NodeProof) { n.Header.KeyString = append(n.Header.KeyString, 0) })
			if l := len(p[i].Header.KeyString); l > 0 {
				mod("shorter key fragment", func(n *trie.NodeProof) { n.Header.KeyString = n.Header.KeyString[:l-1] })
			}
		}
		if p[i].Header.NT.HasChildren() {
			for b := 0; b < 16; b++ {
				mod(fmt.Sprintf("child flag %d", b), func(n *trie.NodeProof) { n.Header.ChildrenFlag[b/8] ^= 1 << uint(b%8) })
			}
		}
		if !p[i].PType.IsProofValue() {
			mod("value hash", func(n *trie.NodeProof) {
				if n.ValueHash == nil {
					h := vHash("forged")
					n.ValueHash = &h
				} else {
					n.ValueHash[31] ^= 1
				}
			})
			if p[i].ValueHash != nil {
				mod("no value hash", func(n *trie.NodeProof) { n.ValueHash = nil })
			}
		}
		if cp := p[i].ChildProofs; cp != nil {
			for h := range cp.Hashs {
				mod(fmt.Sprintf("sibling hash %d", h), func(n *trie.NodeProof) { n.ChildProofs.Hashs[h][0] ^= 1 })
			}
			if l := len(cp.Hashs); l > 0 {
				mod("no child proofs", func(n *trie.NodeProof) { n.ChildProofs = nil })
				mod("extra sibling", func(n *trie.NodeProof) { n.ChildProofs.Append(vHash("extra"), true) })
				if l > 1 {
					mod("siblings rebuilt without the last", func(n *trie.NodeProof) {
						items, _ := n.ChildProofs.ToItems()
						n.ChildProofs = common.NewMerkleProofs()
						for _, it := range items[:len(items)-1] {
							n.ChildProofs.Append(it.Val, it.Order)
						}
					})
				}
				if p[i].PType.IsProofChild() {
					items, _ := cp.ToItems()
					for x := range items {
						mod(fmt.Sprintf("side of sibling %d", x), func(n *trie.NodeProof) {
							n.ChildProofs = common.NewMerkleProofs()
							for y, it := range items {
								n.ChildProofs.Append(it.Val, it.Order != (x == y))
							}
						})
					}
				}
			}
		}
	}
}

func init() {
	fw.Register(fw.Check{ID: "T04", Level: fw.Exploration,
		Rule: "every content of the universe (all subsets of the key families, every fan-out 1..16 with and without a value on the branching node, every key length, dense two-byte universes) in six residences; every key held: proof folds over its value to the root, over no other value, and not after any single alteration; every near-miss key: no proof; non-trivial = a proof folded",
		Run: func(c *fw.Ctx) {
			cases := contentCases(c.Thorough)
			c.Parallel(len(cases)*len(residenceNames), func(i int, sl *fw.Slot) {
				cc := cases[i/len(residenceNames)]
				res := i % len(residenceNames)
				desc := cc.name + " " + residenceNames[res]
				sl.Begin(func() string { return desc })
				w := buildResident(cc.m, res)
				fail := func(format string, a ...any) {
					c.Fail(desc, "contents %s (%s): %s", short(content(cc.m)), desc, fmt.Sprintf(format, a...))
				}
				root0, err := w.t.HashValue()
				if err != nil {
					fail("HashValue: %v", err)
				}
				root := bytes.Clone(root0)
				c.States.Add(1)
				for _, k := range cc.ask {
					c.Evals.Add(1)
					v, p, ok := w.t.GetProof([]byte(k))
					want, had := cc.m[k]
					if ok != had {
						fail("GetProof(%x) ok=%v, key held: %v", k, ok, had)
					}
					if !had {
						if len(p) != 0 || v != nil {
							fail("GetProof(%x) of an absent key gave %v, %v", k, v, p)
						}
						continue
					}
					c.Nontriv.Add(1)
					if v != want {
						fail("GetProof(%x) gave value %s", k, short(v))
					}
					h := vHash(want)
					r, err := p.Proof(h)
					if err != nil || !bytes.Equal(r, root) {
						fail("proof of %x folds to %x (%v), root %x", k, r, err, root)
					}
					if !trie.VerifyProofChain(h, p, root) {
						fail("VerifyProofChain rejects the proof of %x", k)
					}
					if x, err := (trie.Proof{ToBeProof: &h, Proofs: p}).Proof(); err != nil || !bytes.Equal(x, root) {
						fail("Proof{}.Proof of %x gives %x, %v", k, x, err)
					}
					if mp, err := p.ToMerkles(); err != nil {
						fail("ToMerkles: %v", err)
					} else if x, err := mp.Proof(h); err != nil || !bytes.Equal(x, root) {
						fail("ToMerkles of the proof of %x folds to %x, %v", k, x, err)
					}
					q := p.Clone()
					if !q.Equal(p) || !p.Equal(q) {
						fail("a clone of the proof of %x is not equal to it", k)
					}
					if x, err := q.Proof(h); err != nil || !bytes.Equal(x, root) {
						fail("the cloned proof of %x folds to %x, %v", k, x, err)
					}
					for ov := range map[string]bool{"": true, "no such value": true, want + "x": true, cc.m[cc.ask[0]]: true} {
						if ov != want && trie.VerifyProofChain(vHash(ov), p, root) {
							fail("the proof of %x (value %s) also verifies value %q", k, want, ov)
						}
					}
					for ok2, ov := range cc.m {
						if ok2 != k && trie.VerifyProofChain(vHash(ov), p, root) {
							fail("the proof of %x also verifies the value of %x", k, ok2)
						}
					}
					tamper(p, func(td string, t trie.ProofChain) {
						c.Trans.Add(1)
						x, err := t.Proof(h)
						if err == nil && bytes.Equal(x, root) {
							fail("proof of %x still folds to the root after %s\nproof %s\nafter %s", k, td, p, t)
						}
					})
					if r2, _ := w.t.HashValue(); !bytes.Equal(r2, root) {
						fail("asking for proofs changed the root")
					}
					if x, err := q.Proof(h); err != nil || !bytes.Equal(x, root) {
						fail("altering copies changed the cloned proof")
					}
				}
				if res == 3 && len(cc.m) > 1 {
					c.Sample(desc)
				}
			})
		}})
	fw.Register(fw.Check{ID: "T05", Level: fw.Exploration,
		Rule: "every content of the universe (as T04) in six residences; for every non-empty asked key the existence proof hashes to the root and decides membership; the same proof is also offered for every other asked key and must never decide wrongly; single alterations that still hash to the root must not decide wrongly either (type relabelling excluded); non-trivial = a proof decided a key",
		Run: func(c *fw.Ctx) {
			cases := contentCases(c.Thorough)
			c.Parallel(len(cases)*len(residenceNames), func(i int, sl *fw.Slot) {
				cc := cases[i/len(residenceNames)]
				res := i % len(residenceNames)
				desc := cc.name + " " + residenceNames[res]
				sl.Begin(func() string { return desc })
				w := buildResident(cc.m, res)
				fail := func(format string, a ...any) {
					c.Fail(desc, "contents %s (%s): %s", short(content(cc.m)), desc, fmt.Sprintf(format, a...))
				}
				root0, err := w.t.HashValue()
				if err != nil {
					fail("HashValue: %v", err)
				}
				root := bytes.Clone(root0)
				c.States.Add(1)
				for _, k := range cc.ask {
					c.Evals.Add(1)
					_, had := cc.m[k]
					exist, p, err := w.t.GetExistenceProof([]byte(k))
					if err != nil {
						fail("GetExistenceProof(%x): %v", k, err)
					}
					if exist != had {
						fail("GetExistenceProof(%x) says exist=%v, key held: %v", k, exist, had)
					}
					r, err := p.ExistenceHash()
					if err != nil || !bytes.Equal(r, root) {
						fail("existence proof of %x hashes to %x (%v), root %x", k, r, err, root)
					}
					c.Nontriv.Add(1)
					if k != "" {
						ex, err := p.IsExist([]byte(k))
						if err != nil || ex != had {
							fail("existence proof of %x decides %v (%v), key held: %v\nproof %s", k, ex, err, had, p)
						}
						if had {
							h, err := p.Exist(nibbles(k))
							vh := vHash(cc.m[k])
							if err != nil || h == nil || *h != vh {
								fail("existence proof of %x gives value hash %v (%v)", k, h, err)
							}
						}
					}
					for _, o := range cc.ask {
						if o == "" || o == k {
							continue
						}
						c.Trans.Add(1)
						_, ohad := cc.m[o]
						if ex, err := p.IsExist([]byte(o)); err == nil && ex != ohad {
							fail("the existence proof of %x decides %v for %x, held: %v\nproof %s", k, ex, o, ohad, p)
						}
					}
					if q := p.Clone(); !q.Equal(p) {
						fail("clone of an existence proof differs")
					}
					tryForged := func(td string, t trie.ProofChain) {
						x, err := t.ExistenceHash()
						if err != nil || !bytes.Equal(x, root) {
							return
						}
						if k == "" {
							return
						}
						if ex, err := t.IsExist([]byte(k)); err == nil && ex != had {
							fail("after %s the existence proof of %x still hashes to the root but decides %v, held: %v", td, k, ex, had)
						}
					}
					tamper(p, tryForged)
					if len(p) > 0 {
						q := p.Clone()
						nh := common.BytesToHash(common.NilHashSlice)
						q[0].ValueHash = &nh
						tryForged("setting the value hash to the nil hash", q)
					}
					if r2, _ := w.t.HashValue(); !bytes.Equal(r2, root) {
						fail("asking for proofs changed the root")
					}
				}
				if res == 3 && len(cc.m) > 1 {
					c.Sample(desc)
				}
			})
		}})
	fw.Register(fw.Check{ID: "T06", Level: fw.Exploration,
		Rule: "every content of the universe (as T04) in six residences, iterated forward, backward, with an early stop, twice, and after partial lookups; also after every mutation history of depth 2 from every start; non-trivial = more than one entry visited",
		Run: func(c *fw.Ctx) {
			cases := contentCases(c.Thorough)
			c.Parallel(len(cases)*len(residenceNames), func(i int, sl *fw.Slot) {
				cc := cases[i/len(residenceNames)]
				res := i % len(residenceNames)
				desc := cc.name + " " + residenceNames[res]
				sl.Begin(func() string { return desc })
				w := buildResident(cc.m, res)
				w.checkIter()
				w.checkIter()
				w.checkKeys()
				c.States.Add(1)
				c.Evals.Add(1)
				if len(w.m) > 1 {
					c.Nontriv.Add(1)
				}
				if res == 4 {
					c.Sample(desc)
				}
				if w.bad != "" {
					c.Fail(desc, "contents %s (%s): %s", short(content(cc.m)), desc, w.bad)
				}
			})
			exploreTrie(c, families, []tOp{resMem, resCommit, resReopen}, []int{1, c.Pick(2, 3)}, alphaMut, func(w *tWorld) { w.checkIter(); w.checkAll() })
			runWide(c, nil, func(w *tWorld) { w.checkIter() })
		}})
}

func nibbles(k string) []byte {
	var out []byte
	for i := 0; i < len(k); i++ {
		out = append(out, k[i]>>4, k[i]&15)
	}
	return out
}

type kv struct{ k, v string }

func collect(it trie.ValueIterator, limit int) (out []kv, bad string) {
	for it.Next() {
		k, v := it.Current()
		s, ok := v.(string)
		if !ok {
			return out, fmt.Sprintf("key %x visited with value %v", k, v)
		}
		k2, v2 := it.Current()
		if !bytes.Equal(k, k2) || v2 != v {
			return out, "Current answers differently when asked twice"
		}
		out = append(out, kv{string(k), s})
		if len(out) > limit {
			return out, fmt.Sprintf("more than %d entries visited", limit)
		}
	}
	if it.Next() {
		return out, "Next reports more entries after the end"
	}
	return out, ""
}

// checkIter compares forward, backward and callback iteration with the map.
func (w *tWorld) checkIter() {
	var want []kv
	for _, k := range sortedKeys(w.m) {
		want = append(want, kv{k, w.m[k]})
	}
	root, err := w.t.HashValue()
	if err != nil {
		w.fail("HashValue: %v", err)
		return
	}
	root = bytes.Clone(root)
	cmp := func(how string, got []kv, bad string, rev bool) {
		if bad != "" {
			w.fail("%s: %s", how, bad)
			return
		}
		same := len(got) == len(want)
		for i := 0; same && i < len(got); i++ {
			j := i
			if rev {
				j = len(want) - 1 - i
			}
			same = got[i] == want[j]
		}
		if !same {
			w.fail("%s visited %s, contents %s", how, kvs(got), kvs(want))
		}
	}
	got, bad := collect(w.t.ValueIterator(), len(want))
	cmp("ValueIterator", got, bad, false)
	got, bad = collect(w.t.ReversedValueIterator(), len(want))
	cmp("ReversedValueIterator", got, bad, true)
	got = nil
	w.t.IterateAll(false, func(k []byte, v interface{}) bool {
		s, _ := v.(string)
		got = append(got, kv{string(k), s})
		return true
	})
	cmp("IterateAll", got, "", false)
	for stop := 1; stop <= 2 && stop <= len(want); stop++ {
		n := 0
		w.t.IterateAll(false, func(k []byte, v interface{}) bool { n++; return n < stop })
		if n != stop {
			w.fail("IterateAll told to stop at %d went on to %d", stop, n)
		}
	}
	if r2, err := w.t.HashValue(); err != nil || !bytes.Equal(root, r2) {
		w.fail("iterating changed the root from %x to %x (%v)", root, r2, err)
	}
}

func kvs(l []kv) string {
	s := ""
	for _, e := range l {
		s += fmt.Sprintf("%x=%s ", e.k, short(e.v))
	}
	return "[" + s + "]"
}
