package seq

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"
	"testing/iotest"

	"github.com/ThinkiumGroup/go-common/trie"
	"verif/harness/fw"
)

// checkDump dumps t (clean) to a fresh store and checks that the store is self-sufficient.
func checkDump(w *tWorld) {
	root, err := w.t.CommitAndHash()
	if err != nil {
		w.fail("Commit before a dump: %v", err)
		return
	}
	root = bytes.Clone(root)
	to := newFaultDB()
	seen := map[string]int{}
	err = w.t.Dump(to, func(k, v []byte) {
		seen[string(k)]++
		want, had := w.m[string(k)]
		if !had {
			w.fail("Dump reported key %x which is not there", k)
		} else if string(v) != "V"+want {
			w.fail("Dump reported %s for key %x, want %s", short(string(v)), k, short("V"+want))
		}
	})
	if err != nil {
		w.fail("Dump: %v", err)
		return
	}
	for k := range w.m {
		if seen[k] != 1 {
			w.fail("Dump reported key %x %d times", k, seen[k])
		}
	}
	if e := checkRoot(to, root, w.m, w.f.keys); e != "" {
		w.fail("after Dump, from the target store alone: %s", e)
	}
	re, err := w.t.Rebase(to)
	if err != nil {
		w.fail("Rebase: %v", err)
		return
	}
	for k, v := range w.m {
		if g, ok := re.Get([]byte(k)); !ok || g != v {
			w.fail("after Dump and Rebase Get(%x) = %s,%v", k, short(g), ok)
		}
	}
	if r, err := re.HashValue(); err != nil || !bytes.Equal(r, root) {
		w.fail("rebased trie has root %x (%v), want %x", r, err, root)
	}
	// writing through the rebased trie must go to the other store only
	before := len(w.d.log)
	re.Put([]byte("rebased only"), "r")
	if _, err := re.CommitAndHash(); err != nil {
		w.fail("commit of the rebased trie: %v", err)
	}
	if len(w.d.log) != before {
		w.fail("committing a rebased trie wrote to the old store")
	}
	if _, ok := w.t.Get([]byte("rebased only")); ok {
		w.fail("a key put into the rebased trie shows in the original")
	}
	// without the value callback
	to2 := newFaultDB()
	if err := w.t.Dump(to2, nil); err != nil {
		w.fail("Dump without callback: %v", err)
	}
	if e := checkRoot(to2, root, w.m, nil); e != "" {
		w.fail("after Dump without callback: %s", e)
	}
	w.checkAll()
	if r, err := w.t.HashValue(); err != nil || !bytes.Equal(r, root) {
		w.fail("Dump/Rebase changed the root of the source: %x (%v), want %x", r, err, root)
	}
}

type pairOp struct {
	who  int // 0 or 1
	kind int // 0 put 1 del 2 commit 3 collapse 4 clone other from this 5 inherit last committed root into other 6 reopen
	key  int
}

func (o pairOp) str(f family) string {
	n := []string{"Put", "Del", "Commit", "Collapse", "CloneToOther", "InheritToOther", "Iterate"}[o.kind]
	if o.kind < 2 {
		return fmt.Sprintf("%c.%s(%x)", 'A'+o.who, n, f.keys[o.key])
	}
	return fmt.Sprintf("%c.%s", 'A'+o.who, n)
}

func init() {
	fw.Register(fw.Check{ID: "T07", Level: fw.MC,
		Rule: "every history over put/delete/commit/collapse/iterate on two tries A and B where either may at any point become a clone of, or be inherited from a committed root of, the other, from every subset of a key family in memory or committed; afterwards both must equal their own model in contents and (canonical) root; then both are dumped to fresh stores which must be self-sufficient, and rebased; dumps also run on every content of the T04 universe",
		Run: func(c *fw.Ctx) {
			canon := newCanon(c)
			cases := contentCases(c.Thorough)
			c.Parallel(len(cases)*len(residenceNames), func(i int, sl *fw.Slot) {
				cc := cases[i/len(residenceNames)]
				res := i % len(residenceNames)
				desc := "dump " + cc.name + " " + residenceNames[res]
				sl.Begin(func() string { return desc })
				w := buildResident(cc.m, res)
				checkDump(w)
				checkDump(w)
				c.States.Add(1)
				c.Traces.Add(1)
				c.Evals.Add(1)
				if w.bad != "" {
					c.Fail(desc, "contents %s (%s): %s", short(content(cc.m)), desc, w.bad)
				}
			})
			var ops []pairOp
			for who := 0; who < 2; who++ {
				for k := 0; k < 3; k++ {
					ops = append(ops, pairOp{who, 0, k}, pairOp{who, 1, k})
				}
				ops = append(ops, pairOp{who, 2, 0}, pairOp{who, 3, 0}, pairOp{who, 4, 0}, pairOp{who, 5, 0}, pairOp{who, 6, 0})
			}
			depth := 3
			type job struct {
				s     start
				first int
			}
			var jobs []job
			for i, f := range families {
				sf := family{f.name, f.keys[:c.Pick(3, 4)]}
				if !c.Thorough && i >= 4 {
					break
				}
				for _, s := range starts(sf, []tOp{resMem, resCommit}) {
					for o := range ops {
						jobs = append(jobs, job{s, o})
					}
				}
			}
			c.Parallel(len(jobs), func(i int, sl *fw.Slot) {
				j := jobs[i]
				seq := make([]pairOp, depth)
				desc := func() string {
					ss := []string{history(j.s.f, j.s.ops), "B=A.Clone"}
					for _, o := range seq {
						ss = append(ss, o.str(j.s.f))
					}
					return strings.Join(ss, " ")
				}
				sl.Begin(desc)
				n := 0
				var rec func(p int) bool
				run := func() bool {
					a := newTWorld(j.s.f)
					for _, o := range j.s.ops {
						a.apply(o)
					}
					w := [2]*tWorld{a, {f: a.f, d: a.d, t: a.t.Clone(), m: copyMap(a.m)}}
					var lastRoot [2][]byte
					var lastM [2]map[string]string
					for st, o := range seq {
						x, y := w[o.who], w[1-o.who]
						switch o.kind {
						case 0:
							x.put(x.f.keys[o.key], fmt.Sprintf("%d.%d", o.who, st))
						case 1:
							x.del(x.f.keys[o.key])
						case 2:
							r, err := x.t.CommitAndHash()
							if err != nil {
								x.fail("commit: %v", err)
							}
							lastRoot[o.who], lastM[o.who] = bytes.Clone(r), copyMap(x.m)
						case 3:
							x.apply(tOp{kind: opCollapse})
						case 4:
							y.t, y.m = x.t.Clone(), copyMap(x.m)
						case 5:
							if lastRoot[o.who] != nil {
								y.t, y.m = x.t.Inherit(lastRoot[o.who]), copyMap(lastM[o.who])
							}
						case 6:
							x.apply(tOp{kind: opIterate})
						}
					}
					for q := 0; q < 2; q++ {
						w[q].checkAll()
						r, err := w[q].t.HashValue()
						if err != nil {
							w[q].fail("HashValue: %v", err)
						}
						if want := canon.root(w[q].m); !bytes.Equal(r, want) {
							w[q].fail("root %x, want %x", r, want)
						}
					}
					for q := 0; q < 2; q++ {
						checkDump(w[q])
						w[1-q].checkAll()
					}
					c.States.Add(1)
					c.Traces.Add(1)
					c.Evals.Add(1)
					c.Trans.Add(int64(depth))
					for q := 0; q < 2; q++ {
						if w[q].bad != "" {
							d := desc()
							c.Fail(d, "history %s\ntrie %c: %s\nexpected contents: %s", d, 'A'+q, w[q].bad, content(w[q].m))
						}
					}
					n++
					if n%64 == 0 {
						sl.Begin(nil)
						return !c.Expired()
					}
					return true
				}
				rec = func(p int) bool {
					if p == depth {
						return run()
					}
					for _, o := range ops {
						seq[p] = o
						if !rec(p + 1) {
							return false
						}
					}
					return true
				}
				seq[0] = ops[j.first]
				rec(1)
			})
			c.Sample("prefixes start {12,1234} committed, B=A.Clone, A.Put(12) B.Del(1234) B.Commit; compare, dump, rebase both")
		}})

	fw.Register(fw.Check{ID: "T10", Level: fw.Faults,
		Rule: "every node header shape (fragment length 0..130, value, no/single/pair/all children) encoded and decoded whole, byte by byte and from every truncation, and as JSON; every one of the 65536 child sets stored and reopened; for every small stored trie every stored entry is missing, unreadable once, or truncated at every length, and every operation is tried: whatever claims success must be exact on the repaired store; the same for history trees; non-trivial = a damaged entry was needed",
		Run:  runT10})
}

func runT10(c *fw.Ctx) {
	// headers
	flags := []trie.ChildFlag{{0, 0}, {0xff, 0xff}, {0xff, 0}, {0, 0xff}}
	for i := 0; i < 16; i++ {
		var f trie.ChildFlag
		f[i/8] |= 1 << uint(i%8)
		flags = append(flags, f)
		for j := i + 1; j < 16; j++ {
			g := f
			g[j/8] |= 1 << uint(j%8)
			flags = append(flags, g)
		}
	}
	maxFrag := c.Pick(130, 300)
	c.Parallel(maxFrag+1, func(l int, sl *fw.Slot) {
		prefix := make([]byte, l)
		for i := range prefix {
			prefix[i] = byte((i*7 + l + 1) % 16)
		}
		for _, val := range []bool{false, true} {
			for _, fl := range flags {
				h := trie.NodeHeader{ChildrenFlag: fl}
				p := prefix
				if l > 0 {
					h.NT |= 0x80
					if l%2 == 1 {
						h.NT |= 0x10 | trie.NodeType(prefix[0])
						p = prefix[1:]
					}
					h.KeyString = make(trie.KeyPart, 0)
					for i := 0; i+1 < len(p); i += 2 {
						h.KeyString = append(h.KeyString, p[i]<<4|p[i+1])
					}
				}
				if fl != (trie.ChildFlag{}) {
					h.NT |= 0x40
				}
				if val {
					h.NT |= 0x20
				}
				desc := fmt.Sprintf("header fragment length %d value %v children %x", l, val, fl)
				sl.Begin(func() string { return desc })
				c.Evals.Add(1)
				c.Nontriv.Add(1)
				var buf bytes.Buffer
				if err := h.Serialization(&buf); err != nil {
					c.Fail(desc, "%s: encode: %v", desc, err)
				}
				enc := bytes.Clone(buf.Bytes())
				for _, r := range []io.Reader{bytes.NewReader(enc), iotest.OneByteReader(bytes.NewReader(enc)), bytes.NewReader(append(bytes.Clone(enc), 1, 2, 3))} {
					var g trie.NodeHeader
					if _, err := g.Deserialization(r); err != nil {
						c.Fail(desc, "%s: decode: %v", desc, err)
					}
					if g.NT != h.NT || !bytes.Equal(g.KeyString, h.KeyString) || g.ChildrenFlag != h.ChildrenFlag {
						c.Fail(desc, "%s: decoded to %s", desc, g)
					}
					if !g.Equal(h) || !h.Equal(g) {
						c.Fail(desc, "%s: decoded header not Equal", desc)
					}
					if !bytes.Equal(g.KeyToPrefix(), prefix) {
						c.Fail(desc, "%s: KeyToPrefix %x want %x", desc, g.KeyToPrefix(), prefix)
					}
					h1, e1 := h.HashValue()
					h2, e2 := g.HashValue()
					if e1 != nil || e2 != nil || !bytes.Equal(h1, h2) {
						c.Fail(desc, "%s: hash %x/%x %v %v", desc, h1, h2, e1, e2)
					}
				}
				if fl[0] == 0xff || l%17 == 0 {
					for cut := 0; cut < len(enc); cut++ {
						var g trie.NodeHeader
						if _, err := g.Deserialization(bytes.NewReader(enc[:cut])); err == nil {
							c.Fail(desc, "%s: truncated to %d of %d bytes decodes without error", desc, cut, len(enc))
						}
					}
				}
				js, err := json.Marshal(h)
				var g trie.NodeHeader
				if err != nil {
					c.Fail(desc, "%s: JSON: %v", desc, err)
				} else if err := json.Unmarshal(js, &g); err != nil || !g.Equal(h) {
					c.Fail(desc, "%s: JSON %s decodes to %s (%v)", desc, js, g, err)
				}
				for b := 0; b < 16; b++ {
					if h.HasChild(b) != (fl[b/8]&(1<<uint(b%8)) != 0) {
						c.Fail(desc, "%s: HasChild(%d)=%v", desc, b, h.HasChild(b))
					}
				}
			}
		}
	})
	// every child set, stored and reopened
	c.Parallel(256, func(hi int, sl *fw.Slot) {
		for lo := 0; lo < 256; lo++ {
			set := hi<<8 | lo
			desc := fmt.Sprintf("child set %04x", set)
			sl.Begin(func() string { return desc })
			w := newTWorld(family{name: desc})
			if set%3 == 0 {
				w.put("\x77", "base")
			}
			for b := 0; b < 16; b++ {
				if set&(1<<b) != 0 {
					w.put("\x77"+string([]byte{byte(b<<4) | byte(set%16)}), fmt.Sprint(b))
				}
			}
			w.apply(tOp{kind: opReopen})
			for b := 0; b < 16; b++ {
				w.get("\x77" + string([]byte{byte(b<<4) | byte(set%16)}))
			}
			c.Evals.Add(1)
			c.Nontriv.Add(1)
			if w.bad != "" {
				c.Fail(desc, "%s: %s", desc, w.bad)
			}
		}
	})
	damageTries(c)
	damageHistoryTrees(c)
}

// damageTries: whatever an operation over a damaged store claims must be exact.
func damageTries(c *fw.Ctx) {
	type damage struct {
		key  string
		kind string
		cut  int
	}
	var masks []contentCase
	for _, f := range families[:c.Pick(4, len(families))] {
		for mask := 1; mask < 1<<len(f.keys); mask++ {
			m := map[string]string{}
			for i, k := range f.keys {
				if mask&(1<<i) != 0 {
					m[k] = fmt.Sprintf("value of %d", i)
				}
			}
			masks = append(masks, contentCase{fmt.Sprintf("%s/%b", f.name, mask), m, f.keys})
		}
	}
	c.Parallel(len(masks), func(i int, sl *fw.Slot) {
		cc := masks[i]
		w0 := newTWorld(family{name: cc.name, keys: cc.ask})
		for _, k := range sortedKeys(cc.m) {
			w0.put(k, cc.m[k])
		}
		r0, err := w0.t.CommitAndHash()
		if err != nil {
			c.Fail(cc.name, "commit: %v", err)
		}
		root := bytes.Clone(r0)
		var damages []damage
		for k, v := range w0.d.m {
			damages = append(damages, damage{k, "missing", 0}, damage{k, "unreadable", 0}, damage{k, "unreadable once", 0})
			if k[0] == 'n' { // values are opaque: only whole ones can be told from damaged ones
				for cut := 0; cut < len(v); cut++ {
					if cut < 6 || cut%16 < 2 || cut > len(v)-3 || c.Thorough {
						damages = append(damages, damage{k, "cut", cut})
					}
				}
			}
		}
		for _, dm := range damages {
			for _, k1 := range cc.ask {
				for opk := 0; opk < 6; opk++ {
					for second := 0; second < 6; second++ {
						desc := fmt.Sprintf("%s: entry %c%x.. %s(%d): op%d(%x) op%d", cc.name, dm.key[0], dm.key[1:5], dm.kind, dm.cut, opk, k1, second)
						sl.Begin(func() string { return desc })
						c.Evals.Add(1)
						runDamaged(c, desc, cc, w0.d, root, dm.key, dm.kind, dm.cut, opk, second, k1)
					}
				}
			}
			if c.Expired() {
				return
			}
		}
	})
	c.Sample("prefixes/11: node entry cut to 5 bytes: Get, then Put twice, Commit, repaired store compared")
}

func runDamaged(c *fw.Ctx, desc string, cc contentCase, base *faultDB, root []byte, key, kind string, cut, op1, op2 int, k string) {
	d := base.clone()
	orig := d.m[key]
	needed := false
	switch kind {
	case "missing":
		delete(d.m, key)
	case "cut":
		d.m[key] = orig[:cut]
	default:
		n := 0
		d.failRead = func(kk string) bool {
			if kk == key {
				needed = true
				n++
				return kind == "unreadable" || n == 1
			}
			return false
		}
	}
	t := openTrie(d, bytes.Clone(root))
	m := copyMap(cc.m)
	fail := func(format string, a ...any) {
		c.Fail(desc, "%s\n%s", desc, fmt.Sprintf(format, a...))
	}
	dead := false
	rootBefore, _ := t.HashValue()
	rootBefore = bytes.Clone(rootBefore)
	do := func(o int, k string) {
		if dead {
			return
		}
		p := fw.Try(func() {
			switch o {
			case 0:
				v, ok := t.Get([]byte(k))
				if ok && v != m[k] {
					fail("Get(%x) = %s, want %s or absent", k, short(v), short(m[k]))
				}
				if _, had := m[k]; ok && !had {
					fail("Get(%x) = %s but it was never there", k, short(v))
				}
			case 1:
				if t.Put([]byte(k), "new") {
					m[k] = "new"
				}
			case 2:
				ch, old := t.Delete([]byte(k))
				if ch {
					if old != m[k] {
						fail("Delete(%x) handed back %s", k, short(old))
					}
					if _, had := m[k]; !had {
						fail("Delete(%x) reported a change but the key was not there", k)
					}
					delete(m, k)
				}
			case 3:
				exist, p, err := t.GetExistenceProof([]byte(k))
				if err == nil {
					if _, had := m[k]; exist != had {
						fail("GetExistenceProof(%x) = %v, held: %v", k, exist, had)
					}
					h, err := p.ExistenceHash()
					rt, _ := t.HashValue()
					if err == nil && bytes.Equal(h, rt) && k != "" {
						if ex, err := p.IsExist([]byte(k)); err == nil {
							if _, had := m[k]; ex != had {
								fail("existence proof of %x decides %v, held: %v", k, ex, had)
							}
						}
					}
				}
			case 4:
				v, p, ok := t.GetProof([]byte(k))
				if ok {
					if v != m[k] {
						fail("GetProof(%x) gives value %s", k, short(v))
					}
					rt, _ := t.HashValue()
					if r, err := p.Proof(vHash(m[k])); err != nil || !bytes.Equal(r, rt) {
						fail("GetProof(%x) claims success but folds to %x (%v), root %x", k, r, err, rt)
					}
				}
			case 5:
				to := newFaultDB()
				if t.IsDirty() {
					return
				}
				rt, _ := t.HashValue()
				rt = bytes.Clone(rt)
				if err := t.Dump(to, nil); err == nil {
					if e := checkRoot(to, rt, m, nil); e != "" {
						fail("Dump claims success, but %s", e)
					}
				}
			}
		})
		if p != nil {
			dead = true // it failed; the object is not used any further
		}
	}
	do(op1, k)
	do(op2, k)
	other := cc.ask[0]
	if other == k {
		other = cc.ask[1]
	}
	do(op2, other)
	do(0, k)
	if kind != "unreadable" && kind != "unreadable once" {
		needed = true
	}
	if needed {
		c.Nontriv.Add(1)
	}
	var newRoot []byte
	if !dead {
		if r, err := t.CommitAndHash(); err == nil {
			newRoot = bytes.Clone(r)
		}
	}
	// repair the store: the root in memory must stand for exactly what was acknowledged
	d.failRead = nil
	if _, there := d.m[key]; !there || d.m[key] != orig {
		d.m[key] = orig
	}
	if newRoot != nil {
		if e := checkRoot(d, newRoot, m, cc.ask); e != "" {
			fail("a commit reported success, but on the repaired store: %s\nacknowledged contents %s", e, content(m))
		}
		same := content(m) == content(cc.m)
		if same && !bytes.Equal(newRoot, rootBefore) {
			fail("contents as before, but the root changed from %x to %x", rootBefore, newRoot)
		}
	}
	if e := checkRoot(d, root, cc.m, cc.ask); e != "" {
		fail("the old root is damaged: %s", e)
	}
}

// damageHistoryTrees: the same for history trees of several lengths.
func damageHistoryTrees(c *fw.Ctx) {
	lens := []uint64{1, 16, 17, 33, 256, 257}
	if c.Thorough {
		lens = append(lens, 3, 14, 31, 32, 34, 48, 240, 241, 272, 273, 511, 512, 513)
	}
	type job struct {
		s   *histStart
		key string
	}
	var jobs []job
	for _, s := range histStarts(lens, 0) {
		var ks []string
		for k := range s.d.m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		// nodes near both ends and the root path; a tree of n entries stores about n/16+16 nodes per commit
		for _, k := range ks {
			jobs = append(jobs, job{s, k})
		}
	}
	c.AddExtra("history_nodes_damaged", int64(len(jobs)))
	c.Parallel(len(jobs), func(i int, sl *fw.Slot) {
		j := jobs[i]
		orig := j.s.d.m[j.key]
		type damage struct {
			kind string
			cut  int
		}
		dms := []damage{{"missing", 0}, {"unreadable", 0}, {"unreadable once", 0}}
		for cut := 0; cut < len(orig); cut++ {
			if cut < 6 || cut%32 < 3 || cut > len(orig)-3 || c.Thorough {
				dms = append(dms, damage{"cut", cut})
			}
		}
		n := j.s.n
		idx := []uint64{0, n / 2, n - 1, n &^ 15, (n - 1) &^ 15}
		if n > 16 {
			idx = append(idx, (n-1)&^15-1)
		}
		for _, dm := range dms {
			for op1 := 0; op1 < 6; op1++ {
				for op2 := 0; op2 < 6; op2++ {
					if dm.kind == "cut" && op2 != 1 && op2 != 4 && !c.Thorough {
						continue
					}
					for _, ix := range idx {
						if op1 > 0 && op1 != 2 && op1 != 3 && ix != 0 {
							continue
						}
						desc := fmt.Sprintf("history tree of %d: entry %x.. %s(%d): op%d(%d) op%d", n, j.key[:min(5, len(j.key))], dm.kind, dm.cut, op1, ix, op2)
						sl.Begin(func() string { return desc })
						c.Evals.Add(1)
						runDamagedHist(c, desc, j.s, j.key, dm.kind, dm.cut, op1, op2, ix)
					}
				}
			}
			if c.Expired() {
				return
			}
		}
	})
	c.Sample("history tree of 17 entries, leaf node missing: Append, Commit, repaired store compared with the reference tree")
}

func runDamagedHist(c *fw.Ctx, desc string, st *histStart, key, kind string, cut, op1, op2 int, ix uint64) {
	d := st.d.clone()
	orig := d.m[key]
	needed := kind == "missing" || kind == "cut"
	switch kind {
	case "missing":
		delete(d.m, key)
	case "cut":
		d.m[key] = orig[:cut]
	default:
		reads := 0
		d.failRead = func(kk string) bool {
			if kk == key {
				needed = true
				reads++
				return kind == "unreadable" || reads == 1
			}
			return false
		}
	}
	fail := func(format string, a ...any) { c.Fail(desc, "%s\n%s", desc, fmt.Sprintf(format, a...)) }
	n := st.n
	var t *trie.HistoryTree
	dead := fw.Try(func() {
		t0, err := newHist(d, st.root, true)
		if err == nil {
			t = t0
		}
	}) != nil
	if t == nil {
		dead = true
	} else if e := t.Expecting(); e != n {
		fail("opens with Expecting %d, want %d", e, n)
	}
	do := func(o int) {
		if dead {
			return
		}
		p := fw.Try(func() {
			switch o {
			case 0:
				v, ok := t.Get(ix)
				if ok && (ix >= n || !bytes.Equal(v, histVal(ix))) {
					fail("Get(%d) = %x with %d entries", ix, v, n)
				}
			case 1:
				if lendAppend(t, n, histVal(n)) == nil {
					n++
				}
			case 2:
				v, ps, ok := t.GetProof(ix)
				if ok {
					if ix >= n || !bytes.Equal(v, histVal(ix)) {
						fail("GetProof(%d) gives %x with %d entries", ix, v, n)
					}
					if e := checkHistProof(ps, ix, v, histRoot(n)); e != "" {
						fail("%s", e)
					}
				}
			case 3:
				t.CollapseBefore(ix)
			case 4:
				r, err := t.CommitAndHash()
				if err == nil && !bytes.Equal(r, histRoot(n)) {
					fail("CommitAndHash gives %x for %d entries, want %x", r, n, histRoot(n))
				}
			case 5:
				r, err := t.HashValue()
				if err == nil && !bytes.Equal(r, histRoot(n)) {
					fail("HashValue gives %x for %d entries, want %x", r, n, histRoot(n))
				}
			}
		})
		if p != nil {
			dead = true
		}
	}
	do(op1)
	do(op2)
	do(op1)
	do(1)
	if needed {
		c.Nontriv.Add(1)
	}
	var newRoot []byte
	if !dead {
		if r, err := t.CommitAndHash(); err == nil {
			newRoot = bytes.Clone(r)
		}
	}
	d.failRead = nil
	d.m[key] = orig
	check := func(root []byte, n uint64, what string) {
		t2, err := newHist(d, root, true)
		if err != nil {
			fail("%s: on the repaired store the root of %d entries does not open: %v", what, n, err)
		}
		if e := t2.Expecting(); e != n {
			fail("%s: on the repaired store Expecting = %d, want %d", what, e, n)
		}
		if h, err := t2.HashValue(); err != nil || !bytes.Equal(h, histRoot(n)) {
			fail("%s: root %x (%v), want %x", what, h, err, histRoot(n))
		}
		for i := uint64(0); i < n; i++ {
			if i > 2 && i+34 < n && i%64 != 15 && i%64 != 16 {
				continue
			}
			if v, ok := t2.Get(i); !ok || !bytes.Equal(v, histVal(i)) {
				fail("%s: on the repaired store Get(%d) = %x, %v with %d entries", what, i, v, ok, n)
			}
		}
	}
	if newRoot != nil {
		check(newRoot, n, "a commit reported success")
	}
	if len(d.overwrote) > 0 { // otherwise the store only gained entries
		check(st.root, st.n, "old root")
	}
}
