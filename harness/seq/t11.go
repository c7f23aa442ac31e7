package seq

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/stephenfire/go-rtl"

	"verif/harness/fw"
)

// tVal is a value that carries its own key.
type tVal struct {
	K []byte
	V string
	N uint64
}

func (v *tVal) Key() []byte { return v.K }

func newTVal(k string, x byte) *tVal {
	return &tVal{[]byte(k), strings.Repeat(string(rune(x)), 1+int(x-'0')*37), uint64(x)}
}

func openVTrie(d db.Database, root []byte) *trie.Trie {
	na := db.NewKeyPrefixedDataAdapter(d, []byte("n"))
	va := db.NewKeyPrefixedDataAdapter(d, []byte("v"))
	return trie.NewTrie(root, na, va, reflect.TypeOf((*tVal)(nil)), nil)
}

// the ways into one trie
var t11Ways = []string{"trie", "trie.PutValue", "batch putter 1", "batch putter 2", "batch putter 3", "sync trie", "sync trie.PutValue"}

type vWorld struct {
	d    *faultDB
	t    *trie.Trie
	s    *trie.SyncTrie // nil: not through a sync trie
	bp   *trie.BatchPutter
	put  func(v *tVal) bool
	m    map[string]*tVal
	puts int
	bad  string
}

func (w *vWorld) fail(format string, a ...any) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(format, a...)
	}
}

func newVWorld(way string) *vWorld {
	w := &vWorld{d: newFaultDB(), m: map[string]*tVal{}}
	w.t = openVTrie(w.d, nil)
	lend := func(put func(k []byte, v *tVal) bool) func(v *tVal) bool {
		return func(v *tVal) bool {
			b := bytes.Clone(v.K)
			defer spoil(b) // the key is the caller's
			return put(b, v)
		}
	}
	w.put = lend(func(k []byte, v *tVal) bool { return w.t.Put(k, v) })
	switch way {
	case "trie.PutValue":
		w.put = func(v *tVal) bool { return w.t.PutValue(v) }
	case "batch putter 1", "batch putter 2", "batch putter 3":
		w.bp = trie.NewBatchPutter(w.t, int(way[len(way)-1]-'0'))
		w.put = lend(func(k []byte, v *tVal) bool {
			ok, err := w.bp.Put(k, v)
			if err != nil {
				w.fail("BatchPutter.Put: %v", err)
			}
			return ok
		})
	case "sync trie":
		w.s = trie.NewSyncTrie(w.t)
		w.put = lend(func(k []byte, v *tVal) bool { return w.s.Put(k, v) })
	case "sync trie.PutValue":
		w.s = trie.NewSyncTrie(w.t)
		w.put = func(v *tVal) bool { return w.s.PutValue(v) }
	}
	return w
}

// api is what the trie and its wrapper have in common.
func (w *vWorld) api() trie.ITrie {
	if w.s != nil {
		return w.s
	}
	return w.t
}

type vOp struct {
	name string
	f    func(w *vWorld)
}

func vOps(keys []string) []vOp {
	var ops []vOp
	for i, k := range keys {
		k := k
		x := byte('1' + i)
		ops = append(ops, vOp{fmt.Sprintf("Put(%x)", k), func(w *vWorld) {
			v := newTVal(k, x+byte(w.puts%3))
			w.puts++
			if !w.put(v) {
				w.fail("Put(%x) reported failure", k)
			}
			w.m[k] = v
		}}, vOp{fmt.Sprintf("Del(%x)", k), func(w *vWorld) {
			ch, old := w.api().Delete([]byte(k))
			want, had := w.m[k]
			if ch != had || had && !reflect.DeepEqual(old, want) || !had && old != nil {
				w.fail("Delete(%x) = %v,%v want %v", k, ch, old, want)
			}
			delete(w.m, k)
		}})
	}
	return append(ops,
		vOp{"Commit", func(w *vWorld) {
			if err := w.api().Commit(); err != nil {
				w.fail("Commit: %v", err)
			}
			if w.api().IsDirty() {
				w.fail("dirty after Commit")
			}
		}},
		vOp{"Collapse", func(w *vWorld) {
			if err := w.t.Collapse(); err != nil {
				w.fail("Collapse: %v", err)
			}
		}},
		vOp{"Hash", func(w *vWorld) {
			if _, err := w.api().HashValue(); err != nil {
				w.fail("HashValue: %v", err)
			}
		}})
}

func (w *vWorld) wantList() []string {
	var l []string
	m := map[string]string{}
	for k := range w.m {
		m[k] = ""
	}
	for _, k := range sortedKeys(m) {
		l = append(l, fmt.Sprintf("%x=%v", k, *w.m[k]))
	}
	return l
}

func listOf(it trie.ValueIterator) (l []string) {
	for it.Next() {
		k, v := it.Current()
		p, ok := v.(*tVal)
		if !ok {
			l = append(l, fmt.Sprintf("%x=%T", k, v))
			continue
		}
		l = append(l, fmt.Sprintf("%x=%v", k, *p))
		if len(l) > 100 {
			return append(l, "endless")
		}
	}
	return l
}

func (w *vWorld) check(keys []string, canon map[string][]byte) {
	a := w.api()
	want := fmt.Sprint(w.wantList())
	for _, k := range keys {
		v, ok := a.Get([]byte(k))
		m, had := w.m[k]
		if ok != had || had && !reflect.DeepEqual(v, m) {
			w.fail("Get(%x) = %v,%v want %v", k, v, ok, m)
		}
	}
	if n := w.t.Count(); n != len(w.m) {
		w.fail("Count = %d with %d entries", n, len(w.m))
	}
	if w.bp != nil && w.bp.Count() != w.puts {
		w.fail("BatchPutter.Count = %d after %d", w.bp.Count(), w.puts)
	}
	h0, err := a.HashValue()
	if err != nil {
		w.fail("HashValue: %v", err)
		return
	}
	root := bytes.Clone(h0)
	if c, ok := canon[want]; ok && !bytes.Equal(c, root) {
		w.fail("root %x, the same entries had %x elsewhere", root, c)
	}
	canon[want] = root
	if trie.IsEmptyTrieRoot(root) != (len(w.m) == 0) {
		w.fail("IsEmptyTrieRoot(%x) = %v with %d entries", root, trie.IsEmptyTrieRoot(root), len(w.m))
	}
	other := bytes.Clone(root)
	other[7] ^= 4
	if trie.CheckTrieRoot(root, root) != nil || trie.CheckTrieRoot(root, other) == nil || trie.CheckTrieRoot(other, root) == nil || trie.CheckTrieRoot(root, nil) == nil || trie.CheckTrieRoot(nil, root) == nil || trie.CheckTrieRoot(root, root[:31]) == nil {
		w.fail("CheckTrieRoot misjudges %x", root)
	}
	for _, k := range keys {
		m, had := w.m[k]
		v, p, ok := a.GetProof([]byte(k))
		if ok != had || had && (!reflect.DeepEqual(v, m) || p == nil) {
			w.fail("GetProof(%x) = %v,%v want %v", k, v, ok, m)
		}
		if had {
			hv, err := common.HashObject(m)
			if err != nil || !trie.VerifyProofChain(common.BytesToHash(hv), p, root) {
				w.fail("proof of %x does not fold to the root (%v)", k, err)
			}
		}
		if len(k) > 0 {
			ex, p, err := a.GetExistenceProof([]byte(k))
			if err != nil || ex != had {
				w.fail("GetExistenceProof(%x) = %v,%v want %v", k, ex, err, had)
			} else if len(w.m) > 0 {
				if g, err := p.ExistenceHash(); err != nil || !bytes.Equal(g, root) {
					w.fail("existence proof of %x folds to %x (%v), root %x", k, g, err, root)
				}
			}
		}
	}
	if g := fmt.Sprint(listOf(a.ValueIterator())); g != want {
		w.fail("iterator gives %s want %s", g, want)
	}
	if g := fmt.Sprint(listOf(w.t.ReversedValueIterator())); g != fmt.Sprint(reversed(w.wantList())) {
		w.fail("reversed iterator gives %s, entries %s", g, want)
	}
	// the serial forms
	var one, both bytes.Buffer
	if err := w.t.Marshal(&one); err != nil {
		w.fail("Marshal: %v", err)
	}
	if err := trie.MarshalAsMap(a, &both); err != nil {
		w.fail("MarshalAsMap: %v", err)
	}
	var pairs []string
	var vals []*tVal
	vr := rtl.NewValueReader(bytes.NewReader(both.Bytes()), 0)
	for vr.HasMore() {
		var k []byte
		var v *tVal
		if err := rtl.Decode(vr, &k); err != nil {
			if err == io.EOF {
				break
			}
			w.fail("MarshalAsMap: decoding key: %v", err)
			break
		}
		if err := rtl.Decode(vr, &v); err != nil {
			w.fail("MarshalAsMap: decoding value: %v", err)
			break
		}
		if v == nil {
			v = &tVal{}
		}
		pairs = append(pairs, fmt.Sprintf("%x=%v", k, *v))
		vals = append(vals, v)
	}
	if fmt.Sprint(pairs) != want {
		w.fail("MarshalAsMap decodes to %v want %s", pairs, want)
	}
	var alone bytes.Buffer
	for _, v := range vals {
		if err := rtl.Encode(v, &alone); err != nil {
			w.fail("encode: %v", err)
		}
	}
	if !bytes.Equal(alone.Bytes(), one.Bytes()) {
		w.fail("Marshal gives %x want %x", one.Bytes(), alone.Bytes())
	}
	key := func(v interface{}) []byte {
		p := v.(*tVal)
		if p.K == nil {
			return []byte{}
		}
		return p.K
	}
	nt, err := w.t.UnmarshalNewTrie(bytes.NewReader(one.Bytes()), reflect.TypeOf((*tVal)(nil)), key)
	if err != nil {
		w.fail("UnmarshalNewTrie: %v", err)
		return
	}
	if h, err := nt.HashValue(); err != nil || !bytes.Equal(h, root) {
		w.fail("the trie read back from Marshal has root %x (%v), want %x", h, err, root)
	}
	if g := fmt.Sprint(listOf(nt.ValueIterator())); g != want {
		w.fail("the trie read back from Marshal holds %s want %s", g, want)
	}
	if n := nt.Count(); n != len(w.m) {
		w.fail("the trie read back counts %d of %d", n, len(w.m))
	}
	if one.Len() > 1 {
		cut := one.Len() - 1
		if _, err := w.t.UnmarshalNewTrie(bytes.NewReader(one.Bytes()[:cut]), reflect.TypeOf((*tVal)(nil)), key); err == nil {
			w.fail("a Marshal form cut to %d of %d bytes is accepted", cut, one.Len())
		}
	}
	if p := fw.Try(func() { _, _, _ = w.t.String(), w.t.PrintValues(), w.t.ValueString() }); p != nil {
		w.fail("printing panics: %v", p)
	}
	// printing and marshalling leave it as it was
	if h, err := a.HashValue(); err != nil || !bytes.Equal(h, root) {
		w.fail("root became %x (%v), was %x", h, err, root)
	}
	if n := w.t.Count(); n != len(w.m) {
		w.fail("Count became %d of %d", n, len(w.m))
	}
	for _, k := range keys {
		v, ok := a.Get([]byte(k))
		m, had := w.m[k]
		if ok != had || had && !reflect.DeepEqual(v, m) {
			w.fail("afterwards Get(%x) = %v,%v want %v", k, v, ok, m)
		}
	}
	// and from the store
	if err := a.Commit(); err != nil {
		w.fail("Commit: %v", err)
		return
	}
	r := openVTrie(w.d, root)
	if g := fmt.Sprint(listOf(r.ValueIterator())); g != want {
		w.fail("reopened, it holds %s want %s", g, want)
	}
}

func reversed(l []string) []string {
	var r []string
	for i := len(l) - 1; i >= 0; i-- {
		r = append(r, l[i])
	}
	return r
}

func runT11(c *fw.Ctx) {
	fams := []family{
		{"prefixes", []string{"", "\x12", "\x12\x34"}},
		{"oddsplit", []string{"\xa0", "\xa1\x23", "\xa1"}},
		{"deep", []string{"\x11\x11", "\x11\x21", "\x21\x11"}},
	}
	ways := t11Ways
	type job struct {
		f     family
		way   string
		depth int
		a, b  int
	}
	var jobs []job
	nops := len(vOps(fams[0].keys))
	for _, f := range fams {
		for _, w := range ways {
			for d := 0; d <= c.Pick(5, 6); d++ {
				for a := 0; a < nops; a++ {
					if d == 0 && a > 0 {
						continue
					}
					for b := 0; b < nops; b++ {
						if d < 2 && b > 0 {
							continue
						}
						jobs = append(jobs, job{f, w, d, a, b})
					}
				}
			}
		}
	}
	c.Parallel(len(jobs), func(i int, sl *fw.Slot) {
		j := jobs[i]
		ops := vOps(j.f.keys)
		canon := map[string][]byte{}
		seq := make([]int, j.depth)
		if j.depth > 0 {
			seq[0] = j.a
		}
		if j.depth > 1 {
			seq[1] = j.b
		}
		desc := func() string {
			ss := []string{j.way + " " + j.f.name + ":"}
			for _, o := range seq {
				ss = append(ss, ops[o].name)
			}
			return strings.Join(ss, " ")
		}
		n := 0
		var rec func(p int) bool
		rec = func(p int) bool {
			if p < j.depth {
				for o := range ops {
					seq[p] = o
					if !rec(p + 1) {
						return false
					}
				}
				return true
			}
			if n++; n%16 == 1 {
				sl.Begin(desc)
			}
			w := newVWorld(j.way)
			for _, o := range seq {
				ops[o].f(w)
				c.Trans.Add(1)
			}
			w.check(j.f.keys, canon)
			c.Evals.Add(1)
			c.States.Add(1)
			c.Traces.Add(1)
			if len(w.m) > 1 {
				c.Nontriv.Add(1)
			}
			if w.bad != "" {
				c.Fail(desc(), "%s\n%s", desc(), w.bad)
			}
			return n%64 != 0 || !c.Expired()
		}
		if j.depth < 2 {
			rec(j.depth)
		} else {
			rec(2)
		}
	})
	// a root is empty exactly if it is missing or that of the empty trie
	if !trie.IsEmptyTrieRoot(nil) || !trie.IsEmptyTrieRoot([]byte{}) || trie.IsEmptyTrieRoot(common.NilHashSlice) || trie.IsEmptyTrieRoot(make([]byte, 32)) {
		c.Fail("empty root", "IsEmptyTrieRoot misjudges a missing or foreign root")
	}
	c.Sample("batch putter 2 prefixes: Put() Del(12) Put(1234) Commit; lookups, count, proofs, both iterations, serial forms, reading them back, reopening")
}

func init() {
	fw.Register(fw.Check{ID: "T11", Level: fw.MC, Run: runT11,
		Rule: "every history of puts and deletes of three keys, commits, collapses and root queries up to the depth, through the trie, values that name their key, batch putters of three sizes and the synchronized wrapper with either way of putting, in three key families; at the end lookups, count, proofs, iterations, both serial forms, the trie read back from them and the reopened store against the map; non-trivial: at least two entries"})
}
