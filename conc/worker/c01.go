package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"

	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/stephenfire/go-rtl"
	"verif/sched"
	"verif/sched/hist"
)

// --- the synchronized state trie

type trieWorld struct {
	d *kvDB
	t *trie.Trie
}

func vEncode(o interface{}, w io.Writer) error {
	s, ok := o.(string)
	if !ok {
		return errors.New("not a string")
	}
	_, err := w.Write([]byte("V" + s))
	return err
}

func vDecode(r io.Reader) (interface{}, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if len(b) == 0 || b[0] != 'V' {
		return nil, errors.New("not an encoded value")
	}
	return string(b[1:]), nil
}

func openTrie(d db.Database, root []byte) *trie.Trie {
	return trie.NewTrieWithValueCodec(root, db.NewKeyPrefixedDataAdapter(d, []byte("n")), db.NewKeyPrefixedDataAdapter(d, []byte("v")), vEncode, vDecode)
}

func errs(err error) string {
	if err != nil {
		return " error"
	}
	return ""
}

func hex4(b []byte, err error) string {
	if len(b) > 4 {
		b = b[:4]
	}
	return fmt.Sprintf("%x", b) + errs(err)
}

func iterate(it trie.ValueIterator) string {
	s := "["
	for it.Next() {
		k, v := it.Current()
		s += fmt.Sprint(string(k), "=", v, " ")
	}
	return s + "]"
}

var trieKeys = []string{"a", "ab", "b"}

type tr interface {
	Get(key []byte) (interface{}, bool)
	Put(key []byte, value interface{}) bool
	Delete(key []byte) (bool, interface{})
	HashValue() ([]byte, error)
	IsDirty() bool
	Commit() error
	GetProof(key []byte) (interface{}, trie.ProofChain, bool)
	GetExistenceProof(key []byte) (bool, trie.ProofChain, error)
	ValueIterator() trie.ValueIterator
}

// trieOps are the calls on w's trie, as at gives it.
func tGet(k string) func(t tr) string {
	return func(t tr) string { v, ok := t.Get([]byte(k)); return str(v, ok) }
}
func tPut(k, v string) func(t tr) string {
	return func(t tr) string {
		b := []byte(k)
		ok := t.Put(b, v)
		for i := range b {
			b[i] = '#'
		}
		return str(ok)
	}
}
func tDel(k string) func(t tr) string {
	return func(t tr) string { ok, old := t.Delete([]byte(k)); return str(ok, old) }
}
func tProof(k string) func(t tr) string {
	return func(t tr) string {
		v, p, ok := t.GetProof([]byte(k))
		return fmt.Sprint(v, ok, " ", p)
	}
}
func tExist(k string) func(t tr) string {
	return func(t tr) string {
		ok, p, err := t.GetExistenceProof([]byte(k))
		return fmt.Sprint(ok, " ", p, errs(err))
	}
}
func tHash(t tr) string { return hex4(t.HashValue()) }

func trieDigest(w any) string {
	x := w.(*trieWorld)
	s := fmt.Sprint(x.t.Count(), x.t.IsDirty(), x.t.IsEmpty(), " ")
	for _, k := range trieKeys {
		s += tGet(k)(x.t) + " "
	}
	s += tHash(x.t) + errs(x.t.Commit())
	h, err := x.t.HashValue()
	s += " " + hex4(h, err) + iterate(x.t.ValueIterator())
	r := openTrie(x.d, h)
	for _, k := range trieKeys {
		s += tGet(k)(r) + " "
	}
	return s + iterate(r.ValueIterator())
}

func trieStates() (names []string, mk []func() any) {
	add := func(name string, f func(w *trieWorld)) {
		names = append(names, name)
		mk = append(mk, func() any {
			w := &trieWorld{d: newKV()}
			w.t = openTrie(w.d, nil)
			f(w)
			return w
		})
	}
	put := func(w *trieWorld, kv ...string) {
		for i := 0; i < len(kv); i += 2 {
			w.t.Put([]byte(kv[i]), kv[i+1])
		}
	}
	reopen := func(w *trieWorld) {
		h, err := w.t.CommitAndHash()
		if err != nil {
			panic(err)
		}
		w.t = openTrie(w.d, h)
	}
	add("empty", func(w *trieWorld) {})
	add("unsaved {ab}", func(w *trieWorld) { put(w, "ab", "0") })
	add("reopened {a,ab}", func(w *trieWorld) { put(w, "a", "0", "ab", "0"); reopen(w) })
	add("reopened {a,ab,b}", func(w *trieWorld) { put(w, "a", "0", "ab", "0", "b", "B"); reopen(w) })
	add("saved {a,b}, {ab} unsaved", func(w *trieWorld) {
		put(w, "a", "0", "b", "B")
		if w.t.Commit() != nil {
			panic("commit")
		}
		put(w, "ab", "0")
	})
	return
}

// --- a trie without any synchronization, for the wrapper

type bareTrie struct {
	m      map[string]string
	dirty  bool
	inside *hist.Cell
	log    *hist.Log
}

func (b *bareTrie) enter() func() {
	b.inside.Add(1)
	if b.inside.Get() != 1 {
		b.log.Add("two calls at once")
	}
	sched.Point(sched.KUser)
	return func() { b.inside.Add(-1) }
}

func (b *bareTrie) keys() (l []string) {
	for k := range b.m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}
func (b *bareTrie) HashValue() ([]byte, error) {
	defer b.enter()()
	s := ""
	for _, k := range b.keys() {
		s += k + b.m[k]
	}
	return []byte(s), nil
}
func (b *bareTrie) Get(key []byte) (interface{}, bool) {
	defer b.enter()()
	v, ok := b.m[string(key)]
	return v, ok
}
func (b *bareTrie) Put(key []byte, v interface{}) bool {
	defer b.enter()()
	old, ok := b.m[string(key)]
	b.m[string(key)] = v.(string)
	b.dirty = true
	return !ok || old != v
}
func (b *bareTrie) PutValue(v trie.TrieValue) bool { return b.Put(v.Key(), fmt.Sprint(v)) }
func (b *bareTrie) Delete(key []byte) (bool, interface{}) {
	defer b.enter()()
	old, ok := b.m[string(key)]
	delete(b.m, string(key))
	b.dirty = b.dirty || ok
	return ok, old
}
func (b *bareTrie) IsDirty() bool { defer b.enter()(); return b.dirty }
func (b *bareTrie) Commit() error {
	defer b.enter()()
	b.dirty = false
	return nil
}
func (b *bareTrie) GetProof(key []byte) (interface{}, trie.ProofChain, bool) {
	defer b.enter()()
	v, ok := b.m[string(key)]
	return v, nil, ok
}
func (b *bareTrie) GetExistenceProof(key []byte) (bool, trie.ProofChain, error) {
	defer b.enter()()
	_, ok := b.m[string(key)]
	return ok, nil, nil
}

type bareIter struct {
	k []string
	v map[string]string
	i int
}

func (i *bareIter) Next() bool { i.i++; return i.i <= len(i.k) }
func (i *bareIter) Current() ([]byte, interface{}) {
	return []byte(i.k[i.i-1]), i.v[i.k[i.i-1]]
}
func (b *bareTrie) ValueIterator() trie.ValueIterator {
	defer b.enter()()
	it := &bareIter{v: map[string]string{}}
	for _, k := range b.keys() {
		it.k = append(it.k, k)
		it.v[k] = b.m[k]
	}
	return it
}

// tValue is a value with its own key
type tValue string

func (v tValue) Key() []byte    { return []byte("a") }
func (v tValue) String() string { return string(v) }

type syncWorld struct {
	s *trie.SyncTrie
	b *bareTrie
}

// --- the combined trie

type combWorld struct {
	d    *kvDB
	c    *trie.SmallCombinedTrie
	subs map[string]*trie.Trie
	rec  []byte // root of a stored combined trie
}

func (w *combWorld) init(t *trie.SmallCombinedTrie, root []byte) error {
	return t.InitTrie(root, db.NewKeyPrefixedDataAdapter(w.d, []byte("n")), db.NewKeyPrefixedDataAdapter(w.d, []byte("v")), vEncode, vDecode, nil)
}

func (w *combWorld) name(v interface{}) string {
	for k, t := range w.subs {
		if v == interface{}(t) {
			return k
		}
	}
	return fmt.Sprintf("%T", v)
}

func newComb(keys string) *combWorld {
	w := &combWorld{d: newKV(), subs: map[string]*trie.Trie{}}
	w.c = trie.NewCombinedTrie(db.NewKeyPrefixedDataAdapter(w.d, []byte("c")))
	for i, s := range []string{"s1", "s2", "s3"} {
		w.subs[s] = openTrie(w.d, nil)
		w.subs[s].Put([]byte("k"), s)
		if i == 0 {
			w.subs[s].Commit()
		}
	}
	for i, k := range keys {
		w.c.Put([]byte(string(k)), w.subs[fmt.Sprint("s", i+1)])
	}
	o := trie.NewCombinedTrie(db.NewKeyPrefixedDataAdapter(w.d, []byte("c")))
	for _, k := range []string{"v", "w"} {
		t := openTrie(w.d, nil)
		t.Put([]byte("k"), k)
		o.Put([]byte(k), t)
	}
	o.Commit()
	w.rec, _ = o.HashValue()
	return w
}

func combDigest(a any) string {
	w := a.(*combWorld)
	s := fmt.Sprint(w.c.IsDirty(), w.c.Keys(), hex4(w.c.HashValue()))
	for _, k := range []string{"x", "y", "z"} {
		v, ok := w.c.Get([]byte(k))
		s += " " + w.name(v) + str(ok)
	}
	s += errs(w.c.Commit())
	h, err := w.c.HashValue()
	s += hex4(h, err)
	r := trie.NewCombinedTrie(db.NewKeyPrefixedDataAdapter(w.d, []byte("c")))
	err = w.init(r, h)
	return s + fmt.Sprint(r.Keys(), errs(err))
}

func init() {
	suite(&Suite{ID: "C01",
		Rule: "every interleaving, at lock operations, of two and three concurrent call sequences on the trie, on the wrapper over an unsynchronized trie and on the combined trie, from several starting states, compared with the one-at-a-time orders, with the race detector on",
		Scenarios: func(thorough bool) []*Scenario {
			var out []*Scenario
			kinds := sched.KLock | sched.KMap
			{
				wrap := func(f func(t tr) string) func(w *trieWorld) string {
					return func(w *trieWorld) string { return f(w.t) }
				}
				core := []Op{
					op("Get ab", wrap(tGet("ab"))),
					op("Put a 1", wrap(tPut("a", "1"))),
					op("Delete ab", wrap(tDel("ab"))),
					op("HashValue", wrap(tHash)),
					op("Commit", wrap(func(t tr) string { return "c" + errs(t.Commit()) })),
					op("Collapse", func(w *trieWorld) string { return "c" + errs(w.t.Collapse()) }),
				}
				proofs := []Op{
					op("GetProof a", wrap(tProof("a"))),
					op("GetExistenceProof ab", wrap(tExist("ab"))),
					op("ValueIterator", wrap(func(t tr) string { return iterate(t.ValueIterator()) })),
				}
				more := []Op{
					op("Put b 2", wrap(tPut("b", "2"))),
					op("Delete a", wrap(tDel("a"))),
					op("IsDirty, Count, IsEmpty", func(w *trieWorld) string { return str(w.t.IsDirty()) }),
					op("Count", func(w *trieWorld) string { return str(w.t.Count()) }),
					op("IsEmpty", func(w *trieWorld) string { return str(w.t.IsEmpty()) }),
					op("CommitAndHash", func(w *trieWorld) string { return hex4(w.t.CommitAndHash()) }),
					op("Clone", func(w *trieWorld) string {
						c := w.t.Clone()
						s := str(c.Get([]byte("a"))) + str(c.Get([]byte("ab")))
						c.Put([]byte("zz"), "clone")
						return s
					}),
					op("PrintValues", func(w *trieWorld) string { return w.t.PrintValues() }),
					op("String", func(w *trieWorld) string { return w.t.String() }),
					op("PutValue a", func(w *trieWorld) string { return str(w.t.PutValue(tValue("x"))) }),
					op("ReversedValueIterator", func(w *trieWorld) string { return iterate(w.t.ReversedValueIterator()) }),
					op("Rebase", func(w *trieWorld) string {
						r, err := w.t.Rebase(w.d)
						if err != nil {
							return "error"
						}
						return hex4(r.HashValue()) + tGet("a")(r)
					}),
					op("Marshal", func(w *trieWorld) string {
						var b bytes.Buffer
						err := w.t.Marshal(&b)
						return b.String() + errs(err)
					}),
					op("UnmarshalNewTrie", func(w *trieWorld) string {
						var b bytes.Buffer
						rtl.Encode("k", &b)
						n, err := w.t.UnmarshalNewTrie(&b, reflect.TypeOf(""), func(v interface{}) []byte { return []byte(v.(string)) })
						if err != nil {
							return "error"
						}
						return iterate(n.ValueIterator())
					}),
					op("Dump", func(w *trieWorld) string {
						to := newKV()
						n := 0
						err := w.t.Dump(to, func(k, v []byte) { n++ })
						return str(to.kv.Len(), n) + errs(err)
					}),
				}
				names, mk := trieStates()
				for i := range names {
					base := Scenario{Name: "trie " + names[i], Kinds: kinds, New: mk[i], Digest: trieDigest, Bound: -1}
					all := append(append(append([]Op{}, core...), proofs...), more...)
					// the values are strings here; PutValue stores something else
					out = append(out, product(base, core, 1, 1)...)
					base.Bound = 3
					out = append(out, product(base, all, 1, 1)...)
					base.Bound = 2
					some := core
					if thorough || i == 3 {
						some = append(append([]Op{}, core...), proofs...)
					}
					out = append(out, product(base, some, 2, 1)...)
					out = append(out, product(base, some, 1, 1, 1)...)
					if thorough || i == 3 {
						out = append(out, product(base, core, 2, 2)...)
					}
					if thorough {
						out = append(out, product(base, all, 1, 1, 1)...)
						out = append(out, product(base, core, 2, 1, 1)...)
						base.Bound = 4
						out = append(out, product(base, all, 2, 1)...)
						out = append(out, product(base, all, 1, 1)...)
						base.Bound = -1
						out = append(out, product(base, core, 2, 1)...)
					}
				}
			}
			{
				mk := func() any {
					b := &bareTrie{m: map[string]string{"a": "0"}, inside: new(hist.Cell), log: new(hist.Log)}
					return &syncWorld{trie.NewSyncTrie(b), b}
				}
				wrap := func(f func(t tr) string) func(w *syncWorld) string {
					return func(w *syncWorld) string { return f(w.s) }
				}
				ops := []Op{
					op("Get a", wrap(tGet("a"))), op("Put a 1", wrap(tPut("a", "1"))), op("Delete a", wrap(tDel("a"))),
					op("HashValue", wrap(tHash)), op("Commit", wrap(func(t tr) string { return "c" + errs(t.Commit()) })),
					op("IsDirty", wrap(func(t tr) string { return str(t.IsDirty()) })),
					op("GetProof a", wrap(tProof("a"))), op("GetExistenceProof a", wrap(tExist("a"))),
					op("PutValue a", func(w *syncWorld) string { return str(w.s.PutValue(tValue("v"))) }),
					op("ValueIterator", wrap(func(t tr) string { return iterate(t.ValueIterator()) })),
				}
				base := Scenario{Name: "wrapped trie", New: mk, Bound: -1, Kinds: kinds, Digest: func(w any) string {
					x := w.(*syncWorld)
					return fmt.Sprint(x.b.log.List(), x.b.inside.Get(), x.b.dirty, tHash(x.s))
				}}
				out = append(out, product(base, ops, 1, 1)...)
				out = append(out, product(base, ops, 2, 1)...)
				out = append(out, product(base, ops[:4], 1, 1, 1)...)
			}
			for _, st := range []string{"", "x", "xy"} {
				st := st
				type W = *combWorld
				put := func(k, s string) Op {
					return op("Put "+k+" "+s, func(w W) string { return str(w.c.Put([]byte(k), w.subs[s])) })
				}
				del := func(k string) Op {
					return op("Delete "+k, func(w W) string { ok, v := w.c.Delete([]byte(k)); return str(ok) + w.name(v) })
				}
				ops := []Op{
					put("x", "s2"), put("y", "s1"), put("z", "s3"), del("x"),
					op("Get x", func(w W) string { v, ok := w.c.Get([]byte("x")); return str(ok) + w.name(v) }),
					op("HashValue", func(w W) string { return hex4(w.c.HashValue()) }),
					op("Commit", func(w W) string { return "c" + errs(w.c.Commit()) }),
					op("IsDirty", func(w W) string { return str(w.c.IsDirty()) }),
					op("GetProof x", func(w W) string {
						v, p, ok := w.c.GetProof([]byte("x"))
						return fmt.Sprint(w.name(v), ok, p)
					}),
					op("Keys", func(w W) string { return str(w.c.Keys()) }),
					op("InitTrie", func(w W) string { return "i" + errs(w.init(w.c, w.rec)) }),
				}
				base := Scenario{Name: "combined trie {" + st + "}", Kinds: kinds, Bound: -1, Digest: combDigest, New: func() any { return newComb(st) }}
				out = append(out, product(base, ops, 1, 1)...)
				base.Bound = 2
				if thorough {
					base.Bound = -1
				}
				out = append(out, product(base, ops, 2, 1)...)
				base.Bound = 2
				out = append(out, product(base, ops[3:], 1, 1, 1)...)
			}
			return out
		}})
}
