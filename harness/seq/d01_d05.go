package seq

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/ThinkiumGroup/go-common/db"

	"verif/harness/fw"
)

// ---------------------------------------------------------------------------------------------
// calls on a store, with every buffer scribbled over once the call is back

// scratch returns a buffer of its own with the bytes of s, of exactly that capacity or with room
// behind, depending on the last byte.
func scratch(s string) []byte {
	room := 0
	if n := len(s); n == 0 || s[n-1]&1 == 0 {
		room = 5
	}
	b := make([]byte, len(s), len(s)+room)
	copy(b, s)
	return b
}

func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0xEE
	}
}

type dop struct {
	kind byte // p put, n put nil, d delete, g get, h has, G GetNilError, b batch
	k, v string
	b    []dop
}

func (o dop) String() string {
	switch o.kind {
	case 'b':
		return fmt.Sprintf("batch%v", o.b)
	case 'p':
		return fmt.Sprintf("put(%q,%q)", o.k, o.v)
	case 'n':
		return fmt.Sprintf("put(%q,nil)", o.k)
	}
	return fmt.Sprintf("%c(%q)", o.kind, o.k)
}

func fillBatch(b db.Batch, ops []dop, m map[string]string) (bad string) {
	for _, o := range ops {
		k, v := scratch(o.k), scratch(o.v)
		n := b.Size()
		switch o.kind {
		case 'p':
			if err := b.Put(k, v); err != nil {
				return fmt.Sprintf("batch %s: %v", o, err)
			}
		case 'n':
			if err := b.Put(k, nil); err != nil {
				// refused
				if b.Size() != n {
					return fmt.Sprintf("%s refused but the size changed", o)
				}
				scribble(k)
				continue
			}
		case 'd':
			if err := b.Delete(k); err != nil {
				return fmt.Sprintf("batch %s: %v", o, err)
			}
		}
		if b.Size() != n+1 {
			return fmt.Sprintf("batch size %d after recording %s with size %d", b.Size(), o, n)
		}
		scribble(k)
		scribble(v)
		if m != nil {
			o.onMap(m)
		}
	}
	return ""
}

func (o dop) onMap(m map[string]string) {
	switch o.kind {
	case 'p':
		m[o.k] = o.v
	case 'n':
		m[o.k] = ""
	case 'd':
		delete(m, o.k)
	case 'b':
		for _, x := range o.b {
			x.onMap(m)
		}
	}
}

func checkGet(d db.Database, key string, m map[string]string) string {
	k := scratch(key)
	v, err := d.Get(k)
	if err != nil {
		return fmt.Sprintf("Get(%q): %v", key, err)
	}
	want, ok := m[key]
	if ok != (v != nil) || want != string(v) {
		return fmt.Sprintf("Get(%q) = %q (nil: %v), want %q present %v", key, v, v == nil, want, ok)
	}
	scribble(k)
	scribble(v)
	return ""
}

func checkHas(d db.Database, key string, m map[string]string) string {
	k := scratch(key)
	has, err := d.Has(k)
	if err != nil {
		return fmt.Sprintf("Has(%q): %v", key, err)
	}
	if _, ok := m[key]; ok != has {
		return fmt.Sprintf("Has(%q) = %v, want %v", key, has, ok)
	}
	scribble(k)
	return ""
}

// applyStore runs o on d, checks what it returns against the model and updates the model.
func applyStore(d db.Database, o dop, m map[string]string) string {
	k, v := scratch(o.k), scratch(o.v)
	switch o.kind {
	case 'p':
		if err := d.Put(k, v); err != nil {
			return fmt.Sprintf("%s: %v", o, err)
		}
		m[o.k] = o.v
	case 'n':
		if err := d.Put(k, nil); err == nil {
			m[o.k] = ""
		}
	case 'd':
		if err := d.Delete(k); err != nil {
			return fmt.Sprintf("%s: %v", o, err)
		}
		delete(m, o.k)
	case 'g':
		return checkGet(d, o.k, m)
	case 'h':
		return checkHas(d, o.k, m)
	case 'G':
		b, err := db.GetNilError(d, k)
		want := m[o.k]
		if want == "" {
			if b != nil || !errors.Is(err, db.ErrNotFound) {
				return fmt.Sprintf("GetNilError(%q) = %q,%v for no value", o.k, b, err)
			}
		} else if err != nil || string(b) != want {
			return fmt.Sprintf("GetNilError(%q) = %q,%v, want %q", o.k, b, err, want)
		}
		scribble(b)
	case 'b':
		b := d.NewBatch()
		if bad := fillBatch(b, o.b, nil); bad != "" {
			return bad
		}
		m2 := map[string]string{}
		for k, v := range m {
			m2[k] = v
		}
		for _, x := range o.b {
			if x.kind == 'n' { // may be refused: then it is not part of the batch
				b2 := d.NewBatch()
				if b2.Put(scratch(x.k), nil) != nil {
					continue
				}
			}
			x.onMap(m)
		}
		if err := d.Batch(b); err != nil {
			return fmt.Sprintf("%s: %v", o, err)
		}
	}
	scribble(k)
	scribble(v)
	return ""
}

func checkStore(d db.Database, keys []string, m map[string]string) string {
	for round := 0; round < 2; round++ { // the second round catches shared values and cached answers
		for _, k := range keys {
			if s := checkHas(d, k, m); s != "" {
				return s
			}
			if s := checkGet(d, k, m); s != "" {
				return s
			}
		}
	}
	return ""
}

// dstore makes fresh stores of one kind for one worker.
type dstore struct {
	name  string
	fresh func() db.Database
	base  func() map[string]string // contents of the database below, if there is something to see
	close func()
}

type dkind struct {
	name string
	mk   func(dir string) dstore
	cost int // 0 memory, 1 disk
	pfx  string
}

func clearLDB(l db.Database, keys []string) {
	for _, k := range keys {
		l.Delete([]byte(k))
	}
}

var dSeq atomic.Int64

func newDir(c *fw.Ctx) string {
	d := filepath.Join(c.Tmp, fmt.Sprintf("s%d", dSeq.Add(1)))
	os.MkdirAll(d, 0755)
	return d
}

func mustLDB(dir string) *db.LDB {
	l, err := db.NewLDB(dir)
	if err != nil {
		panic(err)
	}
	return l
}

func mustCached(dir string, n int) db.Database {
	l, err := db.NewCachedDBWithPath(dir, n)
	if err != nil {
		panic(err)
	}
	return l
}

// allKeys are the keys any history writes, prefixed ones included.
var dKeys = []string{"", "a", "ab"}

func dAllKeys(pfx ...string) []string {
	ks := append([]string{}, dKeys...)
	for _, p := range pfx {
		for _, k := range dKeys {
			ks = append(ks, p+k)
		}
	}
	return ks
}

func cachedOver(dir string, size int, under func() db.Database) func() db.Database {
	cd := mustCached(dir, size)
	first := true
	return func() db.Database {
		_, old := cd.(db.Replaceable).Replace("x", under())
		if first {
			old.Close()
			first = false
		}
		return cd
	}
}

func dkinds() []dkind {
	mem := func() db.Database { return db.NewMemDB() }
	ks := []dkind{
		{name: "MemDB", mk: func(string) dstore { return dstore{fresh: mem, close: func() {}} }},
		{name: "LDB", cost: 1, mk: func(dir string) dstore {
			l := mustLDB(dir)
			return dstore{fresh: func() db.Database { clearLDB(l, dKeys); return l }, close: func() { l.Close() }}
		}},
		{name: "NewCachedDBWithPath(0)", cost: 1, mk: func(dir string) dstore {
			l := mustCached(dir, 0)
			return dstore{fresh: func() db.Database { clearLDB(l, dKeys); return l }, close: func() { l.Close() }}
		}},
		{name: "cached(2) over its own LDB", cost: 1, mk: func(dir string) dstore {
			l := mustCached(dir, 2)
			return dstore{fresh: func() db.Database { clearLDB(l, dKeys); return l }, close: func() { l.Close() }}
		}},
	}
	for _, n := range []int{1, 2, 8} {
		n := n
		ks = append(ks, dkind{name: fmt.Sprintf("cached(%d) over MemDB", n), mk: func(dir string) dstore {
			return dstore{fresh: cachedOver(dir, n, mem), close: func() {}}
		}})
	}
	ks = append(ks, dkind{name: "cached(1) over LDB", cost: 1, mk: func(dir string) dstore {
		l := mustLDB(dir + "-l")
		return dstore{fresh: cachedOver(dir, 1, func() db.Database { clearLDB(l, dKeys); return l }), close: func() { l.Close() }}
	}})
	return ks
}

func viewKinds() []dkind {
	return []dkind{
		{name: "Temporary over MemDB", mk: func(string) dstore {
			return dstore{fresh: func() db.Database { return db.Temporary(db.NewMemDB()) }, close: func() {}}
		}},
		{name: "Temporary over LDB", cost: 1, mk: func(dir string) dstore {
			l := mustLDB(dir)
			return dstore{fresh: func() db.Database { return db.Temporary(l) }, close: func() { l.Close() }}
		}},
		{name: "Temporary over ReadOnly over cached over MemDB", mk: func(dir string) dstore {
			f := cachedOver(dir, 1, func() db.Database { return db.NewMemDB() })
			return dstore{fresh: func() db.Database { return db.Temporary(db.ReadOnly(f())) }, close: func() {}}
		}},
		{name: "prefix a over MemDB", mk: func(string) dstore {
			return dstore{fresh: func() db.Database { return prefixed(db.NewMemDB(), "a") }, close: func() {}}
		}},
		{name: "prefix nil over MemDB", mk: func(string) dstore {
			return dstore{fresh: func() db.Database { return prefixed(db.NewMemDB(), "") }, close: func() {}}
		}},
		{name: "prefix b over prefix a over MemDB", mk: func(string) dstore {
			return dstore{fresh: func() db.Database { return prefixed(prefixed(db.NewMemDB(), "a"), "b") }, close: func() {}}
		}},
		{name: "prefix a over LDB", cost: 1, mk: func(dir string) dstore {
			l := mustLDB(dir)
			return dstore{fresh: func() db.Database { clearLDB(l, dAllKeys("a")); return prefixed(l, "a") }, close: func() { l.Close() }}
		}},
		{name: "prefix b over prefix a over cached over LDB", cost: 1, mk: func(dir string) dstore {
			l := mustLDB(dir + "-l")
			f := cachedOver(dir, 2, func() db.Database { clearLDB(l, dAllKeys("ab")); return l })
			return dstore{fresh: func() db.Database { return prefixed(prefixed(f(), "a"), "b") }, close: func() { l.Close() }}
		}},
		{name: "Temporary over prefix a over MemDB", mk: func(string) dstore {
			return dstore{fresh: func() db.Database { return db.Temporary(prefixed(db.NewMemDB(), "a")) }, close: func() {}}
		}},
		{name: "prefix a over Temporary over MemDB", mk: func(string) dstore {
			return dstore{fresh: func() db.Database { return prefixed(db.Temporary(db.NewMemDB()), "a") }, close: func() {}}
		}},
	}
}

func prefixed(d db.Database, p string) db.Database {
	var b []byte
	if p != "" {
		b = scratch(p)
	}
	a := db.NewKeyPrefixedDataAdapter(d, b)
	scribble(b)
	return a.(db.Database)
}

func mapOps() []dop {
	var ops []dop
	for _, k := range dKeys {
		for _, v := range []string{"", "x", "yy"} {
			ops = append(ops, dop{kind: 'p', k: k, v: v})
		}
		ops = append(ops, dop{kind: 'd', k: k}, dop{kind: 'g', k: k}, dop{kind: 'h', k: k})
	}
	ops = append(ops,
		dop{kind: 'n', k: "a"}, dop{kind: 'G', k: "a"}, dop{kind: 'G', k: "ab"},
		dop{kind: 'b', b: []dop{{kind: 'p', k: "a", v: "x"}, {kind: 'd', k: "ab"}}},
		dop{kind: 'b', b: []dop{{kind: 'd', k: "a"}, {kind: 'p', k: "", v: "z"}}},
		dop{kind: 'b', b: []dop{{kind: 'p', k: "ab", v: "q"}, {kind: 'd', k: "ab"}, {kind: 'p', k: "ab", v: ""}}},
		dop{kind: 'b'},
	)
	return ops
}

// enumerate all sequences over n symbols of length exactly depth whose first symbol is first
func sequences(n, depth, first int, f func(idx []int) bool) {
	idx := make([]int, depth)
	idx[0] = first
	for {
		if !f(idx) {
			return
		}
		i := depth - 1
		for i > 0 {
			idx[i]++
			if idx[i] < n {
				break
			}
			idx[i] = 0
			i--
		}
		if i == 0 {
			return
		}
	}
}

func runD01(c *fw.Ctx) {
	ops := mapOps()
	kinds := append(dkinds(), viewKinds()...)
	type job struct{ kind, first int }
	var jobs []job
	for k := range kinds {
		for f := range ops {
			jobs = append(jobs, job{k, f})
		}
	}
	c.Parallel(len(jobs), func(ji int, s *fw.Slot) {
		j := jobs[ji]
		kd := kinds[j.kind]
		depth := c.Pick(4, 5)
		if kd.cost > 0 {
			depth = c.Pick(3, 4)
		}
		st := kd.mk(newDir(c))
		defer st.close()
		keys := dKeys
		for d := 1; d <= depth; d++ {
			if d == 1 && j.first != 0 {
				// lengths 1 are run once per first symbol by the loop below
			}
			sequences(len(ops), d, j.first, func(idx []int) bool {
				desc := func() string {
					var sb strings.Builder
					for _, i := range idx {
						sb.WriteString(ops[i].String() + " ")
					}
					return kd.name + ": " + sb.String()
				}
				s.Begin(desc)
				m := map[string]string{}
				d := st.fresh()
				for n, i := range idx {
					if bad := applyStore(d, ops[i], m); bad != "" {
						c.Fail("store-op", "%s\nstep %d: %s", desc(), n, bad)
					}
				}
				if bad := checkStore(d, keys, m); bad != "" {
					c.Fail("store-contents", "%s\nafterwards: %s", desc(), bad)
				}
				c.States.Add(1)
				c.Trans.Add(int64(len(idx)))
				c.Traces.Add(1)
				return !c.Expired()
			})
		}
	})
	// closing and reopening the on-disk stores
	type rjob struct {
		cached int
		first  int
	}
	var rj []rjob
	for _, n := range []int{-1, 0, 2} {
		for f := range ops {
			rj = append(rj, rjob{n, f})
		}
	}
	c.Parallel(len(rj), func(i int, s *fw.Slot) {
		j := rj[i]
		dir := newDir(c)
		open := func() db.Database {
			if j.cached < 0 {
				return mustLDB(dir)
			}
			return mustCached(dir, j.cached)
		}
		d := open()
		defer func() { d.Close() }()
		nd := c.Pick(2, 3)
		sequences(len(ops), nd, j.first, func(idx []int) bool {
			desc := func() string {
				var sb strings.Builder
				for _, i := range idx {
					sb.WriteString(ops[i].String() + " reopen ")
				}
				return fmt.Sprintf("on disk (cache %d): %s", j.cached, sb.String())
			}
			s.Begin(desc)
			m := map[string]string{}
			clearLDB(d, dKeys)
			for n, i := range idx {
				if bad := applyStore(d, ops[i], m); bad != "" {
					c.Fail("store-op", "%s\nstep %d: %s", desc(), n, bad)
				}
				if err := d.Close(); err != nil {
					c.Fail("store-close", "%s\nstep %d: %v", desc(), n, err)
				}
				d = open()
				if bad := checkStore(d, dKeys, m); bad != "" {
					c.Fail("store-reopen", "%s\nafter reopening: %s", desc(), bad)
				}
			}
			c.Traces.Add(1)
			c.States.Add(1)
			c.Trans.Add(int64(2 * len(idx)))
			return !c.Expired()
		})
	})
	c.Extra("store_kinds", len(kinds))
	c.Sample(ops[0].String() + " " + ops[10].String())
}

// ---------------------------------------------------------------------------------------------
// D02

// opFaultDB fails the n-th operation (of any kind) of the store below the cache. In ambiguous mode a
// failing write reports the error after taking effect.
type opFaultDB struct {
	*faultDB
	n, failAt int
	applied   bool
	hit       bool
}

func (d *opFaultDB) step() bool {
	d.n++
	if d.failAt == d.n-1 {
		d.hit = true
		return true
	}
	return false
}

func (d *opFaultDB) write1(f func() error) error {
	if d.step() {
		if d.applied {
			f()
		}
		return errInjected
	}
	return f()
}

func (d *opFaultDB) Put(k, v []byte) error {
	return d.write1(func() error { return d.faultDB.Put(k, v) })
}
func (d *opFaultDB) Delete(k []byte) error {
	return d.write1(func() error { return d.faultDB.Delete(k) })
}
func (d *opFaultDB) Batch(b db.Batch) error {
	return d.write1(func() error { return d.faultDB.Batch(b) })
}
func (d *opFaultDB) Has(k []byte) (bool, error) {
	if d.step() {
		return false, errInjected
	}
	return d.faultDB.Has(k)
}
func (d *opFaultDB) Get(k []byte) ([]byte, error) {
	if d.step() {
		return nil, errInjected
	}
	return d.faultDB.Get(k)
}

func runD02(c *fw.Ctx) {
	keys := []string{"a", "b", "c"}
	var ops []dop
	for _, k := range keys {
		ops = append(ops, dop{kind: 'g', k: k}, dop{kind: 'h', k: k}, dop{kind: 'p', k: k, v: "1"}, dop{kind: 'd', k: k})
	}
	ops = append(ops, dop{kind: 'p', k: "a", v: "22"}, dop{kind: 'p', k: "b", v: ""},
		dop{kind: 'b', b: []dop{{kind: 'p', k: "a", v: "3"}, {kind: 'd', k: "b"}}},
		dop{kind: 'b', b: []dop{{kind: 'd', k: "a"}, {kind: 'p', k: "b", v: "3"}}},
		dop{kind: 'r'}, // replace the store below by another one
		dop{kind: 'B'}, // apply again the batch made before
	)
	starts := []map[string]string{{}, {"a": "0", "b": "0"}}
	type job struct{ size, start, first, mode int }
	var jobs []job
	for _, sz := range []int{1, 2, 3} {
		for st := range starts {
			for f := range ops {
				jobs = append(jobs, job{sz, st, f, 0})
			}
		}
	}
	c.Parallel(len(jobs), func(ji int, s *fw.Slot) {
		j := jobs[ji]
		cd := mustCached(newDir(c), j.size)
		rp := cd.(db.Replaceable)
		_, old := rp.Replace("", newFaultDB())
		old.Close()
		run := func(idx []int, failAt int, applied bool, desc func() string) (n int, hit bool) {
			mkBase := func(v map[string]string) *opFaultDB {
				b := &opFaultDB{faultDB: newFaultDB(), failAt: -1, applied: applied}
				for k, x := range v {
					b.m[k] = x
				}
				return b
			}
			base := mkBase(starts[j.start])
			base.failAt = failAt
			rp.Replace("base", base)
			other := mkBase(map[string]string{"a": "other", "c": "other"})
			var lastBatch db.Batch
			for step, i := range idx {
				o := ops[i]
				before := base.n
				was := base.hit
				var err error
				k, v := scratch(o.k), scratch(o.v)
				switch o.kind {
				case 'g':
					var r []byte
					r, err = cd.Get(k)
					if err == nil {
						w, ok := base.look(o.k)
						if ok != (r != nil) || string(r) != w {
							c.Fail("cached-read", "%s\nstep %d: Get(%q) = %q (nil %v), the store below has %q (%v)", desc(), step, o.k, r, r == nil, w, ok)
						}
						scribble(r)
					}
				case 'h':
					var r bool
					r, err = cd.Has(k)
					if _, ok := base.look(o.k); err == nil && ok != r {
						c.Fail("cached-read", "%s\nstep %d: Has(%q) = %v, the store below has it: %v", desc(), step, o.k, r, ok)
					}
				case 'p', 'd', 'b', 'B':
					want := map[string]string{}
					for a, b := range base.m {
						want[a] = b
					}
					switch o.kind {
					case 'p':
						err = cd.Put(k, v)
						want[o.k] = o.v
					case 'd':
						err = cd.Delete(k)
						delete(want, o.k)
					case 'b':
						b := cd.NewBatch()
						fillBatch(b, o.b, want)
						err = cd.Batch(b)
						lastBatch = b
					case 'B':
						if lastBatch == nil {
							break
						}
						b := cd.NewBatch() // an unused one in between
						b.Put([]byte("a"), []byte("unused"))
						err = cd.Batch(lastBatch)
						want = base.m
					}
					if err == nil && !sameMap(want, base.m) {
						c.Fail("cached-write", "%s\nstep %d: %s reported success but the store below holds %v", desc(), step, o, base.m)
					}
				case 'r':
					op, ob := rp.Replace("other", other)
					if ob != db.Database(base) {
						c.Fail("cached-replace", "%s\nstep %d: Replace returned another store (path %q)", desc(), step, op)
					}
					base, other = other, base
					lastBatch = nil
				}
				scribble(k)
				scribble(v)
				if base.hit && !was && base.n > before && err == nil && o.kind != 'r' {
					c.Fail("cached-swallow", "%s\nstep %d: %s failed on the store below but reported success", desc(), step, o)
				}
				if err != nil && !(base.hit && !was) {
					c.Fail("cached-error", "%s\nstep %d: %s: %v", desc(), step, o, err)
				}
			}
			n = base.n
			hit = base.hit || other.hit
			if other.n > 0 && n < other.n {
				n = other.n
			}
			base.failAt, other.failAt = -1, -1
			m := base.m
			if bad := checkStore(cd, keys, m); bad != "" {
				c.Fail("cached-end", "%s\nafterwards: %s", desc(), bad)
			}
			return
		}
		for d := 1; d <= c.Pick(4, 5); d++ {
			sequences(len(ops), d, j.first, func(idx []int) bool {
				fa, ap := -1, false
				desc := func() string {
					var sb strings.Builder
					for _, i := range idx {
						sb.WriteString(ops[i].String() + " ")
					}
					return fmt.Sprintf("cache of %d over %v, failing operation %d (after taking effect: %v): %s", j.size, starts[j.start], fa, ap, sb.String())
				}
				s.Begin(desc)
				n, _ := run(idx, -1, false, desc)
				c.Evals.Add(1)
				if d <= c.Pick(3, 4) {
					for f := 0; f < n; f++ {
						for _, a := range []bool{false, true} {
							fa, ap = f, a
							if _, hit := run(idx, f, a, desc); hit {
								c.Nontriv.Add(1)
							}
							c.Evals.Add(1)
						}
					}
				}
				return !c.Expired()
			})
		}
	})
	c.Sample("get(a) put(b,1) batch[...] on a cache of 1 with the second store operation failing")
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------------------------------------
// D03

func runD03(c *fw.Ctx) {
	// every batch over two keys (and one of them again) on every kind of store
	prim := []dop{{kind: 'p', k: "a", v: "1"}, {kind: 'p', k: "a", v: ""}, {kind: 'd', k: "a"}, {kind: 'p', k: "ab", v: "2"}, {kind: 'd', k: "ab"},
		{kind: 'p', k: "", v: "3"}, {kind: 'n', k: "a"}}
	kinds := append(dkinds(), viewKinds()...)
	starts := [][]dop{nil, {{kind: 'p', k: "a", v: "0"}, {kind: 'p', k: "", v: "0"}}}
	type job struct{ kind, start, first int }
	var jobs []job
	for k := range kinds {
		for st := range starts {
			for f := range prim {
				jobs = append(jobs, job{k, st, f})
			}
		}
	}
	c.Parallel(len(jobs), func(ji int, s *fw.Slot) {
		j := jobs[ji]
		kd := kinds[j.kind]
		st := kd.mk(newDir(c))
		defer st.close()
		max := c.Pick(4, 5)
		if kd.cost > 0 {
			max = c.Pick(3, 4)
		}
		for n := 1; n <= max; n++ {
			sequences(len(prim), n, j.first, func(idx []int) bool {
				var ops []dop
				for _, i := range idx {
					ops = append(ops, prim[i])
				}
				desc := func() string {
					return fmt.Sprintf("%s: start %v, batch %v", kd.name, starts[j.start], ops)
				}
				s.Begin(desc)
				d := st.fresh()
				m := map[string]string{}
				for _, o := range starts[j.start] {
					applyStore(d, o, m)
				}
				// fill the caches
				if bad := checkStore(d, dKeys, m); bad != "" {
					c.Fail("batch-start", "%s: %s", desc(), bad)
				}
				b := d.NewBatch()
				never := d.NewBatch() // never applied
				after := map[string]string{}
				for k, v := range m {
					after[k] = v
				}
				if bad := fillBatch(b, ops, after); bad != "" {
					c.Fail("batch-record", "%s: %s", desc(), bad)
				}
				fillBatch(never, []dop{{kind: 'p', k: "a", v: "never"}, {kind: 'd', k: ""}}, nil)
				if bad := checkStore(d, dKeys, m); bad != "" {
					c.Fail("batch-unapplied", "%s: before applying: %s", desc(), bad)
				}
				if err := d.Batch(b); err != nil {
					c.Fail("batch-error", "%s: %v", desc(), err)
				}
				if bad := checkStore(d, dKeys, after); bad != "" {
					c.Fail("batch-applied", "%s: after applying: %s", desc(), bad)
				}
				// recording more has no effect until it is applied again; then everything applies again
				again := map[string]string{}
				if bad := fillBatch(b, []dop{{kind: 'p', k: "ab", v: "more"}}, nil); bad != "" {
					c.Fail("batch-record", "%s: %s", desc(), bad)
				}
				if bad := checkStore(d, dKeys, after); bad != "" {
					c.Fail("batch-unapplied", "%s: after recording more: %s", desc(), bad)
				}
				if n%2 == 0 {
					applyStore(d, dop{kind: 'p', k: "a", v: "between"}, after)
				}
				if err := d.Batch(b); err != nil {
					c.Fail("batch-error", "%s: applied again: %v", desc(), err)
				}
				for k, v := range after {
					again[k] = v
				}
				for _, o := range ops {
					if o.kind == 'n' && d.NewBatch().Put(scratch(o.k), nil) != nil {
						continue
					}
					o.onMap(again)
				}
				again["ab"] = "more"
				if bad := checkStore(d, dKeys, again); bad != "" {
					c.Fail("batch-again", "%s: after applying it again: %s", desc(), bad)
				}
				c.Evals.Add(1)
				c.Nontriv.Add(1)
				return !c.Expired()
			})
		}
	})
	// stores that cannot take a batch
	failing := func(name string, d db.Database, base *faultDB) {
		d1 := d
		b := d1.NewBatch()
		fillBatch(b, []dop{{kind: 'p', k: "a", v: "1"}, {kind: 'd', k: "b"}}, nil)
		var before map[string]string
		if base != nil {
			before = base.clone().m
		}
		var err error
		if p := fw.Try(func() { err = d1.Batch(b) }); p != nil {
			c.Fail("batch-failing", "%s: panic %v", name, p)
		}
		if err == nil {
			c.Fail("batch-failing", "%s: no error", name)
		}
		if base != nil && !sameMap(before, base.m) {
			c.Fail("batch-failing", "%s: contents changed", name)
		}
		c.Evals.Add(1)
		c.Nontriv.Add(1)
	}
	mkf := func() *faultDB {
		b := newFaultDB()
		b.m["b"], b.m["pb"] = "old", "old"
		b.failWrite = func(int) bool { return true }
		return b
	}
	fb := mkf()
	failing("prefix over failing store", prefixed(fb, "p"), fb)
	fb = mkf()
	failing("nested prefix over failing store", prefixed(prefixed(fb, "p"), "q"), fb)
	fb = mkf()
	failing("no prefix over failing store", prefixed(fb, ""), fb)
	for n := 1; n <= 2; n++ {
		fb = mkf()
		cd := mustCached(newDir(c), n)
		_, old := cd.(db.Replaceable).Replace("", fb)
		old.Close()
		failing("cached over failing store", cd, fb)
		failing("prefix over cached over failing store", prefixed(cd, "p"), fb)
	}
	closed := mustLDB(newDir(c))
	closed.Close()
	failing("closed LDB", closed, nil)
	failing("prefix over closed LDB", prefixed(closed, "p"), nil)
	cc := mustCached(newDir(c), 2)
	cc.Close()
	failing("closed cached LDB", cc, nil)

	runBatchWrite(c)
	c.Sample("batch [put(a,1) del(a) put(,3)] on prefix b over prefix a over cached over LDB")
}

// countingDB counts the batches handed to it and can fail the n-th one.
type countingDB struct {
	*faultDB
	batches int
	failAt  int
}

func (d *countingDB) Batch(b db.Batch) error {
	n := d.batches
	d.batches++
	if n == d.failAt {
		return errInjected
	}
	return d.faultDB.Batch(b)
}

func runBatchWrite(c *fw.Ctx) {
	maxLen := c.Pick(8, 10)
	type job struct{ length, thr int }
	var jobs []job
	for l := 0; l <= maxLen; l++ {
		for t := -1; t <= maxLen+1; t++ {
			jobs = append(jobs, job{l, t})
		}
	}
	stores := []string{"recording", "MemDB", "prefixed MemDB", "temporary"}
	c.Parallel(len(jobs), func(ji int, s *fw.Slot) {
		j := jobs[ji]
		for skip := 0; skip < 1<<j.length; skip++ {
			for prodFail := -1; prodFail < j.length; prodFail++ {
				accepted := 0 // elements accepted before the producer fails
				for i := 0; i < j.length && i != prodFail; i++ {
					if skip&(1<<i) == 0 {
						accepted++
					}
				}
				maxB := 0
				for storeFail := -1; storeFail <= maxB; storeFail++ {
					for sk, sname := range stores {
						if storeFail >= 0 && sk != 0 {
							continue
						}
						desc := func() string {
							return fmt.Sprintf("BatchWrite on %s, length %d, threshold %d, skipped mask %b, producer failing at %d, store failing at batch %d", sname, j.length, j.thr, skip, prodFail, storeFail)
						}
						s.Begin(desc)
						rec := &countingDB{faultDB: newFaultDB(), failAt: storeFail}
						var d db.Database
						switch sk {
						case 0:
							d = rec
						case 1:
							d = db.NewMemDB()
						case 2:
							d = prefixed(db.NewMemDB(), "p")
						case 3:
							d = db.Temporary(db.NewMemDB())
						}
						var calls []int
						errProd := errors.New("producer")
						n, err := db.BatchWrite(d, j.thr, j.length, func(i int, w db.Writer) (bool, error) {
							calls = append(calls, i)
							if i == prodFail {
								return false, errProd
							}
							if skip&(1<<i) != 0 {
								return false, nil
							}
							// most elements are one key, some are two, some are a key and a removal
							for x := 0; x <= i%3; x++ {
								k := []byte{"kKr"[x], byte(i)}
								v := []byte{'v', byte(i)}
								if x == 2 {
									if e := w.Delete(k); e != nil {
										c.Fail("batchwrite", "%s: delete: %v", desc(), e)
									}
								} else if e := w.Put(k, v); e != nil {
									c.Fail("batchwrite", "%s: put: %v", desc(), e)
								}
								scribble(k)
								scribble(v)
							}
							return true, nil
						})
						for x, i := range calls {
							if x != i {
								c.Fail("batchwrite", "%s: elements asked for: %v", desc(), calls)
							}
						}
						// which elements are stored
						stored := 0
						for i := 0; i < j.length; i++ {
							v, _ := d.Get([]byte{'k', byte(i)})
							if v2, _ := d.Get([]byte{'K', byte(i)}); (v2 != nil) != (v != nil && i%3 > 0) {
								c.Fail("batchwrite", "%s: element %d stored as %q and %q", desc(), i, v, v2)
							}
							if v != nil {
								stored++
								if skip&(1<<i) != 0 || (prodFail >= 0 && i >= prodFail) || !bytes.Equal(v, []byte{'v', byte(i)}) {
									c.Fail("batchwrite", "%s: element %d stored as %q", desc(), i, v)
								}
							} else if err == nil && skip&(1<<i) == 0 {
								c.Fail("batchwrite", "%s: element %d is not stored although there was no error", desc(), i)
							}
						}
						if sk == 0 && storeFail < 0 && rec.batches > maxB {
							maxB = rec.batches - 1
						}
						failedStore := sk == 0 && storeFail >= 0 && rec.batches > storeFail
						if n != stored {
							c.Fail("batchwrite", "%s: count %d, stored %d", desc(), n, stored)
						}
						if sk == 0 {
							seen := map[string]bool{}
							for _, w := range rec.log {
								if seen[w.k] {
									c.Fail("batchwrite", "%s: an element was written twice", desc())
								}
								seen[w.k] = true
							}
						}
						switch {
						case failedStore:
							if !errors.Is(err, errInjected) {
								c.Fail("batchwrite", "%s: the store failed but the error is %v", desc(), err)
							}
							if rec.batches != storeFail+1 {
								c.Fail("batchwrite", "%s: went on after the store failed", desc())
							}
						case prodFail >= 0:
							if !errors.Is(err, errProd) {
								c.Fail("batchwrite", "%s: the producer failed but the error is %v", desc(), err)
							}
							if len(calls) != prodFail+1 {
								c.Fail("batchwrite", "%s: asked for %d elements", desc(), len(calls))
							}
							if j.thr > 0 && stored != accepted/j.thr*j.thr {
								c.Fail("batchwrite", "%s: %d of %d accepted elements stored", desc(), stored, accepted)
							}
						default:
							if err != nil || n != accepted || len(calls) != j.length {
								c.Fail("batchwrite", "%s: %d,%v, want %d (%d elements asked for)", desc(), n, err, accepted, len(calls))
							}
						}
						c.Evals.Add(1)
						if accepted > 0 && (skip > 0 || prodFail >= 0 || storeFail >= 0) {
							c.Nontriv.Add(1)
						}
					}
				}
			}
		}
	})
}

// ---------------------------------------------------------------------------------------------
// D04

func runD04(c *fw.Ctx) {
	universe := []string{"", "a", "b", "ab", "ba", "aa", "abc"}
	vkeys := []string{"", "a", "b"}
	var pairs [][2]string
	for _, p := range universe {
		for _, q := range universe {
			if !strings.HasPrefix(p, q) && !strings.HasPrefix(q, p) {
				pairs = append(pairs, [2]string{p, q})
			}
		}
	}
	pairs = append(pairs, [2]string{"", "-"}, [2]string{"a", "-"}) // single views
	type vop struct {
		view int
		o    dop
	}
	var vops []vop
	for v := 0; v < 2; v++ {
		for _, k := range vkeys {
			vops = append(vops, vop{v, dop{kind: 'p', k: k, v: fmt.Sprint(v, k)}}, vop{v, dop{kind: 'd', k: k}})
		}
		vops = append(vops, vop{v, dop{kind: 's', k: "a", v: "saved"}},
			vop{v, dop{kind: 'b', b: []dop{{kind: 'p', k: "a", v: "B"}, {kind: 'd', k: "b"}, {kind: 'p', k: "", v: ""}}}},
			vop{v, dop{kind: 'c'}}, vop{v, dop{kind: 'R'}})
	}
	shapes := []string{"adapter", "nested", "clone", "rebased"}
	type job struct{ pair, shape, first int }
	var jobs []job
	for p := range pairs {
		for sh := range shapes {
			for f := range vops {
				jobs = append(jobs, job{p, sh, f})
			}
		}
	}
	mkView := func(base db.Database, pfx string, shape int) db.DatabasedAdapter {
		buf := scratch(pfx)
		if pfx == "" {
			buf = nil
		}
		var a db.DatabasedAdapter
		switch shape {
		case 0:
			a = db.NewKeyPrefixedDataAdapter(base, buf)
		case 1:
			in := base
			for i := range buf {
				in = db.NewKeyPrefixedDataAdapter(in, buf[i:i+1]).(db.Database)
			}
			if len(buf) == 0 {
				in = db.NewKeyPrefixedDataAdapter(in, nil).(db.Database)
			}
			a = in.(db.DatabasedAdapter)
		case 2:
			a = db.NewKeyPrefixedDataAdapter(base, buf).Clone().(db.DatabasedAdapter)
		case 3:
			x, err := db.RebaseAdapter(db.NewKeyPrefixedDataAdapter(newFaultDB(), buf), base)
			if err != nil {
				c.Fail("prefix-rebase", "RebaseAdapter: %v", err)
			}
			a = x.(db.DatabasedAdapter)
		}
		scribble(buf)
		return a
	}
	c.Parallel(len(jobs), func(ji int, s *fw.Slot) {
		j := jobs[ji]
		pp := pairs[j.pair]
		if pp[1] == "-" && vops[j.first].view == 1 {
			return
		}
		for d := 1; d <= c.Pick(3, 4); d++ {
			sequences(len(vops), d, j.first, func(idx []int) bool {
				for _, i := range idx {
					if pp[1] == "-" && vops[i].view == 1 {
						return true
					}
				}
				desc := func() string {
					var sb strings.Builder
					for _, i := range idx {
						fmt.Fprintf(&sb, "%q:%v ", pp[vops[i].view], vops[i].o)
					}
					return fmt.Sprintf("views %q (%s): %s", pp, shapes[j.shape], sb.String())
				}
				s.Begin(desc)
				base := newFaultDB()
				base.m["zz"] = "foreign"
				views := [2]db.DatabasedAdapter{mkView(base, pp[0], j.shape), nil}
				if pp[1] != "-" {
					views[1] = mkView(base, pp[1], j.shape)
				}
				models := [2]map[string]string{{}, {}}
				if pp[0] == "" {
					models[0]["zz"] = "foreign"
				}
				for step, i := range idx {
					v := vops[i].view
					m := models[v]
					a := views[v]
					switch vops[i].o.kind {
					case 's':
						k, val := scratch(vops[i].o.k), scratch(vops[i].o.v)
						if err := a.Save(k, val); err != nil {
							c.Fail("prefix-save", "%s step %d: %v", desc(), step, err)
						}
						scribble(k)
						scribble(val)
						m[vops[i].o.k] = vops[i].o.v
					case 'c': // continue with a clone; the original must not matter any more
						views[v] = a.Clone().(db.DatabasedAdapter)
					case 'R': // a rebased copy works elsewhere; the view itself stays
						elsewhere := newFaultDB()
						r, err := a.Rebase(elsewhere)
						if err != nil {
							c.Fail("prefix-rebase", "%s step %d: %v", desc(), step, err)
						}
						// a nested view is rebased at its own layer: only its last prefix is kept
						p := pp[v]
						if j.shape == 1 && len(p) > 0 {
							p = p[len(p)-1:]
						}
						r.Save([]byte("k"), []byte("moved"))
						if len(elsewhere.m) != 1 || elsewhere.m[p+"k"] != "moved" {
							c.Fail("prefix-rebase", "%s step %d: the rebased adapter wrote %v", desc(), step, elsewhere.m)
						}
					default:
						if bad := applyStore(a.(db.Database), vops[i].o, m); bad != "" {
							c.Fail("prefix-op", "%s step %d: %s", desc(), step, bad)
						}
					}
				}
				want := map[string]string{"zz": "foreign"}
				for v := 0; v < 2; v++ {
					if views[v] == nil {
						continue
					}
					for k, x := range models[v] {
						want[pp[v]+k] = x
					}
					if bad := checkStore(views[v].(db.Database), append([]string{"k"}, vkeys...), models[v]); bad != "" {
						c.Fail("prefix-view", "%s: view %q afterwards: %s", desc(), pp[v], bad)
					}
					for _, k := range vkeys {
						b, err := views[v].Load([]byte(k))
						w, ok := models[v][k]
						if err != nil || ok != (b != nil) || string(b) != w {
							c.Fail("prefix-view", "%s: view %q: Load(%q) = %q, %v", desc(), pp[v], k, b, err)
						}
					}
				}
				if !sameMap(want, base.m) {
					c.Fail("prefix-base", "%s: the database below holds %v, want %v", desc(), base.m, want)
				}
				c.States.Add(1)
				c.Trans.Add(int64(len(idx)))
				c.Traces.Add(1)
				return !c.Expired()
			})
		}
	})
	// the key functions
	strs := []string{"", "a", "b", "ab", "abc"}
	for _, p := range strs {
		for _, q := range strs {
			for _, k := range strs {
				for _, nilp := range []bool{false, true} {
					pb, qb, kb := []byte(p), []byte(q), []byte(k)
					if nilp {
						if p == "" {
							pb = nil
						}
						if q == "" {
							qb = nil
						}
						if k == "" {
							kb = nil
						}
					}
					r1 := db.PrefixKey(pb, kb)
					r2 := db.PrefixKey2(pb, qb, kb)
					if string(r1) != p+k || string(r2) != p+q+k {
						c.Fail("prefix-key", "PrefixKey(%q,%q) = %q, PrefixKey2(.,%q,.) = %q", p, k, r1, q, r2)
					}
					scribble(r1)
					scribble(r2)
					if string(pb) != p || string(qb) != q || string(kb) != k {
						c.Fail("prefix-key", "the result of PrefixKey shares memory with %q %q %q", p, q, k)
					}
				}
			}
		}
	}
	// the content-addressed adapter
	ta := db.NewTransparentDataAdapter()
	for _, k := range strs {
		for _, cl := range []bool{false, true} {
			x := ta
			if cl {
				x = ta.Clone()
			}
			if err := x.Save([]byte(k), []byte("v")); err != nil {
				c.Fail("transparent", "Save: %v", err)
			}
			y, err := db.RebaseAdapter(x, newFaultDB())
			if err != nil || y == nil {
				c.Fail("transparent", "RebaseAdapter: %v", err)
			}
			v, err := y.Load([]byte(k))
			if err != nil || string(v) != k {
				c.Fail("transparent", "Load(%q) = %q %v", k, v, err)
			}
		}
	}
	if a, err := db.RebaseAdapter(nil, newFaultDB()); a != nil || err != nil {
		c.Fail("rebase-nil", "RebaseAdapter(nil) = %v, %v", a, err)
	}
	c.Sample(fmt.Sprint(pairs))
}

// ---------------------------------------------------------------------------------------------
// D05

func runD05(c *fw.Ctx) {
	keys := []string{"", "a", "b"}
	var vops []dop
	for _, k := range keys[1:] {
		vops = append(vops, dop{kind: 'p', k: k, v: "v"}, dop{kind: 'p', k: k, v: ""}, dop{kind: 'd', k: k}, dop{kind: 'g', k: k}, dop{kind: 'h', k: k})
	}
	vops = append(vops, dop{kind: 'n', k: "a"}, dop{kind: 'p', k: "", v: "e"}, dop{kind: 'd', k: ""},
		dop{kind: 'b', b: []dop{{kind: 'p', k: "a", v: "B"}, {kind: 'd', k: "b"}}},
		dop{kind: 'b', b: []dop{{kind: 'd', k: "a"}, {kind: 'p', k: "b", v: "C"}, {kind: 'd', k: "a"}}},
		dop{kind: 'C'}) // close the view
	nview := len(vops)
	// the same directly on the database below, and a fresh view
	var ops []dop
	ops = append(ops, vops...)
	ops = append(ops, dop{kind: 'P', k: "a", v: "base2"}, dop{kind: 'D', k: "a"}, dop{kind: 'P', k: "b", v: "base3"}, dop{kind: 'V'})
	starts := []map[string]string{{}, {"a": "0"}, {"a": "0", "b": "", "": "e0"}}
	views := []string{"temporary", "temporary of temporary", "temporary of readonly", "temporary of prefixed", "readonly", "readonly of temporary", "readonly of readonly", "prefixed readonly"}
	type job struct{ view, start, first int }
	var jobs []job
	for v := range views {
		for st := range starts {
			for f := range ops {
				jobs = append(jobs, job{v, st, f})
			}
		}
	}
	c.Parallel(len(jobs), func(ji int, s *fw.Slot) {
		j := jobs[ji]
		vname := views[j.view]
		ro := strings.HasPrefix(vname, "readonly") || strings.HasPrefix(vname, "prefixed readonly")
		for d := 1; d <= c.Pick(4, 5); d++ {
			if d == 4 && !c.Thorough && j.view != 0 && j.view != 4 {
				continue
			}
			sequences(len(ops), d, j.first, func(idx []int) bool {
				desc := func() string {
					var sb strings.Builder
					for _, i := range idx {
						sb.WriteString(ops[i].String() + " ")
					}
					return fmt.Sprintf("%s over %v: %s", vname, starts[j.start], sb.String())
				}
				s.Begin(desc)
				base := newFaultDB()
				for k, v := range starts[j.start] {
					base.m[k] = v
				}
				mkv := func() db.Database {
					switch j.view {
					case 0:
						return db.Temporary(base)
					case 1:
						return db.Temporary(db.Temporary(base))
					case 2:
						return db.Temporary(db.ReadOnly(base))
					case 3:
						return db.Temporary(prefixed(base, ""))
					case 4:
						return db.ReadOnly(base)
					case 5:
						return db.ReadOnly(db.Temporary(base))
					case 6:
						return db.ReadOnly(db.ReadOnly(base))
					default:
						return prefixed(db.ReadOnly(base), "")
					}
				}
				v := mkv()
				local := map[string]*string{} // what the view itself has recorded: nil is deleted
				baseModel := map[string]string{}
				for k, x := range starts[j.start] {
					baseModel[k] = x
				}
				visible := func() map[string]string {
					m := map[string]string{}
					for k, x := range baseModel {
						m[k] = x
					}
					for k, x := range local {
						if x == nil {
							delete(m, k)
						} else {
							m[k] = *x
						}
					}
					return m
				}
				for step, i := range idx {
					o := ops[i]
					switch o.kind {
					case 'P':
						base.m[o.k] = o.v
						baseModel[o.k] = o.v
						continue
					case 'D':
						delete(base.m, o.k)
						delete(baseModel, o.k)
						continue
					case 'V':
						v = mkv()
						local = map[string]*string{}
						continue
					case 'C':
						err := v.Close()
						if ro && vname != "prefixed readonly" && err == nil {
							c.Fail("readonly-close", "%s: closing the read-only view was accepted", desc())
						}
						if !ro && err != nil {
							c.Fail("overlay-close", "%s: %v", desc(), err)
						}
						continue
					}
					m := visible()
					if ro && o.kind != 'g' && o.kind != 'h' {
						k, val := scratch(o.k), scratch(o.v)
						var err error
						switch o.kind {
						case 'p':
							err = v.Put(k, val)
						case 'n':
							err = v.Put(k, nil)
						case 'd':
							err = v.Delete(k)
						case 'b':
							b := v.NewBatch()
							if b == nil {
								c.Fail("readonly-batch", "%s step %d: no batch", desc(), step)
							}
							fillBatch(b, o.b, nil)
							err = v.Batch(b)
						}
						if err == nil {
							c.Fail("readonly-accepts", "%s step %d: %s was accepted", desc(), step, o)
						}
						continue
					}
					bad := applyStore(v, o, m)
					if bad != "" {
						c.Fail("view-op", "%s step %d: %s", desc(), step, bad)
					}
					set := func(x dop) {
						if x.kind == 'd' {
							local[x.k] = nil
						} else if x.kind == 'p' {
							val := x.v
							local[x.k] = &val
						} else if x.kind == 'n' {
							if val, ok := m[x.k]; ok && val == "" {
								local[x.k] = &val
							}
						}
					}
					if o.kind == 'b' {
						for _, x := range o.b {
							set(x)
						}
					} else if o.kind == 'n' {
						before := visible()
						if before[o.k] != m[o.k] {
							e := ""
							local[o.k] = &e
						}
					} else {
						set(o)
					}
				}
				if bad := checkStore(v, keys, visible()); bad != "" {
					c.Fail("view-contents", "%s: afterwards: %s", desc(), bad)
				}
				if !sameMap(base.m, baseModel) || len(base.log) != 0 || base.wcount != 0 {
					c.Fail("view-writes-through", "%s: the database below was modified: %v, want %v (log %v)", desc(), base.m, baseModel, base.log)
				}
				c.States.Add(1)
				c.Trans.Add(int64(len(idx)))
				c.Traces.Add(1)
				return !c.Expired()
			})
		}
	})
	_ = nview
	// read errors of the database below are not reported as absence
	for _, name := range []string{"temporary", "readonly"} {
		for _, k := range keys {
			base := newFaultDB()
			base.m[k] = "v"
			base.failRead = func(string) bool { return true }
			var v db.Database
			if name == "temporary" {
				v = db.Temporary(base)
			} else {
				v = db.ReadOnly(base)
			}
			if b, err := v.Get([]byte(k)); err == nil {
				c.Fail("view-read-error", "%s: Get(%q) = %q without error although the database below failed", name, k, b)
			}
			c.Traces.Add(1)
		}
	}
	c.Sample("put(a,v) D(a) batch[...] g(a) on temporary of readonly")
	sort.Strings(keys)
}

func init() {
	fw.Register(fw.Check{ID: "D01", Level: fw.MC, Run: runD01,
		Rule: "all histories of put/get/has/delete/batch over three keys (the empty one and prefixes included), three values and nil up to the depth, on every kind of store, every buffer scribbled after every call, all keys read twice at the end; on-disk stores also closed and reopened after every step"})
	fw.Register(fw.Check{ID: "D02", Level: fw.Faults, Run: runD02,
		Rule: "all histories to the depth over three keys for caches of 1..3 entries, without failure and with each operation of the store below failing in turn, before or after taking effect; every cached answer is compared with the store below; non-trivial: the injected failure was reached"})
	fw.Register(fw.Check{ID: "D03", Level: fw.Faults, Run: runD03,
		Rule: "every batch up to the length over seven operations on every kind of store and view, from two start contents, applied once, extended and applied again; every BatchWrite with all lengths, thresholds, skip patterns, producer and store failures within bounds"})
	fw.Register(fw.Check{ID: "D04", Level: fw.MC, Run: runD04,
		Rule: "all histories to the depth over two views for every pair of prefixes neither extending the other, four ways of making the views; contents of the shared database compared exactly"})
	fw.Register(fw.Check{ID: "D05", Level: fw.MC, Run: runD05,
		Rule: "all histories to the depth of operations through eight kinds of views and directly below them; contents of the view and write log of the database below compared with the model"})
}
