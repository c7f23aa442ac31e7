package main

import (
	"errors"
	"os"

	"github.com/ThinkiumGroup/go-common/db"
	"verif/sched"
)

// a world of one or two stores over colliding keys
type dbWorld struct {
	d    db.Database // the store under test
	base db.Database // the store underneath, or nil
}

func show(b []byte, err error) string {
	s := "nil"
	if b != nil {
		s = string(b)
	}
	if err != nil {
		if errors.Is(err, db.ErrReadOnly) {
			return s + " read-only"
		}
		return s + " error"
	}
	return s
}

// scribbled hands out a slice the caller overwrites after the call, as callers may.
func scribbled(s string, f func(b []byte)) {
	b := []byte(s)
	f(b)
	for i := range b {
		b[i] = '#'
	}
}

func get(d db.Database, k string) string {
	var b []byte
	var err error
	scribbled(k, func(k []byte) { b, err = d.Get(k) })
	s := show(b, err)
	for i := range b {
		b[i] = '%'
	}
	return s
}

func has(d db.Database, k string) string {
	b, err := d.Has([]byte(k))
	return str(b, " ", err)
}

func put(d db.Database, k, v string) (s string) {
	scribbled(k, func(k []byte) {
		scribbled(v, func(v []byte) { s = show(nil, d.Put(k, v)) })
	})
	return
}

func del(d db.Database, k string) string { return show(nil, d.Delete([]byte(k))) }

func batch(d db.Database, cmds ...[2]string) string {
	b := d.NewBatch()
	for _, c := range cmds {
		if c[1] == "" {
			scribbled(c[0], func(k []byte) { b.Delete(k) })
		} else {
			scribbled(c[0], func(k []byte) { scribbled(c[1], func(v []byte) { b.Put(k, v) }) })
		}
	}
	return show(nil, d.Batch(b))
}

type replWorld struct {
	d    db.Database
	base [2]db.Database
}

var replaceable db.Database

// cachedOver gives a cached store over a fresh in-memory one. The cached store
// is created over a file once, which is then replaced.
func cachedOver(base db.Database, size int) db.Database {
	if replaceable == nil {
		dir, err := os.MkdirTemp(os.Getenv("VERIF_TMPDIR"), "ldb")
		if err != nil {
			panic(err)
		}
		if replaceable, err = db.NewCachedDBWithPath(dir, size); err != nil {
			panic(err)
		}
		_, old := replaceable.(db.Replaceable).Replace("x", base)
		old.Close()
		return replaceable
	}
	replaceable.(db.Replaceable).Replace("x", base)
	return replaceable
}

func dbDigest(w any) string {
	x := w.(*dbWorld)
	s := ""
	for _, k := range []string{"a", "b"} {
		s += k + "=" + get(x.d, k) + "," + has(x.d, k) + "," + get(x.d, k)
		if x.base != nil {
			s += " under: " + get(x.base, k)
		}
		s += " "
	}
	return s
}

func init() {
	suite(&Suite{ID: "C03",
		Rule: "every interleaving, at lock, map and atomic operations, of two and three concurrent call sequences on colliding keys of each kind of store, compared with the one-at-a-time orders; returned and passed slices are overwritten by their owners under the race detector",
		Scenarios: func(thorough bool) []*Scenario {
			var out []*Scenario
			type W = *dbWorld
			kinds := sched.KLock | sched.KMap | sched.KAtomic
			read := []Op{
				op("Get a", func(w W) string { return get(w.d, "a") }),
				op("Has a", func(w W) string { return has(w.d, "a") }),
			}
			write := []Op{
				op("Put a 1", func(w W) string { return put(w.d, "a", "1") }),
				op("Delete a", func(w W) string { return del(w.d, "a") }),
			}
			getb := op("Get b", func(w W) string { return get(w.d, "b") })
			batch1 := op("Batch{put a 2}", func(w W) string { return batch(w.d, [2]string{"a", "2"}) })
			batch2 := op("Batch{delete a, put b 3}", func(w W) string { return batch(w.d, [2]string{"a", ""}, [2]string{"b", "3"}) })
			under := op("Get a underneath", func(w W) string { return get(w.base, "a") })
			cat := func(l ...[]Op) (o []Op) {
				for _, x := range l {
					o = append(o, x...)
				}
				return
			}
			add := func(name string, mk func() any, ops []Op) {
				base := Scenario{Name: name, Kinds: kinds, New: mk, Digest: dbDigest, Bound: -1}
				out = append(out, product(base, ops, 1, 1)...)
				base.Bound = 4
				if thorough {
					base.Bound = -1
				}
				out = append(out, product(base, ops, 2, 1)...)
				base.Bound = 2
				if thorough {
					base.Bound = 4
				}
				out = append(out, product(base, ops, 1, 1, 1)...)
				out = append(out, product(base, ops, 2, 2)...)
				if thorough {
					base.Bound = 2
					out = append(out, product(base, ops, 2, 1, 1)...)
				}
			}
			// the store beneath is exchanged meanwhile
			for _, st := range []string{"", "0"} {
				st := st
				type RW = *replWorld
				ops := []Op{
					op("Get a", func(w RW) string { return get(w.d, "a") }),
					op("Has a", func(w RW) string { return has(w.d, "a") }),
					op("Put a 1", func(w RW) string { return put(w.d, "a", "1") }),
					op("Delete a", func(w RW) string { return del(w.d, "a") }),
					op("Batch{put a 2}", func(w RW) string { return batch(w.d, [2]string{"a", "2"}) }),
					op("Get b", func(w RW) string { return get(w.d, "b") }),
					op("Replace", func(w RW) string {
						p, old := w.d.(db.Replaceable).Replace("y", w.base[1])
						return str(p, old == w.base[0], old == w.base[1])
					}),
					op("Close", func(w RW) string { return show(nil, w.d.Close()) }),
				}
				base := Scenario{Name: "cached store with its base exchanged, a=" + st, Kinds: kinds, Bound: -1,
					New: func() any {
						w := &replWorld{}
						for i := range w.base {
							w.base[i] = db.NewMemDB()
						}
						if st != "" {
							w.base[0].Put([]byte("a"), []byte(st))
						}
						w.base[0].Put([]byte("b"), []byte("old"))
						w.base[1].Put([]byte("a"), []byte("new"))
						w.d = cachedOver(w.base[0], 2)
						get(w.d, "b")
						return w
					},
					Digest: func(a any) string {
						w := a.(RW)
						s := ""
						for _, k := range []string{"a", "b"} {
							s += k + "=" + get(w.d, k) + "," + has(w.d, k) + " under: " + get(w.base[0], k) + "," + get(w.base[1], k) + " "
						}
						return s
					}}
				out = append(out, product(base, ops, 1, 1)...)
				base.Bound = 3
				out = append(out, product(base, ops, 2, 1)...)
				base.Bound = 2
				if thorough {
					out = append(out, product(base, ops, 1, 1, 1)...)
					out = append(out, product(base, ops, 2, 2)...)
				}
			}
			for _, st := range []string{"", "0"} {
				st := st
				fill := func(d db.Database) db.Database {
					if st != "" {
						d.Put([]byte("a"), []byte(st))
					}
					d.Put([]byte("b"), []byte("B"))
					return d
				}
				add("in-memory store a="+st, func() any { return &dbWorld{d: fill(db.NewMemDB())} },
					cat(read, write, []Op{batch1, getb}))
				for _, size := range []int{1, 2} {
					size := size
					if size == 2 && st == "" {
						continue
					}
					add(str("cached store of ", size, " a=", st), func() any {
						b := fill(db.NewMemDB())
						w := &dbWorld{d: cachedOver(b, size), base: b}
						return w
					}, cat(read, write, []Op{batch2, getb}))
				}
				add("cached store, a="+st+" cached", func() any {
					b := fill(db.NewMemDB())
					w := &dbWorld{d: cachedOver(b, 1), base: b}
					get(w.d, "a")
					return w
				}, cat(read, write, []Op{batch2, getb}))
				add("overlay a="+st, func() any {
					b := fill(db.NewMemDB())
					return &dbWorld{d: db.Temporary(b), base: b}
				}, cat(read, write, []Op{batch2, under}))
				add("overlay a="+st+" with own a", func() any {
					b := fill(db.NewMemDB())
					w := &dbWorld{d: db.Temporary(b), base: b}
					put(w.d, "a", "own")
					return w
				}, cat(read, write, []Op{batch2, getb}))
				add("read-only view a="+st, func() any {
					b := fill(db.NewMemDB())
					return &dbWorld{d: db.ReadOnly(b), base: b}
				}, cat(read, write, []Op{
					op("Put a 4 underneath", func(w W) string { return put(w.base, "a", "4") }),
					op("Delete a underneath", func(w W) string { return del(w.base, "a") }),
				}))
				add("prefixed adapter over cached store a="+st, func() any {
					b := db.NewMemDB()
					if st != "" {
						b.Put([]byte("pa"), []byte(st))
					}
					return &dbWorld{d: db.NewKeyPrefixedDataAdapter(cachedOver(b, 1), []byte("p")).(db.Database)}
				}, cat(read, write, []Op{getb}))
			}
			return out
		}})
}
