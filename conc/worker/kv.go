package main

import (
	"github.com/ThinkiumGroup/go-common/db"
	"verif/sched/hist"
)

// kvDB is a store that is atomic by construction and adds no scheduling points.
type kvDB struct{ kv *hist.KV }

func newKV() *kvDB { return &kvDB{hist.NewKV()} }

type kvBatch struct{ cmds [][3]string }

func (b *kvBatch) Put(k, v []byte) error {
	b.cmds = append(b.cmds, [3]string{"p", string(k), string(v)})
	return nil
}
func (b *kvBatch) Delete(k []byte) error {
	b.cmds = append(b.cmds, [3]string{"d", string(k), ""})
	return nil
}
func (b *kvBatch) Size() int { return len(b.cmds) }

func (d *kvDB) Put(k, v []byte) error        { d.kv.Put(k, v); return nil }
func (d *kvDB) Has(k []byte) (bool, error)   { return d.kv.Has(k), nil }
func (d *kvDB) Get(k []byte) ([]byte, error) { return d.kv.Get(k), nil }
func (d *kvDB) Delete(k []byte) error        { d.kv.Delete(k); return nil }
func (d *kvDB) NewBatch() db.Batch           { return new(kvBatch) }
func (d *kvDB) Close() error                 { return nil }
func (d *kvDB) Batch(b db.Batch) error {
	for _, c := range b.(*kvBatch).cmds {
		if c[0] == "p" {
			d.kv.Put([]byte(c[1]), []byte(c[2]))
		} else {
			d.kv.Delete([]byte(c[1]))
		}
	}
	return nil
}
