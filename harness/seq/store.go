package seq

import (
	"errors"

	"github.com/ThinkiumGroup/go-common/db"
)

var errInjected = errors.New("injected store failure")

type wr struct {
	k, v string
	del  bool
}

// faultDB is an inspectable db.Database: it keeps a log of writes (so that the store at any crash
// point can be rebuilt) and can fail chosen writes or reads.
type faultDB struct {
	under     map[string]string // read-only contents below m, shared between worlds
	m         map[string]string
	log       []wr
	overwrote []int // log positions which changed or removed an existing binding
	wcount    int   // write attempts, failed ones included
	failWrite func(n int) bool
	failRead  func(key string) bool
	failed    int
	reads     int
}

func newFaultDB() *faultDB { return &faultDB{m: map[string]string{}} }

func storeAt(log []wr, n int) *faultDB {
	d := newFaultDB()
	for _, w := range log[:n] {
		if w.del {
			delete(d.m, w.k)
		} else {
			d.m[w.k] = w.v
		}
	}
	return d
}

func (d *faultDB) look(k string) (string, bool) {
	if v, ok := d.m[k]; ok {
		return v, true
	}
	v, ok := d.under[k]
	return v, ok
}

func (d *faultDB) clone() *faultDB {
	n := newFaultDB()
	n.under = d.under
	for k, v := range d.m {
		n.m[k] = v
	}
	return n
}

func (d *faultDB) write(w wr) error {
	i := d.wcount
	d.wcount++
	if d.failWrite != nil && d.failWrite(i) {
		d.failed++
		return errInjected
	}
	old, had := d.look(w.k)
	if had && (w.del || old != w.v) {
		d.overwrote = append(d.overwrote, len(d.log))
	}
	d.log = append(d.log, w)
	if w.del {
		delete(d.m, w.k)
	} else {
		d.m[w.k] = w.v
	}
	return nil
}

func (d *faultDB) Put(key, value []byte) error {
	return d.write(wr{k: string(key), v: string(value)})
}
func (d *faultDB) Delete(key []byte) error { return d.write(wr{k: string(key), del: true}) }
func (d *faultDB) Has(key []byte) (bool, error) {
	_, ok := d.look(string(key))
	return ok, nil
}
func (d *faultDB) Get(key []byte) ([]byte, error) {
	d.reads++
	if d.failRead != nil && d.failRead(string(key)) {
		return nil, errInjected
	}
	v, ok := d.look(string(key))
	if !ok {
		return nil, nil
	}
	return []byte(v), nil
}

type faultBatch struct{ ops []wr }

func (b *faultBatch) Put(key, value []byte) error {
	b.ops = append(b.ops, wr{k: string(key), v: string(value)})
	return nil
}
func (b *faultBatch) Delete(key []byte) error {
	b.ops = append(b.ops, wr{k: string(key), del: true})
	return nil
}
func (b *faultBatch) Size() int       { return len(b.ops) }
func (d *faultDB) NewBatch() db.Batch { return &faultBatch{} }
func (d *faultDB) Close() error       { return nil }
func (d *faultDB) Batch(b db.Batch) error {
	fb, ok := b.(*faultBatch)
	if !ok {
		return errors.New("foreign batch")
	}
	i := d.wcount
	d.wcount++
	if d.failWrite != nil && d.failWrite(i) {
		d.failed++
		return errInjected
	}
	for _, w := range fb.ops {
		if w.del {
			delete(d.m, w.k)
		} else {
			d.m[w.k] = w.v
		}
		d.log = append(d.log, w)
	}
	return nil
}

// overlay returns a store that starts with d's contents, sharing them (d must not be written any more).
func (d *faultDB) overlay() *faultDB {
	n := newFaultDB()
	if d.under == nil {
		n.under = d.m
		return n
	}
	n.under = map[string]string{}
	for k, v := range d.under {
		n.under[k] = v
	}
	for k, v := range d.m {
		n.under[k] = v
	}
	return n
}
