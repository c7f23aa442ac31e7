package seq

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
)

// ---- value codec: strict, so that a missing stored value cannot pass for an empty one

func vEncode(o interface{}, w io.Writer) error {
	s, ok := o.(string)
	if !ok {
		return fmt.Errorf("not a string: %T", o)
	}
	_, err := w.Write([]byte("V" + s))
	return err
}

func vDecode(r io.Reader) (interface{}, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if len(b) == 0 || b[0] != 'V' {
		return nil, errors.New("not an encoded value")
	}
	return string(b[1:]), nil
}

var bigVals = map[byte]string{}

func init() {
	for c := byte('0'); c <= '9'; c++ {
		bigVals[c] = strings.Repeat(string(rune(c))+"x", 2500)
	}
}

func openTrie(d db.Database, root []byte) *trie.Trie {
	na := db.NewKeyPrefixedDataAdapter(d, []byte("n"))
	va := db.NewKeyPrefixedDataAdapter(d, []byte("v"))
	return trie.NewTrieWithValueCodec(root, na, va, vEncode, vDecode)
}

// family of keys; every family covers some node shapes
type family struct {
	name string
	keys []string
}

var families = []family{
	{"prefixes", []string{"", "\x12", "\x12\x34", "\x12\x30", "\x12\x34\x56"}},
	{"oddsplit", []string{"\xa0", "\xa1\x23", "\xa1", "\xa1\x24", "\xab\x00"}},
	{"deep", []string{"\x11\x11\x11\x11", "\x11\x11\x11\x12", "\x11\x11\x21\x11", "\x11\x12\x11\x11", "\x21\x11\x11\x11"}},
	{"zero-f", []string{"\x00", "\x0f", "\xf0", "\xff", "\x00\x00"}},
	{"chain", []string{"a", "ab", "abc", "abcd", "abce"}},
	{"long", []string{strings.Repeat("k", 32), strings.Repeat("k", 31) + "l", strings.Repeat("k", 16) + strings.Repeat("m", 16), strings.Repeat("z", 70), strings.Repeat("k", 31) + "\x00"}},
	{"emptyroot", []string{"", "\x00", "\x00\x00", "\x10", "\x01"}},
	{"siblings", []string{"\x50", "\x51", "\x5f", "\x52", "\x58"}},
}

type tKind byte

const (
	opPut tKind = iota
	opDel
	opGet
	opCommit
	opCollapse
	opReopen
	opHash
	opIterate
	opPutBig
	opProof
	opSpecial // check specific
)

type tOp struct {
	kind tKind
	key  int
	val  byte
}

func (o tOp) str(f family) string {
	switch o.kind {
	case opPut:
		return fmt.Sprintf("Put(%x,%c)", f.keys[o.key], o.val)
	case opPutBig:
		return fmt.Sprintf("PutBig(%x,%c)", f.keys[o.key], o.val)
	case opDel:
		return fmt.Sprintf("Del(%x)", f.keys[o.key])
	case opGet:
		return fmt.Sprintf("Get(%x)", f.keys[o.key])
	case opProof:
		return fmt.Sprintf("Proof(%x)", f.keys[o.key])
	case opCommit:
		return "Commit"
	case opCollapse:
		return "Collapse"
	case opReopen:
		return "Reopen"
	case opHash:
		return "Hash"
	case opIterate:
		return "Iterate"
	}
	return fmt.Sprintf("special%d.%d.%d", o.kind, o.key, o.val)
}

type commitRec struct {
	root []byte
	m    map[string]string
	pos  int // store write position when the commit returned
}

// tWorld is a real trie with the map it is supposed to be.
type tWorld struct {
	f       family
	d       *faultDB
	t       *trie.Trie
	m       map[string]string
	commits []commitRec
	bad     string // first disagreement
}

func newTWorld(f family) *tWorld {
	d := newFaultDB()
	return &tWorld{f: f, d: d, t: openTrie(d, nil), m: map[string]string{}}
}

func copyMap(m map[string]string) map[string]string {
	n := make(map[string]string, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (w *tWorld) fail(format string, a ...any) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(format, a...)
	}
}

func short(v any) string {
	s := fmt.Sprintf("%v", v)
	if len(s) > 24 {
		return fmt.Sprintf("%s..(%d)", s[:24], len(s))
	}
	return s
}

func (w *tWorld) put(k string, v string) {
	b := []byte(k)
	if !w.t.Put(b, v) {
		w.fail("Put(%x) reported failure", k)
	}
	spoil(b) // the key is the caller's
	w.m[k] = v
}

func (w *tWorld) del(k string) {
	b := []byte(k)
	ch, old := w.t.Delete(b)
	spoil(b)
	want, had := w.m[k]
	if ch != had {
		w.fail("Delete(%x) reported changed=%v, key was there: %v", k, ch, had)
	}
	if had && old != want {
		w.fail("Delete(%x) handed back %s, want %s", k, short(old), short(want))
	}
	if !had && old != nil {
		w.fail("Delete(%x) of an absent key handed back %s", k, short(old))
	}
	delete(w.m, k)
}

func (w *tWorld) get(k string) {
	b := []byte(k)
	v, ok := w.t.Get(b)
	spoil(b)
	want, had := w.m[k]
	if ok != had || (had && v != want) {
		w.fail("Get(%x) = %s,%v want %s,%v", k, short(v), ok, short(want), had)
	}
	if !ok && v != nil {
		w.fail("Get(%x) = %s with ok=false", k, short(v))
	}
}

func (w *tWorld) apply(o tOp) {
	switch o.kind {
	case opPut:
		w.put(w.f.keys[o.key], string(rune(o.val)))
	case opPutBig:
		w.put(w.f.keys[o.key], bigVals[o.val])
	case opDel:
		w.del(w.f.keys[o.key])
	case opGet:
		w.get(w.f.keys[o.key])
	case opProof:
		b := []byte(w.f.keys[o.key])
		w.t.GetProof(b)
		w.t.GetExistenceProof(b)
		spoil(b)
	case opCommit:
		if r, err := w.t.CommitAndHash(); err != nil {
			w.fail("Commit: %v", err)
		} else {
			w.commits = append(w.commits, commitRec{root: bytes.Clone(r), m: copyMap(w.m), pos: len(w.d.log)})
		}
	case opCollapse:
		if err := w.t.Collapse(); err != nil {
			w.fail("Collapse: %v", err)
		}
	case opReopen:
		if r, err := w.t.CommitAndHash(); err != nil {
			w.fail("Commit: %v", err)
		} else {
			w.commits = append(w.commits, commitRec{root: bytes.Clone(r), m: copyMap(w.m), pos: len(w.d.log)})
			w.t = openTrie(w.d, bytes.Clone(r))
		}
	case opHash:
		if _, err := w.t.HashValue(); err != nil {
			w.fail("HashValue: %v", err)
		}
	case opIterate:
		w.t.IterateAll(false, func(k []byte, v interface{}) bool { spoil(k); return true })
	}
}

// checkAll compares every lookup with the map.
func (w *tWorld) checkAll() {
	for _, k := range w.f.keys {
		w.get(k)
	}
	if w.t.IsEmpty() != (len(w.m) == 0) {
		w.fail("IsEmpty=%v with %d entries", w.t.IsEmpty(), len(w.m))
	}
}

func sortedKeys(m map[string]string) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func content(m map[string]string) string {
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&b, "%x=%s;", k, m[k])
	}
	return b.String()
}

func history(f family, ops []tOp) string {
	ss := make([]string, len(ops))
	for i, o := range ops {
		ss[i] = o.str(f)
	}
	return f.name + ": " + strings.Join(ss, " ")
}

// start is a family together with a set-up history that leads to an interesting initial state.
type start struct {
	f   family
	ops []tOp
}

// starts: for every subset of the family's keys, the three residences: in memory, committed, reopened.
func starts(f family, residences []tOp) []start {
	var out []start
	n := len(f.keys)
	for mask := 0; mask < 1<<n; mask++ {
		var ops []tOp
		for k := 0; k < n; k++ {
			if mask&(1<<k) != 0 {
				ops = append(ops, tOp{opPut, k, '1'})
			}
		}
		if mask == 0 {
			out = append(out, start{f, nil})
			continue
		}
		for _, r := range residences {
			o := append([]tOp(nil), ops...)
			switch r.kind {
			case opGet:
			case opSpecial:
				for i := range o {
					o[i].kind = opPutBig
				}
				o = append(o, resCommit, resCommit)
			default:
				o = append(o, r)
			}
			out = append(out, start{f, o})
		}
	}
	return out
}

var resMem = tOp{kind: opGet} // "leave it in memory"
var resCommit = tOp{kind: opCommit}
var resReopen = tOp{kind: opReopen}
var resBig = tOp{kind: opSpecial} // large values, dropped from memory by the second of two commits

// eachSeq calls f for every sequence over alphabet of exactly the given length.
func eachSeq(alphabet []tOp, length int, f func(seq []tOp) bool) bool {
	seq := make([]tOp, length)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == length {
			return f(seq)
		}
		for _, o := range alphabet {
			seq[i] = o
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}
