package seq

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"testing/iotest"

	common "github.com/ThinkiumGroup/go-common"

	"verif/harness/fw"
)

// refMerkle is the Merkle root of hashes padded on the right with the nil hash to a power of two (at
// least two), and the sibling path of index i: values and whether they stand on the left.
func refMerkle(hs [][]byte, idx int) (root []byte, sib [][]byte, left []bool) {
	if len(hs) == 0 {
		return refNil, nil, nil
	}
	n := 2
	for n < len(hs) {
		n *= 2
	}
	level := append([][]byte{}, hs...)
	for len(level) < n {
		level = append(level, refNil)
	}
	return refMerkleLevel(level, idx)
}

func refMerkleLevel(level [][]byte, idx int) (root []byte, sib [][]byte, left []bool) {
	for len(level) > 1 {
		if idx >= 0 && idx < len(level) {
			if idx%2 == 0 {
				sib, left = append(sib, level[idx+1]), append(left, false)
			} else {
				sib, left = append(sib, level[idx-1]), append(left, true)
			}
		}
		var up [][]byte
		for i := 0; i < len(level); i += 2 {
			up = append(up, refHash(level[i], level[i+1]))
		}
		level, idx = up, idx/2
	}
	return level[0], sib, left
}

// refMerkleList is the same for the layout which pads every level with at most one nil hash.
func refMerkleList(hs [][]byte, idx int) (root []byte, sib [][]byte, left []bool) {
	if len(hs) == 0 {
		return refNil, nil, nil
	}
	level := append([][]byte{}, hs...)
	for d, first := len(level), true; d > 1 || first; d, first = (d+1)/2, false {
		if len(level)%2 == 1 {
			level = append(level, refNil)
		}
		if idx >= 0 {
			if idx%2 == 0 {
				sib, left = append(sib, level[idx+1]), append(left, false)
			} else {
				sib, left = append(sib, level[idx-1]), append(left, true)
			}
		}
		var up [][]byte
		for i := 0; i < len(level); i += 2 {
			up = append(up, refHash(level[i], level[i+1]))
		}
		level, idx = up, idx>>1
	}
	return level[0], sib, left
}

func foldRef(h []byte, sib [][]byte, left []bool) []byte {
	for i := range sib {
		if left[i] {
			h = refHash(sib[i], h)
		} else {
			h = refHash(h, sib[i])
		}
	}
	return h
}

type merkleFn struct {
	name     string
	f        func(hs [][]byte, i int, p *common.MerkleProofs) ([]byte, error)
	ref      func(hs [][]byte, i int) ([]byte, [][]byte, []bool)
	complete bool
}

var merkleFns = []merkleFn{
	{"MerkleHash", common.MerkleHash, refMerkleList, false},
	{"MerkleHashComplete", common.MerkleHashComplete, refMerkle, true},
	{"MerkleHashCompleteOld", common.MerkleHashCompleteOld, refMerkle, true},
}

func checkMerkle(c *fw.Ctx, desc string, m merkleFn, hs [][]byte, deep bool) {
	n := len(hs)
	fail := func(format string, a ...any) {
		c.Fail(m.name+" "+desc, "%s of %s: %s", m.name, desc, fmt.Sprintf(format, a...))
	}
	// the list is handed over as the front part of a longer array, which must not be written to either
	backing := make([][]byte, n+40)
	keep := make([][]byte, n+40)
	for i := range backing {
		if i < n {
			backing[i] = bytes.Clone(hs[i])
		} else {
			backing[i] = []byte{byte(i)}
		}
		keep[i] = backing[i]
	}
	list := backing[:n]
	same := func() {
		for i := range backing {
			var want []byte
			if i < n {
				want = hs[i]
			} else {
				want = []byte{byte(i)}
			}
			if !bytes.Equal(backing[i], want) || (len(want) > 0 && &backing[i][0] != &keep[i][0]) {
				fail("the caller's array was modified at %d (list length %d)", i, n)
				return
			}
		}
	}
	want, _, _ := m.ref(hs, -1)
	root, err := m.f(list, -1, nil)
	c.Evals.Add(1)
	if err != nil || !bytes.Equal(root, want) {
		fail("root %x (%v), want %x", root, err, want)
	}
	same()
	for i := -2; i < n+3; i++ {
		p := common.NewMerkleProofs()
		root, err := m.f(list, i, p)
		c.Evals.Add(1)
		c.Trans.Add(1)
		if err != nil || !bytes.Equal(root, want) {
			fail("with a proof of %d the root is %x (%v), without %x", i, root, err, want)
		}
		same()
		root[0] ^= 1 // results are the caller's
		root[0] ^= 1
		if i < 0 || i >= n {
			if n == 0 && p.Len() != 0 {
				fail("a proof of index %d of the empty list has %d steps", i, p.Len())
			}
			// no element may be proved by it at a position it does not have
			if i >= n && p.Len() > 0 {
				for j, h := range hs {
					if r, err := p.Proof(common.BytesToHash(h)); err == nil && bytes.Equal(r, want) && !bytes.Equal(h, refNil) {
						fail("the proof made for index %d, past the end, proves element %d", i, j)
					}
				}
			}
			continue
		}
		c.Nontriv.Add(1)
		_, sib, left := m.ref(hs, i)
		its, err := p.ToItems()
		if err != nil || len(its) != len(sib) || p.Len() != len(sib) {
			fail("proof of %d has %d steps (Len %d, %v), want %d", i, len(its), p.Len(), err, len(sib))
			return
		}
		for s := range sib {
			if !bytes.Equal(its[s].Val[:], sib[s]) || its[s].Order != left[s] {
				fail("proof of %d step %d is %x,%v want %x,%v", i, s, its[s].Val, its[s].Order, sib[s], left[s])
			}
		}
		k := new(big.Int)
		if p.BigKey(k, 0); !k.IsInt64() || k.Int64() != int64(i) {
			fail("proof of %d encodes position %s", i, k)
		}
		if r, err := p.Proof(common.BytesToHash(hs[i])); err != nil || !bytes.Equal(r, want) {
			fail("proof of %d folds to %x (%v), want %x", i, r, err, want)
		}
		if !deep {
			continue
		}
		for j, h := range hs {
			r, err := p.Proof(common.BytesToHash(h))
			if err == nil && bytes.Equal(r, want) != bytes.Equal(h, hs[i]) {
				fail("proof of %d, folded over element %d, gives the root: %v", i, j, bytes.Equal(r, want))
			}
		}
		// a proof appended to an existing path continues it
		q := common.NewMerkleProofs()
		q.Append(common.BytesToHash(refHash([]byte("inner"))), true)
		q.Append(common.BytesToHash(sib[0]), false)
		if _, err := m.f(list, i, q); err != nil || q.Len() != 2+len(sib) {
			fail("appending the proof of %d to a path of 2 gives length %d (%v)", i, q.Len(), err)
		}
		start := refHash([]byte("start"))
		exp := foldRef(refHash(refHash(refHash([]byte("inner")), start), sib[0]), sib, left)
		if r, err := q.Proof(common.BytesToHash(start)); err != nil || !bytes.Equal(r, exp) {
			fail("continued path of %d folds to %x (%v), want %x", i, r, err, exp)
		}
	}
}

func runK01(c *fw.Ctx) {
	maxN := c.Pick(140, 520)
	roots := make([]map[string]string, len(merkleFns))
	distinct := make([][][]byte, maxN+1)
	for n := range distinct {
		for i := 0; i < n; i++ {
			distinct[n] = append(distinct[n], refHash([]byte{byte(i), byte(i >> 8)}))
		}
	}
	for i := range roots {
		roots[i] = map[string]string{}
	}
	c.Parallel(maxN+1, func(n int, sl *fw.Slot) {
		desc := fmt.Sprintf("%d distinct hashes", n)
		sl.Begin(func() string { return desc })
		for _, m := range merkleFns {
			checkMerkle(c, desc, m, distinct[n], n <= 40)
		}
	})
	// every pattern of equal and nil elements in short lists
	alpha := [][]byte{refHash([]byte("A")), refHash([]byte("B")), refNil}
	maxP := c.Pick(7, 9)
	type job struct{ n, x int }
	var jobs []job
	for n, cnt := 0, 1; n <= maxP; n, cnt = n+1, cnt*3 {
		for x := 0; x < cnt; x++ {
			jobs = append(jobs, job{n, x})
		}
	}
	c.Parallel(len(jobs), func(i int, sl *fw.Slot) {
		j := jobs[i]
		var hs [][]byte
		name := ""
		for k, x := 0, j.x; k < j.n; k, x = k+1, x/3 {
			hs = append(hs, alpha[x%3])
			name += string("AB."[x%3])
		}
		desc := "pattern [" + name + "]"
		sl.Begin(func() string { return desc })
		for _, m := range merkleFns {
			checkMerkle(c, desc, m, hs, true)
		}
		// the same through values: slices (nil and empty ones hash to the nil hash) and objects
		for variant := 0; variant < 2; variant++ {
			var vals [][]byte
			for k := range hs {
				switch {
				case bytes.Equal(hs[k], alpha[0]):
					vals = append(vals, []byte("A"))
				case bytes.Equal(hs[k], alpha[1]):
					vals = append(vals, []byte("B"))
				case variant == 0:
					vals = append(vals, nil)
				default:
					vals = append(vals, []byte{})
				}
			}
			for k := -1; k < len(hs); k++ {
				p := common.NewMerkleProofs()
				w1, _, _ := refMerkleList(hs, k)
				r, err := common.SlicesMerkleHash(vals, k, p)
				if err != nil || !bytes.Equal(r, w1) {
					c.Fail("SlicesMerkleHash "+desc, "SlicesMerkleHash of %s: %x (%v), want %x", desc, r, err, w1)
				}
				if k >= 0 {
					if f, err := p.Proof(common.BytesToHash(hs[k])); err != nil || !bytes.Equal(f, w1) {
						c.Fail("SlicesMerkleHash "+desc, "proof of %d of slices %s folds to %x", k, desc, f)
					}
				}
				p = common.NewMerkleProofs()
				w2, _, _ := refMerkle(hs, k)
				r, err = common.SlicesMerkleHashComplete(vals, k, p)
				if err != nil || !bytes.Equal(r, w2) {
					c.Fail("SlicesMerkleHashComplete "+desc, "SlicesMerkleHashComplete of %s: %x (%v), want %x", desc, r, err, w2)
				}
				if k >= 0 {
					if f, err := p.Proof(common.BytesToHash(hs[k])); err != nil || !bytes.Equal(f, w2) {
						c.Fail("SlicesMerkleHashComplete "+desc, "proof of %d of slices %s folds to %x", k, desc, f)
					}
				}
			}
		}
		var objs []interface{}
		var ohs [][]byte
		for k := range hs {
			var o interface{}
			switch {
			case bytes.Equal(hs[k], alpha[0]):
				o = "A"
			case bytes.Equal(hs[k], alpha[1]):
				o = common.Height(7)
			}
			objs = append(objs, o)
			h, err := common.HashObject(o)
			if err != nil {
				c.Fail("HashObject", "HashObject(%v): %v", o, err)
			}
			ohs = append(ohs, bytes.Clone(h))
		}
		for k := -1; k < len(hs); k++ {
			p := common.NewMerkleProofs()
			w, _, _ := refMerkleList(ohs, k)
			r, err := common.ValuesMerkleHash(objs, k, p)
			if err != nil || !bytes.Equal(r, w) {
				c.Fail("ValuesMerkleHash "+desc, "ValuesMerkleHash of %s: %x (%v), want %x", desc, r, err, w)
			}
			if k >= 0 {
				if f, err := p.Proof(common.BytesToHash(ohs[k])); err != nil || !bytes.Equal(f, w) {
					c.Fail("ValuesMerkleHash "+desc, "proof of %d of values %s folds to %x", k, desc, f)
				}
			}
			w, _, _ = refMerkle(ohs, k)
			p = common.NewMerkleProofs()
			r, err = common.ValuesMerkleTreeHash(objs, k, p)
			if err != nil || !bytes.Equal(r, w) {
				c.Fail("ValuesMerkleTreeHash "+desc, "ValuesMerkleTreeHash of %s: %x (%v), want %x", desc, r, err, w)
			}
			if k >= 0 {
				if f, err := p.Proof(common.BytesToHash(ohs[k])); err != nil || !bytes.Equal(f, w) {
					c.Fail("ValuesMerkleTreeHash "+desc, "proof of %d of values %s folds to %x", k, desc, f)
				}
			}
		}
		if !bytes.Equal(common.NilHashSlice, refNil) {
			c.Fail("nil hash", "the nil hash constant was modified")
		}
	})
	// lists of one length that differ have different roots
	for mi, m := range merkleFns {
		for _, j := range jobs {
			var hs [][]byte
			name := fmt.Sprint(j.n, ":")
			for k, x := 0, j.x; k < j.n; k, x = k+1, x/3 {
				hs = append(hs, alpha[x%3])
				name += string("AB."[x%3])
			}
			r, _ := m.f(hs, -1, nil)
			key := fmt.Sprintf("%d/%x", j.n, r)
			if o, ok := roots[mi][key]; ok {
				c.Fail(m.name+" collision", "%s: the lists %s and %s have the same root %x", m.name, o, name, r)
			}
			roots[mi][key] = name
			c.States.Add(1)
		}
	}
	c.Sample("MerkleHash of [A.A] for index 2: root, path, position bits, fold of A, B and the nil hash")
}

// k02 paths

type pstep struct {
	h    int
	left bool
}

func pathHash(i int) common.Hash {
	return common.BytesToHash(refHash([]byte{'h', byte(i), byte(i >> 8)}))
}

func pathString(ps []pstep) string {
	s := ""
	for _, p := range ps {
		if p.left {
			s += fmt.Sprintf("%d-", p.h)
		} else {
			s += fmt.Sprintf("-%d", p.h)
		}
		s += " "
		if len(s) > 200 {
			return s + fmt.Sprintf("... (%d steps)", len(ps))
		}
	}
	return "[" + s + "]"
}

func buildPath(ps []pstep) *common.MerkleProofs {
	p := common.NewMerkleProofs()
	for _, s := range ps {
		p.Append(pathHash(s.h), s.left)
	}
	return p
}

// checkPath compares everything observable of a proof with the plain path.
func checkPath(p *common.MerkleProofs, ps []pstep, hashes []common.Hash) string {
	if p.Len() != len(ps) {
		return fmt.Sprintf("Len = %d, want %d", p.Len(), len(ps))
	}
	start := refHash([]byte("leaf"))
	want := start
	for i, s := range ps {
		skip := len(ps) > 1000 && i > 300 && i < len(ps)-300 && i%97 != 0 // Get is linear
		h, order, err := hashes[s.h], s.left, error(nil)
		if !skip {
			h, order, err = p.Get(i)
		}
		if err != nil || h != hashes[s.h] || order != s.left {
			return fmt.Sprintf("Get(%d) = %x,%v,%v want %x,%v", i, h[:4], order, err, hashes[s.h][:4], s.left)
		}
		if p.Order(i) != s.left {
			return fmt.Sprintf("Order(%d) = %v", i, p.Order(i))
		}
		if s.left {
			want = refHash(hashes[s.h][:], want)
		} else {
			want = refHash(want, hashes[s.h][:])
		}
	}
	for _, i := range []int{-1, len(ps), len(ps) + 1, len(ps) + 7} {
		if _, _, err := p.Get(i); err == nil {
			return fmt.Sprintf("Get(%d) of %d steps succeeds", i, len(ps))
		}
	}
	its, err := p.ToItems()
	if err != nil || len(its) != len(ps) {
		return fmt.Sprintf("ToItems gives %d items (%v), want %d", len(its), err, len(ps))
	}
	for i, s := range ps {
		if its[i].Val != hashes[s.h] || its[i].Order != s.left {
			return fmt.Sprintf("item %d is %x,%v", i, its[i].Val[:4], its[i].Order)
		}
	}
	n := 0
	if err := p.Iterate(func(val []byte, order bool) error {
		if n >= len(ps) || !bytes.Equal(val, hashes[ps[n].h][:]) || order != ps[n].left {
			return fmt.Errorf("step %d is %x,%v", n, val[:4], order)
		}
		n++
		return nil
	}); err != nil || n != len(ps) {
		return fmt.Sprintf("Iterate: %d of %d steps, %v", n, len(ps), err)
	}
	if len(ps) > 0 {
		stop := len(ps) / 2
		m := 0
		if err := p.Iterate(func(val []byte, order bool) error {
			if m == stop {
				return errInjected
			}
			m++
			return nil
		}); err == nil || m != stop {
			return fmt.Sprintf("Iterate stopped at %d: went to %d, error %v", stop, m, err)
		}
	}
	r, err := p.Proof(common.BytesToHash(start))
	if err != nil || !bytes.Equal(r, want) {
		return fmt.Sprintf("folds to %x (%v), want %x", r, err, want)
	}
	for _, at := range []int{0, 5} {
		k := new(big.Int)
		if at > 0 {
			k.SetInt64(0x15)
		}
		wantK := new(big.Int).Set(k)
		for i, s := range ps {
			b := uint(0)
			if s.left {
				b = 1
			}
			wantK.SetBit(wantK, at+i, b)
		}
		if e := p.BigKey(k, at); e != at+len(ps) || k.Cmp(wantK) != 0 {
			return fmt.Sprintf("BigKey at %d = %s,%d want %s,%d", at, k, e, wantK, at+len(ps))
		}
	}
	if !p.Repeats.IsValid() {
		return fmt.Sprintf("repeats %v of a built path are not valid", p.Repeats)
	}
	if fw.Try(func() { _ = p.String(); _ = p.InfoString(0); _ = p.Summary() }) != nil {
		return "printing panics"
	}
	return ""
}

func encodePath(p *common.MerkleProofs) ([]byte, string) {
	var b bytes.Buffer
	if err := p.Serialization(&b); err != nil {
		return nil, fmt.Sprintf("encode: %v", err)
	}
	return b.Bytes(), ""
}

// twoChunks delivers the first n bytes in one read and the rest in others.
type twoChunks struct {
	b []byte
	n int
}

func (t *twoChunks) Read(p []byte) (int, error) {
	if len(t.b) == 0 {
		return 0, io.EOF
	}
	m := len(t.b)
	if t.n > 0 && m > t.n {
		m = t.n
	}
	if m > len(p) {
		m = len(p)
	}
	copy(p, t.b[:m])
	t.b = t.b[m:]
	if t.n > 0 {
		t.n -= m
	}
	return m, nil
}

func checkPathCodec(p *common.MerkleProofs, ps []pstep, hashes []common.Hash, deep bool) (enc []byte, bad string) {
	enc, bad = encodePath(p)
	if bad != "" {
		return
	}
	dec := func(r io.Reader, what string) string {
		var q common.MerkleProofs
		nilv, err := q.Deserialization(r)
		if err != nil || nilv {
			return fmt.Sprintf("decoding (%s): nil=%v %v", what, nilv, err)
		}
		if !q.Equal(p) || !p.Equal(&q) {
			return fmt.Sprintf("decoded (%s) is not Equal", what)
		}
		if e := checkPath(&q, ps, hashes); e != "" {
			return fmt.Sprintf("decoded (%s): %s", what, e)
		}
		return ""
	}
	rest := bytes.NewReader(append(bytes.Clone(enc), 1, 2, 3))
	if bad = dec(rest, "whole"); bad != "" {
		return
	}
	if rest.Len() != 3 {
		return enc, fmt.Sprintf("decoding left %d of 3 following bytes", rest.Len())
	}
	if bad = dec(iotest.OneByteReader(bytes.NewReader(enc)), "byte by byte"); bad != "" {
		return
	}
	if deep {
		if bad = dec(iotest.DataErrReader(bytes.NewReader(enc)), "EOF with the data"); bad != "" {
			return
		}
		for n := 1; n < len(enc); n++ {
			if bad = dec(&twoChunks{enc, n}, fmt.Sprintf("%d bytes first", n)); bad != "" {
				return
			}
		}
		for n := 0; n < len(enc); n++ {
			for _, one := range []bool{false, true} {
				var q common.MerkleProofs
				var r io.Reader = bytes.NewReader(enc[:n])
				if one {
					r = iotest.OneByteReader(r)
				}
				if nilv, err := q.Deserialization(r); err == nil {
					return enc, fmt.Sprintf("cut to %d of %d bytes it decodes without error (nil=%v)", n, len(enc), nilv)
				}
			}
		}
		// JSON
		js, err := json.Marshal(p)
		var q common.MerkleProofs
		if err != nil {
			return enc, fmt.Sprintf("JSON: %v", err)
		}
		if err := json.Unmarshal(js, &q); err != nil || !q.Equal(p) {
			return enc, fmt.Sprintf("JSON %s decodes to %v (%v)", js, &q, err)
		}
	}
	// clones are equal and independent
	cl := p.Clone()
	if !cl.Equal(p) || !p.Equal(cl) {
		return enc, "clone is not Equal"
	}
	for _, o := range []bool{true, false} {
		cl.Append(pathHash(0), o)
		cl.Append(pathHash(0), !o)
	}
	if len(cl.Hashs) > 0 {
		cl.Hashs[0][0] ^= 1
	}
	if cl.Equal(p) {
		return enc, "changed clone is still Equal"
	}
	if e := checkPath(p, ps, hashes); e != "" {
		return enc, "after changing a clone: " + e
	}
	return enc, ""
}

func runK02(c *fw.Ctx) {
	var hashes []common.Hash
	for i := 0; i < 70000; i++ {
		hashes = append(hashes, pathHash(i))
	}
	one := func(ps []pstep, deep bool) []byte {
		p := buildPath(ps)
		bad := checkPath(p, ps, hashes)
		var enc []byte
		if bad == "" {
			enc, bad = checkPathCodec(p, ps, hashes, deep)
		}
		c.Evals.Add(1)
		c.Trans.Add(int64(len(ps)))
		if bad != "" {
			c.Fail(pathString(ps), "path %s\n%s", pathString(ps), bad)
		}
		return enc
	}
	// every path over three hashes and both positions
	maxL := c.Pick(6, 7)
	type job struct{ l, first int }
	var jobs []job
	for l := 0; l <= maxL; l++ {
		if l == 0 {
			jobs = append(jobs, job{0, 0})
			continue
		}
		for f := 0; f < 6; f++ {
			if l == 1 {
				jobs = append(jobs, job{l, f})
				continue
			}
			for g := 0; g < 6; g++ {
				jobs = append(jobs, job{l, f + 6*g})
			}
		}
	}
	encs := make([]map[string]string, len(jobs))
	c.Parallel(len(jobs), func(i int, sl *fw.Slot) {
		j := jobs[i]
		encs[i] = map[string]string{}
		cnt := 1
		for k := 2; k < j.l; k++ {
			cnt *= 6
		}
		for x := 0; x < cnt; x++ {
			var ps []pstep
			y := j.first
			if j.l > 1 {
				y = j.first + 36*x
			}
			for k := 0; k < j.l; k, y = k+1, y/6 {
				ps = append(ps, pstep{y % 6 / 2, y%2 == 1})
			}
			sl.Begin(func() string { return pathString(ps) })
			enc := one(ps, j.l <= 4)
			c.Nontriv.Add(1)
			encs[i][string(enc)] = pathString(ps)
		}
		if x := len(encs[i]); x != cnt {
			c.Fail("collision", "%d paths of length %d have only %d encodings", cnt, j.l, x)
		}
	})
	all := map[string]string{}
	for _, m := range encs {
		for k, v := range m {
			if o, ok := all[k]; ok {
				c.Fail("collision", "paths %s and %s have the same encoding", o, v)
			}
			all[k] = v
		}
	}
	c.Extra("distinct_encodings", len(all))
	// every run pattern of longer paths, under four position patterns
	maxR := c.Pick(13, 17)
	c.Parallel(1<<uint(maxR-1), func(x int, sl *fw.Slot) {
		for l := 5; l <= maxR; l++ {
			if x >= 1<<uint(l-1) {
				continue
			}
			for pos := 0; pos < 4; pos++ {
				var ps []pstep
				h := 0
				for k := 0; k < l; k++ {
					if k > 0 && x&(1<<uint(k-1)) == 0 {
						h++
					}
					left := []bool{false, true, k%2 == 0, k*k%3 == 1}[pos]
					ps = append(ps, pstep{h, left})
				}
				sl.Begin(func() string { return pathString(ps) })
				one(ps, false)
				c.Nontriv.Add(1)
			}
		}
	})
	// long runs, up to what the encoding can count
	runs := []int{254, 255, 256, 257, 511, 4096, 65534, 65535}
	c.Parallel(len(runs)*3, func(i int, sl *fw.Slot) {
		n, shape := runs[i/3], i%3
		var ps []pstep
		for k := 0; k < n; k++ {
			switch shape {
			case 0:
				ps = append(ps, pstep{0, k%5 == 0})
			case 1:
				ps = append(ps, pstep{k, k%2 == 0})
			default:
				ps = append(ps, pstep{k / 3, k == n-1})
			}
		}
		d := fmt.Sprintf("path of %d steps, shape %d", n, shape)
		sl.Begin(func() string { return d })
		one(ps, false)
	})
	// a nil proof
	var np *common.MerkleProofs
	enc, bad := encodePath(np)
	var q common.MerkleProofs
	if bad == "" {
		if n, err := q.Deserialization(bytes.NewReader(enc)); !n || err != nil {
			bad = fmt.Sprintf("decodes as nil=%v, %v", n, err)
		}
	}
	if np.Len() != 0 || np.Clone() != nil || !np.Equal(nil) || np.Equal(common.NewMerkleProofs()) {
		bad = "nil proof misbehaves"
	}
	if bad != "" {
		c.Fail("nil", "nil proof: %s", bad)
	}
	c.Sample("[0- 0- -1 -1 -1 0- ]: length, every step, items, bits, fold, encoding byte by byte and cut at every length")
}

func init() {
	fw.Register(fw.Check{ID: "K01", Level: fw.Exploration, Run: runK01,
		Rule: "every list length up to the bound with distinct hashes and every pattern over {A, B, nil hash} up to the pattern bound, every index and out-of-range ones, three layouts and the slice/value front ends, against an independent Merkle tree; non-trivial = an in-range proof was compared step by step"})
	fw.Register(fw.Check{ID: "K02", Level: fw.Exploration, Run: runK02,
		Rule: "every path up to the length over three hashes and both positions, every run pattern of longer paths under four position patterns, long runs up to the 16-bit limit; each compared with the plain path, encoded, decoded under several chunkings (short paths: every two-chunk split and every truncation); distinct paths"})
}
