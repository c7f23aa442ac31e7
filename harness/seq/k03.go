package seq

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/stephenfire/go-rtl"

	"verif/harness/fw"
)

// A reference node proof and what it must fold to.
type npRef struct {
	typ   int
	hdr   trie.NodeHeader
	val   *common.Hash
	steps []pstep // nil: no child proofs
	has   bool    // child proofs present
}

func (r npRef) build(hs []common.Hash) *trie.NodeProof {
	n := &trie.NodeProof{PType: trie.ProofType(r.typ), Header: r.hdr.Clone(), ValueHash: r.val.Clone()}
	if r.has {
		n.ChildProofs = buildPath(r.steps)
	}
	return n
}

func (r npRef) String() string {
	v := "-"
	if r.val != nil {
		v = fmt.Sprintf("%x", r.val[:2])
	}
	c := "none"
	if r.has {
		c = pathString(r.steps)
	}
	return fmt.Sprintf("{type %#x header %x %x %x value %s children %s}", r.typ, byte(r.hdr.NT), []byte(r.hdr.KeyString), r.hdr.ChildrenFlag[:], v, c)
}

// headerIx is the header field a proof type stands for (-1: none); types from 0x80 to 0x9f are left
// open, the constant and its comment contradict each other there.
func headerIx(t int) (ix int, open bool) {
	switch t {
	case 0x20:
		return 12, false
	case 0x21:
		return 1, false
	case 0x23:
		return 13, false
	case 0x24:
		return 16, false
	case 0x25:
		return 17, false
	case 0x26:
		return 20, false
	}
	if t >= 0x30 && t < 0x80 {
		return t - 0x30, false
	}
	return -1, t >= 0x80 && t < 0xa0
}

func refHeaderHash(h trie.NodeHeader) []byte {
	b := []byte{byte(h.NT)}
	if byte(h.NT)&0x80 != 0 {
		k, err := rtl.Marshal([]byte(h.KeyString))
		if err != nil {
			panic(err)
		}
		b = append(b, k...)
	}
	if byte(h.NT)&0x40 != 0 {
		b = append(b, h.ChildrenFlag[:]...)
	}
	return refHash(b)
}

type refStep struct {
	h    []byte
	left bool
}

// fold gives the steps over which the node proof folds, or ok=false where it proves nothing.
func (r npRef) fold(hs []common.Hash) (st []refStep, ok bool) {
	var cs []refStep
	for _, s := range r.steps {
		cs = append(cs, refStep{hs[s.h][:], s.left})
	}
	ix, _ := headerIx(r.typ)
	switch {
	case r.typ <= 15:
		v := refNil
		if r.val != nil {
			v = r.val[:]
		}
		return append(cs, refStep{refHash(refHeaderHash(r.hdr), v), true}), true
	case r.typ == 0x10:
		st = []refStep{{refHeaderHash(r.hdr), true}}
		if r.has {
			if len(r.steps) > 1 {
				// several siblings are refused, unless they are one repeated hash, which is stored once
				return nil, false
			}
			for _, s := range cs {
				st = append(st, refStep{s.h, false})
			}
		}
		return st, true
	case r.typ == 0x11:
		if r.val == nil {
			return nil, false
		}
		return append([]refStep{{r.val[:], true}}, cs...), true
	case ix >= 0:
		if r.val == nil || len(r.steps) == 0 {
			return nil, false
		}
		return append([]refStep{{r.val[:], true}}, cs...), true
	case r.typ == 0xff:
		return cs, true
	}
	return nil, false
}

func foldSteps(h []byte, st []refStep) []byte {
	for _, s := range st {
		if s.left {
			h = refHash(s.h, h)
		} else {
			h = refHash(h, s.h)
		}
	}
	return h
}

func sameSteps(a []refStep, b []refStep) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i].h, b[i].h) || a[i].left != b[i].left {
			return false
		}
	}
	return true
}

func checkProofs(c trie.ProofChain, refs []npRef, hs []common.Hash) string {
	var st []refStep
	good := true
	for _, r := range refs {
		s, ok := r.fold(hs)
		if !ok {
			good = false
			break
		}
		st = append(st, s...)
	}
	leaf := common.BytesToHash(refHash([]byte("leaf")))
	keep := leaf
	got, err := c.Proof(leaf)
	if leaf != keep {
		return "Proof changed the hash to be proved"
	}
	var it []refStep
	err2 := c.Iterate(func(val []byte, order bool) error {
		it = append(it, refStep{bytes.Clone(val), order})
		return nil
	})
	items, err3 := c.ToItems()
	mp, err4 := c.ToMerkles()
	ev := trie.Proof{ToBeProof: &leaf, Proofs: c}
	got2, err5 := ev.Proof()
	if _, err := (trie.Proof{Proofs: c}).Proof(); err == nil {
		return "evidence without an object proves something"
	}
	if !good {
		if err == nil || err2 == nil || err3 == nil || err4 == nil || err5 == nil {
			return fmt.Sprintf("proves nothing, but Proof=%x,%v Iterate: %v ToItems: %v ToMerkles: %v evidence: %v", got, err, err2, err3, err4, err5)
		}
		if trie.VerifyProofChain(leaf, c, nil) || trie.VerifyProofChain(leaf, c, leaf[:]) || trie.VerifyProofChain(leaf, c, refNil) {
			return "proves nothing, but VerifyProofChain accepts"
		}
		return ""
	}
	want := foldSteps(keep[:], st)
	if err != nil || !bytes.Equal(got, want) || err5 != nil || !bytes.Equal(got2, want) {
		return fmt.Sprintf("Proof = %x,%v evidence %x,%v want %x", got, err, got2, err5, want)
	}
	if err2 != nil || !sameSteps(it, st) {
		return fmt.Sprintf("Iterate gives %d steps (%v), want %d", len(it), err2, len(st))
	}
	if err3 != nil || len(items) != len(st) {
		return fmt.Sprintf("ToItems gives %d steps (%v), want %d", len(items), err3, len(st))
	}
	for i, s := range st {
		if !bytes.Equal(items[i].Val[:], s.h) || items[i].Order != s.left {
			return fmt.Sprintf("item %d is %v", i, items[i])
		}
	}
	if err4 != nil {
		return fmt.Sprintf("ToMerkles: %v", err4)
	}
	if len(refs) > 0 {
		if g, err := mp.Proof(keep); err != nil || !bytes.Equal(g, want) || mp.Len() != len(st) {
			return fmt.Sprintf("ToMerkles folds to %x,%v in %d steps, want %x in %d", g, err, mp.Len(), want, len(st))
		}
	}
	if !trie.VerifyProofChain(keep, c, want) {
		return "VerifyProofChain rejects it"
	}
	other := bytes.Clone(want)
	other[0] ^= 1
	if trie.VerifyProofChain(keep, c, other) || trie.VerifyProofChain(keep, c, want[:31]) || trie.VerifyProofChain(keep, c, nil) {
		return "VerifyProofChain accepts another root"
	}
	wrong := keep
	wrong[31] ^= 1
	if trie.VerifyProofChain(wrong, c, want) {
		return "VerifyProofChain accepts another leaf"
	}
	if len(st) > 0 {
		for stop := range st {
			n := 0
			if err := c.Iterate(func([]byte, bool) error {
				if n == stop {
					return errors.New("stop")
				}
				n++
				return nil
			}); err == nil || n != stop {
				return fmt.Sprintf("Iterate stopped at %d went to %d, %v", stop, n, err)
			}
		}
	}
	return ""
}

// checkNPCodec: a chain survives cloning, the binary and the JSON form.
func checkNPCodec(c trie.ProofChain, refs []npRef, hs []common.Hash) string {
	cl := c.Clone()
	if !cl.Equal(c) || !c.Equal(cl) {
		return "clone is not Equal"
	}
	b, err := rtl.Marshal(c)
	if err != nil {
		return fmt.Sprintf("encoding: %v", err)
	}
	var d trie.ProofChain
	if err := rtl.Unmarshal(b, &d); err != nil || !d.Equal(c) {
		return fmt.Sprintf("decoded to %v (%v)", d, err)
	}
	if e := checkProofs(d, refs, hs); e != "" {
		return "decoded: " + e
	}
	js, err := json.Marshal(c)
	if err != nil {
		return fmt.Sprintf("JSON encoding: %v", err)
	}
	var j trie.ProofChain
	if err := json.Unmarshal(js, &j); err != nil || !j.Equal(c) {
		return fmt.Sprintf("JSON %s decoded to %v (%v)", js, j, err)
	}
	if e := checkProofs(j, refs, hs); e != "" {
		return "JSON decoded: " + e
	}
	if p := fw.Try(func() {
		_ = c.String()
		_ = c.InfoString(0)
		for _, n := range c {
			_, _, _ = n.String(), n.Summary(), n.InfoString(1)
		}
	}); p != nil {
		return fmt.Sprintf("printing panics: %v", p)
	}
	// every part takes part in Equal, and a clone shares nothing
	for i := range cl {
		for k, f := range []func(n *trie.NodeProof) bool{
			func(n *trie.NodeProof) bool { n.PType ^= 1; return true },
			func(n *trie.NodeProof) bool { n.Header.NT ^= 1; return true },
			func(n *trie.NodeProof) bool { n.Header.ChildrenFlag[1] ^= 1; return true },
			func(n *trie.NodeProof) bool {
				if len(n.Header.KeyString) == 0 {
					return false
				}
				n.Header.KeyString[0] ^= 1
				return true
			},
			func(n *trie.NodeProof) bool {
				if n.ValueHash == nil {
					n.ValueHash = new(common.Hash)
				} else {
					n.ValueHash[9] ^= 1
				}
				return true
			},
			func(n *trie.NodeProof) bool {
				if n.ChildProofs == nil || len(n.ChildProofs.Hashs) == 0 {
					return false
				}
				n.ChildProofs.Hashs[0][3] ^= 1
				return true
			},
			func(n *trie.NodeProof) bool {
				if n.ChildProofs == nil {
					n.ChildProofs = common.NewMerkleProofs()
				}
				n.ChildProofs.Append(hs[2], true)
				return true
			},
		} {
			x := c.Clone()
			if f(x[i]) && (x.Equal(c) || c.Equal(x)) {
				return fmt.Sprintf("change %d of node %d goes unnoticed by Equal", k, i)
			}
		}
	}
	if !cl.Equal(c) {
		return "changing clones changed the original"
	}
	if len(c) > 0 && (c.Equal(c[:len(c)-1]) || c[:len(c)-1].Equal(c)) {
		return "Equal to its prefix"
	}
	if b2, err := rtl.Marshal(c); err != nil || !bytes.Equal(b, b2) {
		return "changed by changing clones"
	}
	return ""
}

func runK03(c *fw.Ctx) {
	hs := []common.Hash{pathHash(0), pathHash(1), pathHash(2), common.NilHash}
	fail := func(d any, e string) { c.Fail(fmt.Sprint(d), "%v: %s", d, e) }
	// every proof type has one meaning
	for t := 0; t < 256; t++ {
		p := trie.ProofType(t)
		c.Evals.Add(1)
		ix, open := headerIx(t)
		gi, gok := p.IsProofHeaderProperty()
		bad := p.IsProofChild() != (t < 16) || p.IsProofValue() != (t == 16) || p.IsProofHdsSummary() != (t == 17) ||
			p.IsProofExistence() != (t == 0xfe) || p.IsProofMerkleOnly() != (t == 0xff)
		if bad || !open && (gok != (ix >= 0) || gok && gi != ix) {
			fail(fmt.Sprintf("type %#x", t), fmt.Sprintf("child %v value %v summary %v existence %v merkle %v header %d,%v", p.IsProofChild(), p.IsProofValue(), p.IsProofHdsSummary(), p.IsProofExistence(), p.IsProofMerkleOnly(), gi, gok))
		}
		if pc := fw.Try(func() { _ = p.String() }); pc != nil {
			fail(fmt.Sprintf("type %#x", t), fmt.Sprintf("String panics: %v", pc))
		}
		// constructors refuse foreign types
		if r := fw.Try(func() { trie.NewMerkleOnlyProof(p, nil) }) != nil; r != (t != 0xff) {
			fail(fmt.Sprintf("type %#x", t), fmt.Sprintf("NewMerkleOnlyProof refuses: %v", r))
		}
		if r := fw.Try(func() { trie.NewHeaderPropertyProof(p, &hs[0], nil) }) != nil; !open && r != (ix < 0) {
			fail(fmt.Sprintf("type %#x", t), fmt.Sprintf("NewHeaderPropertyProof refuses: %v", r))
		}
		n := trie.NewNodeProof(p, trie.NodeHeader{}, &hs[0], nil)
		if (n.ValueHash == nil) != (t == 16) || int(n.PType) != t {
			fail(fmt.Sprintf("type %#x", t), "NewNodeProof keeps the wrong value hash")
		}
	}
	// node proofs
	headers := []trie.NodeHeader{
		{},
		{NT: 0x20},
		{NT: 0x80, KeyString: trie.KeyPart{0x12}},
		{NT: 0xb5, KeyString: trie.KeyPart{0x6a, 0xbc}},
		{NT: 0x97, KeyString: trie.KeyPart{}},
		{NT: 0x40, ChildrenFlag: trie.ChildFlag{0x03, 0x80}},
		{NT: 0xe0, KeyString: trie.KeyPart{0xff, 0, 1}, ChildrenFlag: trie.ChildFlag{0, 1}},
	}
	var vals []*common.Hash
	vals = append(vals, nil, &hs[0], &hs[3])
	paths := []struct {
		has bool
		ps  []pstep
	}{{}, {has: true}}
	maxP := c.Pick(3, 4)
	for l := 1; l <= maxP; l++ {
		n := 1
		for i := 0; i < l; i++ {
			n *= 6
		}
		for x := 0; x < n; x++ {
			var ps []pstep
			for k, y := 0, x; k < l; k, y = k+1, y/6 {
				ps = append(ps, pstep{[]int{0, 1, 3}[y%6/2], y%2 == 1})
			}
			paths = append(paths, struct {
				has bool
				ps  []pstep
			}{true, ps})
		}
	}
	hash3 := []common.Hash{hs[0], hs[1], hs[2], hs[3]}
	// build with the real hash table: buildPath uses pathHash, so map index 3 by rebuilding
	mk := func(r npRef) *trie.NodeProof {
		n := r.build(hash3)
		if r.has {
			n.ChildProofs = common.NewMerkleProofs()
			for _, s := range r.steps {
				n.ChildProofs.Append(hash3[s.h], s.left)
			}
		}
		return n
	}
	// repeated siblings of a value proof are stored as one hash; such proofs never arise, and what they
	// prove is left open
	repeated := func(r npRef) bool {
		if r.typ != 0x10 || len(r.steps) < 2 {
			return false
		}
		for _, s := range r.steps {
			if s.h != r.steps[0].h {
				return false
			}
		}
		return true
	}
	types := []int{0, 1, 7, 15, 0x10, 0x11, 0x12, 0x1f, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x2f, 0x30, 0x31, 0x7f, 0xa0, 0xfd, 0xfe, 0xff}
	c.Parallel(len(types)*len(headers)*len(vals), func(i int, sl *fw.Slot) {
		base := npRef{typ: types[i/len(vals)/len(headers)], hdr: headers[i/len(vals)%len(headers)], val: vals[i%len(vals)]}
		for pi, p := range paths {
			r := base
			r.has, r.steps = p.has, p.ps
			if repeated(r) {
				continue
			}
			sl.Begin(func() string { return r.String() })
			n := mk(r)
			c.Evals.Add(1)
			refs := []npRef{r}
			if e := checkProofs(trie.ProofChain{n}, refs, hash3); e != "" {
				fail(r, e)
			}
			lf := common.BytesToHash(refHash([]byte("leaf")))
			st, ok := r.fold(hash3)
			got, err := n.Proof(lf)
			if (err == nil) != ok || ok && !bytes.Equal(got, foldSteps(lf[:], st)) {
				fail(r, fmt.Sprintf("node proof = %x,%v", got, err))
			}
			if ok {
				c.Nontriv.Add(1)
			}
			if pi < 60 {
				if e := checkNPCodec(trie.ProofChain{n}, refs, hash3); e != "" {
					fail(r, e)
				}
			}
		}
	})
	// chains
	menu := []npRef{
		{typ: 3, hdr: headers[5], has: true, steps: []pstep{{0, true}, {1, false}, {1, true}}},
		{typ: 15, hdr: headers[6], val: &hs[1]},
		{typ: 0x10, hdr: headers[3]},
		{typ: 0x10, hdr: headers[6], has: true, steps: []pstep{{1, false}}},
		{typ: 0x11, val: &hs[0], has: true, steps: []pstep{{0, false}}},
		{typ: 0x21, val: &hs[1], has: true, steps: []pstep{{0, false}, {0, false}}},
		{typ: 0x7f, val: &hs[1], has: true, steps: []pstep{{3, true}}},
		{typ: 0xff, has: true, steps: []pstep{{3, true}, {3, false}, {0, true}}},
		{typ: 0xff, has: true},
		{typ: 0xff},
		{typ: 0xfe, hdr: headers[5], has: true, steps: []pstep{{0, true}}},
		{typ: 0x11, has: true},
	}
	maxC := c.Pick(3, 4)
	total := 0
	for l, n := 0, 1; l <= maxC; l, n = l+1, n*len(menu) {
		l, n := l, n
		total += n
		c.Parallel(n, func(x int, sl *fw.Slot) {
			var refs []npRef
			var ch trie.ProofChain
			for k, y := 0, x; k < l; k, y = k+1, y/len(menu) {
				r := menu[y%len(menu)]
				if false {
					// a Merkle proof without siblings proves nothing but itself
				}
				refs = append(refs, r)
				ch = append(ch, mk(r))
			}
			sl.Begin(func() string { return fmt.Sprint(refs) })
			c.Evals.Add(1)
			c.Nontriv.Add(1)
			if e := checkProofs(ch, refs, hash3); e != "" {
				fail(refs, e)
			}
			if e := checkNPCodec(ch, refs, hash3); e != "" && l > 0 {
				fail(refs, e)
			}
			onlyMerkle := l > 0
			want := new(big.Int)
			pos := 0
			for _, r := range refs {
				if r.typ != 0xff || !r.has {
					onlyMerkle = false
				}
				for _, s := range r.steps {
					if s.left {
						want.SetBit(want, pos, 1)
					}
					pos++
				}
			}
			if onlyMerkle {
				if g := ch.BigKey(); g.Cmp(want) != 0 {
					fail(refs, fmt.Sprintf("BigKey %s want %s", g, want))
				}
				var st []refStep
				for _, r := range refs {
					s, _ := r.fold(hash3)
					st = append(st, s...)
				}
				hob := refHash([]byte("hob"))
				root := foldSteps(hob, st)
				if g, err := ch.HistoryProof(common.Height(want.Uint64()), hob); err != nil || !bytes.Equal(g, root) {
					fail(refs, fmt.Sprintf("HistoryProof = %x,%v want %x", g, err, root))
				}
				if g, err := ch.HistoryProof(common.Height(want.Uint64()+1), hob); err == nil {
					fail(refs, fmt.Sprintf("HistoryProof of another height = %x", g))
				}
				if g, err := ch.HistoryProof(common.NilHeight, hob); err != nil || !bytes.Equal(g, root) {
					fail(refs, fmt.Sprintf("HistoryProof without height = %x,%v", g, err))
				}
				if _, err := ch.HistoryProof(common.NilHeight, nil); err == nil {
					fail(refs, "HistoryProof of nothing succeeds")
				}
			}
		})
	}
	c.Extra("chains", total)
	runHeaderProofs(c, fail)
	c.Sample("a branch proof of child 3 with three siblings under a header proof of field 1: fold, steps, items, flattened Merkle proof, binary and JSON form, every single-part change")
	c.Sample("fields 0..22 of a block header and two packed summaries proved for (chain, height, field) and asked for every other chain, height and field")
}

// runHeaderProofs builds block headers and packed header lists the way the proof types document
// them, and asks every proof about every chain, height and field.
func runHeaderProofs(c *fw.Ctx, fail func(any, string)) {
	chains := []common.ChainID{0, 1, 2, 256, 1 << 24, 0x01020304, common.NilChainID - 1}
	heights := []common.Height{0, 1, 2, 255, 256, 1 << 32, 0x0102030405060708, common.NilHeight - 1}
	pos := func(id common.ChainID, h common.Height) []byte {
		b := binary.BigEndian.AppendUint32(nil, uint32(id))
		return binary.BigEndian.AppendUint64(b, uint64(h))
	}
	typesOf := map[int][]trie.ProofType{}
	for t := 0; t < 256; t++ {
		if ix, _ := headerIx(t); ix >= 0 {
			typesOf[ix] = append(typesOf[ix], trie.ProofType(t))
		}
	}
	c.Parallel(len(chains)*len(heights), func(i int, sl *fw.Slot) {
		id, h := chains[i/len(heights)], heights[i%len(heights)]
		for _, fields := range []int{1, 2, 21, 22, 32, 80} {
			if fields > 32 && i%5 != 0 {
				continue
			}
			var leaves, vals [][]byte
			for f := 0; f < fields; f++ {
				vals = append(vals, refHash([]byte(fmt.Sprintf("field %d", f))))
				leaves = append(leaves, refHash(refHash(append(pos(id, h), byte(f))), vals[f]))
			}
			root, _, _ := refMerkle(leaves, -1)
			for f := 0; f < fields; f++ {
				for _, t := range typesOf[f] {
					d := fmt.Sprintf("field %d of %d of block %d of chain %d as %s", f, fields, h, id, t)
					sl.Begin(func() string { return d })
					c.Evals.Add(1)
					c.Nontriv.Add(1)
					mp := common.NewMerkleProofs()
					if _, err := common.MerkleHashComplete(leaves, f, mp); err != nil {
						fail(d, err.Error())
					}
					ixh := common.BytesToHash(common.HeaderIndexHash(common.ToHeaderPosHashBuffer(id, h), byte(f)))
					n := trie.NewHeaderPropertyProof(t, &ixh, mp)
					got, err := n.Proof(common.BytesToHash(vals[f]))
					if err != nil || !bytes.Equal(got, root) {
						fail(d, fmt.Sprintf("folds to %x,%v want %x", got, err, root))
					}
					for _, id2 := range chains {
						for _, h2 := range heights {
							same := id2 == id && h2 == h
							if g := n.IsHeaderOf(id2, h2); g != same {
								fail(d, fmt.Sprintf("IsHeaderOf(%d,%d) = %v", id2, h2, g))
							}
							if n.IsHdsSummaryOf(id2, h2) {
								fail(d, fmt.Sprintf("IsHdsSummaryOf(%d,%d)", id2, h2))
							}
							for _, f2 := range []int{f, f - 1, f + 1, 0, 1, 12, 13, 255, -1, f + 256, f - 256} {
								if g := n.IsHeaderPropertyOf(id2, h2, f2); g != (same && f2 == f) {
									fail(d, fmt.Sprintf("IsHeaderPropertyOf(%d,%d,%d) = %v", id2, h2, f2, g))
								}
							}
						}
					}
					// the same hash under the type of another field
					for _, t2 := range []trie.ProofType{0x20, 0x21, 0x23, 0x26, 0x30, 0x31, 0x7f} {
						if ix, _ := headerIx(int(t2)); ix != f {
							m := n.Clone()
							m.PType = t2
							if m.IsHeaderOf(id, h) || m.IsHeaderPropertyOf(id, h, ix) || m.IsHeaderPropertyOf(id, h, f) {
								fail(d, fmt.Sprintf("still a header proof as %s", t2))
							}
						}
					}
					for _, t2 := range []trie.ProofType{0, 0x10, 0x11, 0xfe, 0xff} {
						m := n.Clone()
						m.PType = t2
						if m.IsHeaderOf(id, h) || m.IsHeaderPropertyOf(id, h, f) || m.IsHdsSummaryOf(id, h) {
							fail(d, fmt.Sprintf("still a header proof as %s", t2))
						}
					}
					m := n.Clone()
					m.ValueHash = nil
					var nilp *trie.NodeProof
					if m.IsHeaderOf(id, h) || m.IsHeaderPropertyOf(id, h, f) || nilp.IsHeaderOf(id, h) || nilp.IsHeaderPropertyOf(id, h, f) || nilp.IsHdsSummaryOf(id, h) {
						fail(d, "a header proof without its hash")
					}
				}
			}
		}
		// packed summaries
		for n := 1; n <= 5; n++ {
			var leaves [][]byte
			for k := 0; k < n; k++ {
				leaves = append(leaves, refHash(refHash(pos(id+common.ChainID(k), h)), refHash([]byte{byte(k)})))
			}
			root, _, _ := refMerkle(leaves, -1)
			for k := 0; k < n; k++ {
				mp := common.NewMerkleProofs()
				if _, err := common.MerkleHashComplete(leaves, k, mp); err != nil {
					fail("summary", err.Error())
				}
				buf := common.ToHeaderPosHashBuffer(id+common.ChainID(k), h)
				s := common.BytesToHash(common.Hash256NoError(buf[:12]))
				p := trie.NewHdsSummaryProof(&s, mp)
				d := fmt.Sprintf("summary %d of %d of chain %d at %d", k, n, id, h)
				c.Evals.Add(1)
				got, err := p.Proof(common.BytesToHash(refHash([]byte{byte(k)})))
				if err != nil || !bytes.Equal(got, root) {
					fail(d, fmt.Sprintf("folds to %x,%v want %x", got, err, root))
				}
				for _, id2 := range append([]common.ChainID{id + common.ChainID(k)}, chains...) {
					for _, h2 := range heights {
						if g := p.IsHdsSummaryOf(id2, h2); g != (id2 == id+common.ChainID(k) && h2 == h) {
							fail(d, fmt.Sprintf("IsHdsSummaryOf(%d,%d) = %v", id2, h2, g))
						}
						if p.IsHeaderOf(id2, h2) || p.IsHeaderPropertyOf(id2, h2, 1) {
							fail(d, fmt.Sprintf("header proof of (%d,%d)", id2, h2))
						}
					}
				}
			}
		}
	})
}

func init() {
	fw.Register(fw.Check{ID: "K03", Level: fw.Exploration, Run: runK03,
		Rule: "every proof type; node proofs of every kind over seven headers, three value hashes and every sibling path up to the length over three hashes and both positions, and every chain of up to three (thorough: four) of twelve node proofs, against an independent fold; block header fields and packed summaries proved for chains and heights and asked for every other chain, height, field and type; non-trivial: a proof that folds"})
}
