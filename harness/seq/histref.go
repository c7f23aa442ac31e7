package seq

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sync"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"golang.org/x/crypto/sha3"
)

// Reference model of the history tree: a 64-level binary Merkle tree filled from the left; a missing
// right subtree counts as NilHash. Written from the documented layout, with its own hash calls.

func refHash(parts ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

var refNil = refHash()

func histVal(i uint64) []byte {
	var b [16]byte
	binary.BigEndian.PutUint64(b[:], i)
	copy(b[8:], "history!")
	return refHash(b[:])
}

// altVal is a value different from histVal(i), the same for all i.
var altVal = bytes.Repeat([]byte{0x5a}, 32)

func refRoot(vals [][]byte) []byte {
	if len(vals) == 0 {
		return refNil
	}
	cur := vals
	for l := 0; l < 64; l++ {
		next := make([][]byte, 0, (len(cur)+1)/2)
		for i := 0; i < len(cur); i += 2 {
			r := refNil
			if i+1 < len(cur) {
				r = cur[i+1]
			}
			next = append(next, refHash(cur[i], r))
		}
		cur = next
	}
	return cur[0]
}

// refFrontier is the right edge of a tree whose last index is last: enough to go on appending.
type refFrontier struct {
	last uint64
	val  []byte     // value at last
	left [64][]byte // left sibling at level l when bit l of last is set
}

func (f *refFrontier) root() []byte {
	h := f.val
	for l := 0; l < 64; l++ {
		if f.last>>l&1 == 1 {
			h = refHash(f.left[l], h)
		} else {
			h = refHash(h, refNil)
		}
	}
	return h
}

// append moves to last+1; the caller makes sure last is not the largest index.
func (f *refFrontier) append(v []byte) {
	h := f.val
	for l := 0; l < 64; l++ {
		if f.last>>l&1 == 1 {
			h = refHash(f.left[l], h)
		} else {
			f.left[l] = h
			break
		}
	}
	f.last++
	f.val = v
}

// proof of the last entry.
func (f *refFrontier) proof() trie.ProofChain {
	mp := common.NewMerkleProofs()
	for l := 0; l < 64; l++ {
		if f.last>>l&1 == 1 {
			mp.Append(common.BytesToHash(f.left[l]), true)
		} else {
			mp.Append(common.BytesToHash(refNil), false)
		}
	}
	return trie.ProofChain{trie.NewMerkleOnlyProof(trie.ProofMerkleOnly, mp)}
}

// refRoots caches the roots of histVal(0..n-1).
var (
	refRootsMu sync.Mutex
	refRoots   = map[uint64][]byte{}
	refEdge    *refFrontier
)

func histRoot(n uint64) []byte {
	if n == 0 {
		return refNil
	}
	refRootsMu.Lock()
	defer refRootsMu.Unlock()
	if refEdge == nil {
		refEdge = &refFrontier{val: histVal(0)}
		refRoots[1] = refEdge.root()
	}
	for refEdge.last+1 < n {
		refEdge.append(histVal(refEdge.last + 1))
		// only roots near lengths that are asked for would be needed, but hashing all is cheap enough
		refRoots[refEdge.last+1] = refEdge.root()
	}
	return refRoots[n]
}

var histPrefix = []byte("al")

func newHist(d db.Database, root []byte, strict bool) (*trie.HistoryTree, error) {
	return trie.NewHistoryTree(d, histPrefix, root, strict)
}

// checkProof: the proof encodes the index and folds from the value to the root.
func checkHistProof(ps trie.ProofChain, i uint64, v, root []byte) string {
	if k := ps.BigKey(); !k.IsUint64() || k.Uint64() != i {
		return fmt.Sprintf("proof of %d encodes index %s", i, k)
	}
	r, err := ps.Proof(common.BytesToHash(v))
	if err != nil || !bytes.Equal(r, root) {
		return fmt.Sprintf("proof of %d folds to %x (%v), the root is %x", i, r, err, root)
	}
	r, err = ps.HistoryProof(common.Height(i), v)
	if err != nil || !bytes.Equal(r, root) {
		return fmt.Sprintf("HistoryProof(%d) = %x, %v; the root is %x", i, r, err, root)
	}
	// (the largest height means no height)
	if _, err = ps.HistoryProof(common.Height(i+1), v); err == nil && i+1 != ^uint64(0) {
		return fmt.Sprintf("the proof of %d was accepted for height %d", i, i+1)
	}
	return ""
}

type trieItem = common.HashItem

func itemsProof(items []trieItem) trie.ProofChain {
	mp := common.NewMerkleProofs()
	for _, it := range items {
		mp.Append(it.Val, it.Order)
	}
	return trie.ProofChain{trie.NewMerkleOnlyProof(trie.ProofMerkleOnly, mp)}
}

// tamperItems calls f with every single-place change of the path items.
func tamperItems(items []trieItem, f func(what string, ti []trieItem)) {
	with := func(i int, it trieItem) []trieItem {
		c := append([]trieItem(nil), items...)
		c[i] = it
		return c
	}
	for i, it := range items {
		o := it
		o.Order = !o.Order
		f(fmt.Sprintf("side of item %d flipped", i), with(i, o))
		for _, b := range []int{0, 31} {
			h := it
			h.Val[b] ^= 1
			f(fmt.Sprintf("hash %d changed", i), with(i, h))
		}
		if !it.Val.IsNil() {
			h := it
			h.Val = common.NilHash
			f(fmt.Sprintf("hash %d replaced by the nil hash", i), with(i, h))
		}
		f(fmt.Sprintf("item %d dropped", i), append(append([]trieItem(nil), items[:i]...), items[i+1:]...))
		f(fmt.Sprintf("item %d doubled", i), append(append([]trieItem(nil), items[:i+1]...), items[i:]...))
		if i+1 < len(items) && items[i] != items[i+1] {
			c := append([]trieItem(nil), items...)
			c[i], c[i+1] = c[i+1], c[i]
			f(fmt.Sprintf("items %d and %d swapped", i, i+1), c)
		}
	}
}

// lendAppend appends a value from a buffer that the caller uses for other things afterwards.
func lendAppend(t interface{ Append(uint64, []byte) error }, i uint64, v []byte) error {
	b := bytes.Clone(v)
	err := t.Append(i, b)
	spoil(b)
	return err
}

// spoil overwrites a buffer that belongs to the caller.
func spoil(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}
