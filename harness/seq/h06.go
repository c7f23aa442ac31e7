package seq

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/stephenfire/go-rtl"

	"verif/harness/fw"
)

func init() {
	fw.Register(fw.Check{ID: "H06", Level: fw.Exploration, Run: runH06,
		Rule: "every node of 0 to 16 leaves, and of 0 to 16 child nodes of 1 to 16 leaves: the hash of every one of its 31 positions, asked for in every ordered pair of first questions; its record read back, alone, in a stream, cut at every byte and with every first byte; records of all 65536 presence patterns of leaves; every byte to and from its bits"})
}

// h06hash: the documented hash at a position of a node whose first k leaves are given: nil when nothing is
// below it, a missing right neighbour counts as the nil hash.
func h06hash(leaves [][]byte, prefix []byte) []byte {
	lo, n := 0, 16
	for _, b := range prefix {
		n /= 2
		if b == 1 {
			lo += n
		}
	}
	if lo >= len(leaves) {
		return nil
	}
	if n == 1 {
		return leaves[lo]
	}
	p := append([]byte{}, prefix...)
	l, r := h06hash(leaves, append(p, 0)), h06hash(leaves, append(p, 1))
	if r == nil {
		r = refNil
	}
	return refHash(l, r)
}

func h06prefixes() [][]byte {
	out := [][]byte{{}}
	for i := 0; i < len(out); i++ {
		if len(out[i]) < 4 {
			out = append(out, append(append([]byte{}, out[i]...), 0), append(append([]byte{}, out[i]...), 1))
		}
	}
	return out
}

// h06node makes a node by reading a record written here: flag, known hashes, 16 values.
func h06node(leaf bool, vals [16][]byte) *trie.TreeNode {
	n := trie.NewTreeNode()
	var b bytes.Buffer
	if leaf {
		b.WriteByte(1)
	} else {
		b.WriteByte(0)
	}
	must(rtl.Encode(map[string][]byte{}, &b))
	must(rtl.Encode(vals, &b))
	nilNode, err := n.Deserialization(&b)
	if err != nil || nilNode {
		panic(fmt.Sprintf("reading a well-formed record: %v %v", nilNode, err))
	}
	return n
}

func h06same(a, b *trie.TreeNode) string {
	if a.IsLeaf() != b.IsLeaf() {
		return "one is a leaf node, the other is not"
	}
	if len(a.Branchs) != len(b.Branchs) {
		return fmt.Sprintf("known hashes %d, %d", len(a.Branchs), len(b.Branchs))
	}
	for k, v := range a.Branchs {
		if !bytes.Equal(v, b.Branchs[k]) {
			return fmt.Sprintf("hash at %x: %x, %x", k, v, b.Branchs[k])
		}
	}
	for i := 0; i < 16; i++ {
		if (a.Leafs[i] == nil) != (b.Leafs[i] == nil) || !bytes.Equal(a.Leafs[i], b.Leafs[i]) {
			return fmt.Sprintf("leaf %d: %x, %x", i, a.Leafs[i], b.Leafs[i])
		}
		if (a.Children[i] == nil) != (b.Children[i] == nil) {
			return fmt.Sprintf("child %d: %v, %v", i, a.Children[i] != nil, b.Children[i] != nil)
		}
		if a.Children[i] != nil {
			x, e1 := a.Children[i].HashValue()
			y, e2 := b.Children[i].HashValue()
			if e1 != nil || e2 != nil || !bytes.Equal(x, y) {
				return fmt.Sprintf("child %d hashes to %x (%v), %x (%v)", i, x, e1, y, e2)
			}
		}
	}
	return ""
}

func runH06(c *fw.Ctx) {
	for l := 1; l <= 8; l++ {
		for x := 0; x < 256; x++ {
			c.Evals.Add(1)
			bs, err := trie.ToBinary(byte(x), l)
			want := make([]byte, l)
			for i := range want {
				want[i] = byte(x >> (l - 1 - i) & 1)
			}
			if err != nil || !bytes.Equal(bs, want) {
				c.Fail("to binary", "ToBinary(%d,%d) = %x, %v", x, l, bs, err)
			}
			if y, err := trie.ToByte(bs); err != nil || int(y) != x&(1<<l-1) {
				c.Fail("to byte", "ToByte(%x) = %d, %v", bs, y, err)
			}
		}
	}
	for _, l := range []int{-1, 0, 9, 100} {
		if bs, err := trie.ToBinary(5, l); err == nil {
			c.Fail("to binary", "ToBinary(5,%d) = %x", l, bs)
		}
	}
	if b, err := trie.ToByte(make([]byte, 9)); err == nil {
		c.Fail("to byte", "ToByte of 9 bits = %d", b)
	}
	if b, err := trie.ToByte(nil); err != nil || b != 0 {
		c.Fail("to byte", "ToByte of no bits = %d %v", b, err)
	}

	prefixes := h06prefixes()
	leafNode := func(k int, from uint64) (*trie.TreeNode, [][]byte) {
		var vals [16][]byte
		for i := 0; i < k; i++ {
			vals[i] = histVal(from + uint64(i))
		}
		return h06node(true, vals), vals[:k]
	}
	// kinds of node: leaves, or children by their own hashes, or children that are whole nodes
	mk := func(kind, k, kk int) (*trie.TreeNode, [][]byte) {
		switch kind {
		case 0:
			return leafNode(k, 0)
		case 1:
			var vals [16][]byte
			for i := 0; i < k; i++ {
				vals[i] = histVal(uint64(500 + i))
			}
			return h06node(false, vals), vals[:k]
		}
		n := h06node(false, [16][]byte{})
		var hs [][]byte
		for i := 0; i < k; i++ {
			m := 16
			if i == k-1 {
				m = kk
			}
			ch, lv := leafNode(m, uint64(1000*i))
			n.Children[i] = ch
			hs = append(hs, h06hash(lv, nil))
		}
		return n, hs
	}
	type job struct{ kind, k, kk int }
	var jobs []job
	for k := 0; k <= 16; k++ {
		jobs = append(jobs, job{0, k, 0}, job{1, k, 0})
		for kk := 1; kk <= 16 && k > 0; kk++ {
			jobs = append(jobs, job{2, k, kk})
		}
	}
	name := func(j job) string {
		return fmt.Sprintf("%s %d, last of %d", [3]string{"leaf node of", "inner node of hashes", "inner node of nodes"}[j.kind], j.k, j.kk)
	}
	// a node with gaps (a partial one) says the same however often it is asked
	c.Parallel(256, func(hi int, s *fw.Slot) {
		s.Begin(func() string { return fmt.Sprintf("leaf nodes with leaves %02x??", hi) })
		defer s.End()
		for lo := 0; lo < 256; lo++ {
			var vals [16][]byte
			for i := range vals {
				if (hi<<8|lo)>>i&1 == 1 {
					vals[i] = histVal(uint64(i))
				}
			}
			n := h06node(true, vals)
			c.Evals.Add(1)
			var first []byte
			var fail error
			for k := 0; k < 3; k++ {
				h, err := n.HashValue()
				switch {
				case k == 0:
					first, fail = bytes.Clone(h), err
				case (err == nil) != (fail == nil) || !bytes.Equal(h, first):
					c.Fail("asking again", "node with leaves %016b: hash %x (%v), asked again %x (%v)", hi<<8|lo, first, fail, h, err)
				}
				spoil(h)
			}
		}
	})
	ask := func(j job, n *trie.TreeNode, hs [][]byte, p []byte, when string) {
		h, _, _, err := n.HashAtPrefix(p)
		if want := h06hash(hs, p); err != nil || !bytes.Equal(h, want) || (h == nil) != (want == nil) {
			c.Fail("position hash "+name(j), "%s, %s: hash at %x is %x (%v), want %x", name(j), when, p, h, err, want)
		}
		if len(h) > 0 {
			h[0] ^= 1 // the answer is the caller's
		}
	}
	whole := func(j job, n *trie.TreeNode, hs [][]byte, when string) {
		want := h06hash(hs, nil)
		if want == nil {
			want = refNil
		}
		if h, err := n.HashValue(); err != nil || !bytes.Equal(h, want) {
			c.Fail("node hash "+name(j), "%s, %s: hash %x (%v), want %x", name(j), when, h, err, want)
		}
		for i := -1; i <= 16; i++ {
			h, err := n.LeafHash(i)
			if i < 0 || i > 15 {
				if err == nil {
					c.Fail("leaf hash "+name(j), "%s: LeafHash(%d) = %x", name(j), i, h)
				}
				continue
			}
			var w []byte
			if i < len(hs) {
				w = hs[i]
			}
			if err != nil || !bytes.Equal(h, w) {
				c.Fail("leaf hash "+name(j), "%s, %s: LeafHash(%d) = %x (%v), want %x", name(j), when, i, h, err, w)
			}
		}
	}
	c.Parallel(len(jobs), func(ji int, s *fw.Slot) {
		j := jobs[ji]
		s.Begin(func() string { return name(j) })
		for _, p1 := range prefixes {
			for _, p2 := range prefixes {
				if j.kind == 2 && (len(p1) == 4 || len(p2) == 4) && !c.Thorough {
					continue // questions about single children
				}
				c.Evals.Add(1)
				n, hs := mk(j.kind, j.k, j.kk)
				ask(j, n, hs, p1, "asked first")
				text := n.String() + n.NoneRecursiveString()
				ask(j, n, hs, p2, fmt.Sprintf("asked after %x", p1))
				before := h06clone(n)
				var b bytes.Buffer
				if err := n.Serialization(&b); err != nil {
					c.Fail("write "+name(j), "%s: writing: %v", name(j), err)
				}
				m := trie.NewTreeNode()
				nn, err := m.Deserialization(bytes.NewReader(b.Bytes()))
				if err != nil || nn {
					c.Fail("read "+name(j), "%s asked about %x, %x: its record reads back with %v %v", name(j), p1, p2, nn, err)
				}
				if e := h06same(before, m); e != "" {
					c.Fail("record "+name(j), "%s asked about %x, %x: its record reads back as another node: %s", name(j), p1, p2, e)
				}
				whole(j, m, hs, "read back")
				whole(j, n, hs, "written")
				if strings.Count(text, "Node{") < 1 {
					c.Fail("text", "String of %s is %q", name(j), text)
				}
				if len(p1) == 4 && len(p2) == 4 {
					for _, p := range prefixes {
						ask(j, n, hs, p, "in the end")
					}
				}
			}
		}
		// cut records, wrong first bytes, streams
		n, hs := mk(j.kind, j.k, j.kk)
		ask(j, n, hs, []byte{0}, "")
		var b bytes.Buffer
		must(n.Serialization(&b))
		full := append([]byte{}, b.Bytes()...)
		for l := 0; l < len(full); l++ {
			c.Evals.Add(1)
			m := trie.NewTreeNode()
			var nn bool
			var err error
			if p := fw.Try(func() { nn, err = m.Deserialization(bytes.NewReader(full[:l])) }); p != nil {
				c.Fail("cut record "+name(j), "%s: record cut to %d of %d bytes: panic %v", name(j), l, len(full), p)
			}
			if err == nil {
				c.Fail("cut record "+name(j), "%s: record cut to %d of %d bytes is read as a node (%v)", name(j), l, len(full), nn)
			}
		}
		for f := 0; f < 256; f++ {
			if f < 2 {
				continue
			}
			rec := append([]byte{byte(f)}, full[1:]...)
			nn, err := trie.NewTreeNode().Deserialization(bytes.NewReader(rec))
			if f == 0x80 && (err != nil || !nn) || f != 0x80 && err == nil {
				c.Fail("first byte", "record beginning with %02x: %v %v", f, nn, err)
			}
		}
		var st bytes.Buffer
		must(n.Serialization(&st))
		must((*trie.TreeNode)(nil).Serialization(&st))
		n2, hs2 := mk(0, 16-j.k, 0)
		must(n2.Serialization(&st))
		vr := rtl.NewValueReader(&st, 0)
		a, z := trie.NewTreeNode(), trie.NewTreeNode()
		x1, e1 := a.Deserialization(vr)
		x2, e2 := trie.NewTreeNode().Deserialization(vr)
		x3, e3 := z.Deserialization(vr)
		if x1 || !x2 || x3 || e1 != nil || e2 != nil || e3 != nil {
			c.Fail("stream "+name(j), "%s in a stream: %v %v, %v %v, %v %v", name(j), x1, e1, x2, e2, x3, e3)
		}
		whole(j, a, hs, "from a stream")
		whole(job{0, 16 - j.k, 0}, z, hs2, "from a stream, last")
		// reset: nothing is left
		a.Reset()
		if h, err := a.HashValue(); err != nil || !bytes.Equal(h, refNil) || len(a.Branchs) != 0 {
			c.Fail("reset", "%s after Reset: hash %x (%v), %d hashes", name(j), h, err, len(a.Branchs))
		}
		for _, l := range []int{5, 6, 64} {
			if h, _, _, err := n.HashAtPrefix(make([]byte, l)); err == nil {
				c.Fail("long position", "hash at a position of %d bits: %x", l, h)
			}
		}
	})
	if h, err := (*trie.TreeNode)(nil).HashValue(); err != nil || !bytes.Equal(h, refNil) {
		c.Fail("nil node", "hash of no node: %x %v", h, err)
	}

	// all presence patterns, with and without known hashes, as leaves and as children
	c.Parallel(256, func(hi int, s *fw.Slot) {
		s.Begin(func() string { return fmt.Sprintf("patterns %02x..", hi) })
		for lo := 0; lo < 256; lo++ {
			pat := hi<<8 | lo
			for _, leaf := range []bool{true, false} {
				c.Evals.Add(1)
				var vals [16][]byte
				for i := range vals {
					if pat>>i&1 == 1 {
						vals[i] = histVal(uint64(i))
					}
				}
				n := h06node(leaf, vals)
				if leaf && !reflect.DeepEqual(n.Leafs, vals) {
					c.Fail("pattern", "leaves %04x read as %x", pat, n.Leafs)
				}
				if pat%3 == 1 {
					n.Branchs[string([]byte{0, 1})] = histVal(9)
					n.Branchs[string([]byte{1})] = histVal(8)
				}
				var b bytes.Buffer
				must(n.Serialization(&b))
				m := trie.NewTreeNode()
				if nn, err := m.Deserialization(&b); err != nil || nn {
					c.Fail("pattern", "record of pattern %04x (leaf %v) reads back with %v %v", pat, leaf, nn, err)
				}
				if e := h06same(n, m); e != "" {
					c.Fail("pattern", "record of pattern %04x (leaf %v) reads back as another node: %s", pat, leaf, e)
				}
			}
		}
	})
	c.Nontriv.Add(int64(len(jobs)))
}

// h06clone: the same node in other storage, as far as its record goes.
func h06clone(n *trie.TreeNode) *trie.TreeNode {
	m := *n
	m.Branchs = map[string][]byte{}
	for k, v := range n.Branchs {
		m.Branchs[k] = append([]byte{}, v...)
	}
	for i := range m.Leafs {
		if n.Leafs[i] != nil {
			m.Leafs[i] = append([]byte{}, n.Leafs[i]...)
		}
	}
	return &m
}
