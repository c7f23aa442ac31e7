package seq

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"

	common "github.com/ThinkiumGroup/go-common"
	"golang.org/x/crypto/ripemd160"

	"verif/harness/fw"
)

func bytesOf(alpha []byte, q []int) []byte {
	b := make([]byte, len(q))
	for i, x := range q {
		b[i] = alpha[x]
	}
	return b
}

// refSubBits: bits [from, from+size) of bs read as one big-endian number, bit 0 the lowest.
func refSubBits(bs []byte, from, size int) []byte {
	x := new(big.Int).SetBytes(bs)
	total := len(bs) * 8
	if size > total-from {
		size = total - from
	}
	x.Rsh(x, uint(from))
	x.And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(size)), big.NewInt(1)))
	r := make([]byte, (size+7)/8)
	raw := x.Bytes()
	copy(r[len(r)-len(raw):], raw)
	return r
}

const maxI = int(^uint(0) >> 1)

func runB05(c *fw.Ctx) {
	alpha := []byte{0x00, 0x01, 0x80, 0xa5, 0xff}
	n := c.Pick(4, 5)
	c.Extra("bytes", n)
	c.Parallel(len(alpha)*len(alpha), func(i int, s *fw.Slot) {
		rest := n - 2
		words(len(alpha), rest, func(q []int) {
			b := append([]byte{alpha[i/len(alpha)], alpha[i%len(alpha)]}, bytesOf(alpha, q)...)
			s.Begin(func() string { return fmt.Sprintf("%x", b) })
			checkSlice(c, b)
			s.End()
		})
	})
	checkSlice(c, nil)
	checkSlice(c, []byte{})
	for _, x := range alpha {
		checkSlice(c, []byte{x})
	}
	// longer ones, around the byte and word boundaries
	long := make([]byte, 40)
	for i := range long {
		long[i] = byte(i*73 + 29)
	}
	for l := 5; l <= len(long); l++ {
		checkSlice(c, long[:l])
	}
	for b0 := 0; b0 < 256; b0 += 1 {
		for b1 := 0; b1 < 256; b1 += 1 + b0&7 {
			for sh := 0; sh < 10; sh++ {
				for l := 0; l <= 9; l++ {
					c.Evals.Add(1)
					bits := 8
					if l > 0 && l < 8 {
						bits = l
					}
					want := byte((b1<<8|b0)>>(sh&7)) & byte(1<<bits-1)
					got := common.ShiftBits(byte(b0), byte(b1), uint8(sh), uint8(l))
					if got != want {
						c.Fail("shift", "ShiftBits(%#x, %#x, %d, %d) = %#x, not %#x", b0, b1, sh, l, got, want)
					}
					if bits == 8 && common.ShiftBits(byte(b0), byte(b1), uint8(sh)) != want {
						c.Fail("shift", "ShiftBits(%#x, %#x, %d)", b0, b1, sh)
					}
				}
			}
		}
	}
	checkSliceSets(c)
	checkPrinting(c)
	checkHexHelpers(c)
	checkPaths(c)
	checkComparers(c)
	checkNodeSets(c)
}

func checkSlice(c *fw.Ctx, b []byte) {
	keep := append([]byte(nil), b...)
	fail := func(f string, a ...any) { c.Fail("slice", "%x: %s", keep, fmt.Sprintf(f, a...)) }
	defer func() {
		if !bytes.Equal(b, keep) {
			fail("is changed to %x", b)
		}
	}()
	pos := []int{-maxI, -1, 0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, len(b)*8 - 1, len(b) * 8, len(b)*8 + 1, maxI - 7, maxI}
	if len(b) <= 3 {
		for i := 0; i <= len(b)*8+1; i++ {
			pos = append(pos, i)
		}
	}
	for _, from := range pos {
		for _, size := range pos {
			c.Evals.Add(1)
			var r []byte
			var err error
			if p := fw.Try(func() { r, err = common.SubBytes(b, from, size) }); p != nil {
				fail("bits from %d, %d of them: panic %v", from, size, p)
				continue
			}
			switch {
			case from < 0 || size <= 0:
				if err == nil {
					fail("bits from %d, %d of them, are not refused", from, size)
				}
			case from >= len(b)*8:
				if err != nil || len(r) != 0 {
					fail("bits from %d, %d of them: %x, %v", from, size, r, err)
				}
			default:
				want := refSubBits(b, from, size)
				if err != nil || !bytes.Equal(r, want) {
					fail("bits from %d, %d of them: %x, %v; not %x", from, size, r, err, want)
				}
				if len(r) > 0 {
					scribble(r)
					c.Nontriv.Add(1)
				}
			}
		}
	}
	for size := -3; size <= len(b)+2; size++ {
		var r [][]byte
		var err error
		if p := fw.Try(func() { r, err = common.SplitBytes(b, size) }); p != nil {
			fail("splitting by %d: panic %v", size, p)
			continue
		}
		ok := size > 0 && len(b)%size == 0
		if (err == nil) != ok {
			fail("splitting by %d: %x, %v", size, r, err)
			continue
		}
		if ok {
			joined := common.ConcatenateBytes(r)
			bad := len(r) != len(b)/size || !bytes.Equal(joined, b) || joined == nil
			for _, x := range r {
				bad = bad || len(x) != size
				scribble(x)
			}
			if bad {
				fail("splitting by %d: %x, joined %x", size, r, joined)
			}
			scribble(joined)
		}
	}
	for l := -1; l <= len(b)+9; l++ {
		left, right := common.LeftPadBytes(b, l), common.RightPadBytes(b, l)
		w1, w2 := b, b
		if l > len(b) {
			w1 = append(make([]byte, l-len(b)), b...)
			w2 = append(append([]byte(nil), b...), make([]byte, l-len(b))...)
		}
		if !bytes.Equal(left, w1) || !bytes.Equal(right, w2) {
			fail("padded to %d: %x and %x", l, left, right)
		}
		if l > len(b) {
			scribble(left)
			scribble(right)
		}
	}
	for i, cp := range [][]byte{common.CopyBytes(b), common.CloneByteSlice(b), common.BytesForRLP(b)} {
		if !bytes.Equal(cp, b) || (cp == nil) != (b == nil && i < 2) {
			fail("copies to %x (%v)", cp, cp == nil)
		}
		scribble(cp)
	}
	rev := common.ReverseBytes(append([]byte(nil), b...))
	for i := range rev {
		if rev[i] != b[len(b)-1-i] {
			fail("reversed is %x", rev)
			break
		}
	}
	h := common.Bytes2Hex(b)
	if h != fmt.Sprintf("%x", b) || !bytes.Equal(common.Hex2Bytes(h), b) || !bytes.Equal(common.FromHex("0x"+h), b) || !bytes.Equal(common.FromHex(h), b) || !bytes.Equal(common.FromHex("0X"+strings.ToUpper(h)), b) {
		fail("in hex: %s", h)
	}
	for l := 0; l <= len(b)+3; l++ {
		w := b
		if l > len(b) {
			w = append(make([]byte, l-len(b)), b...)
		}
		if g := common.Hex2BytesFixed(h, l); !bytes.Equal(g, w[len(w)-l:]) {
			fail("in hex fixed to %d: %x", l, g)
		}
	}
	for _, from := range []int{-maxI, -2, -1, 0, 1, 2, len(b) - 1, len(b), len(b) + 1, maxI} {
		for _, to := range []int{-maxI, -2, -1, 0, 1, 2, len(b) - 1, len(b), len(b) + 1, maxI} {
			for i, p := range []func() []byte{
				func() []byte { return common.ForPrintSlice(b, from, to) },
				func() []byte { return common.ForPrint(b, from, to) },
				func() []byte { return common.ForPrint(string(b), from, to) },
				func() []byte { return common.ForPrint(&b, from, to) },
				func() []byte { return common.ForPrint(hexBytes(b), from, to) },
			} {
				c.Evals.Add(1)
				var r []byte
				if pn := fw.Try(func() { r = p() }); pn != nil {
					fail("printing (%d) from %d to %d: panic %v", i, from, to, pn)
					continue
				}
				if from >= 0 && from < to && to <= len(b) {
					if !bytes.Equal(r, b[from:to]) {
						fail("printing (%d) from %d to %d: %x", i, from, to, r)
					}
				} else if !bytes.Contains(b, r) {
					fail("printing (%d) from %d to %d: %x", i, from, to, r)
				}
			}
		}
	}
}

type hexBytes []byte

func checkSliceSets(c *fw.Ctx) {
	// lists of short byte strings: joining, copying, comparing, intersecting
	elems := [][]byte{nil, {}, {1}, {1, 2}, {2}}
	norm := func(x [][]byte) string {
		m := map[string]bool{}
		for _, b := range x {
			m[string(b)] = true
		}
		var s []string
		for k := range m {
			s = append(s, fmt.Sprintf("%x", k))
		}
		sort.Strings(s)
		return strings.Join(s, ",")
	}
	var lists [][][]byte
	words(len(elems), 3, func(q []int) {
		l := [][]byte{}
		for _, x := range q {
			l = append(l, elems[x])
		}
		lists = append(lists, l)
	})
	lists = append(lists, nil)
	for _, a := range lists {
		cp := common.CopyBytesSlice(a)
		if (cp == nil) != (a == nil) || len(cp) != len(a) || !common.BytesSliceEqual(a, cp) || !common.BytesSliceEqual(cp, a) {
			c.Fail("lists", "%x copies to %x", a, cp)
		}
		var want []byte
		for i, x := range a {
			want = append(want, x...)
			if (cp[i] == nil) != (x == nil) {
				c.Fail("lists", "%x copies to %x", a, cp)
			}
			if len(cp[i]) > 0 {
				cp[i][0] ^= 1
				if len(x) > 0 && cp[i][0] == x[0] {
					c.Fail("lists", "a copy of %x shares its bytes", a)
				}
			}
		}
		if j := common.ConcatenateBytes(a); j == nil || !bytes.Equal(j, want) {
			c.Fail("lists", "%x joins to %x", a, j)
		}
		for _, b := range lists {
			c.Evals.Add(1)
			eq := len(a) == len(b)
			for i := 0; eq && i < len(a); i++ {
				eq = bytes.Equal(a[i], b[i])
			}
			if common.BytesSliceEqual(a, b) != eq {
				c.Fail("lists", "%x equals %x: %v", a, b, !eq)
			}
			var both [][]byte
			bm := map[string]struct{}{}
			am := map[string]struct{}{}
			for _, x := range b {
				bm[string(x)] = struct{}{}
			}
			for _, x := range a {
				am[string(x)] = struct{}{}
				if _, ok := bm[string(x)]; ok {
					both = append(both, x)
				}
			}
			got, got2 := common.BytesIntersection(a, b), common.BytesIntersectionMap(am, b)
			if norm(got) != norm(both) || norm(got2) != norm(both) || len(got) != len(got2) || len(got) != len(common.BytesIntersection(b, a)) {
				c.Fail("lists", "%x and %x share %x (%x)", a, b, got, got2)
			}
			m := map[string]bool{}
			for _, x := range got {
				if m[string(x)] {
					c.Fail("lists", "%x and %x share %x, with repetitions", a, b, got)
				}
				m[string(x)] = true
			}
		}
	}
}

type namedStr string

func checkPrinting(c *fw.Ctx) {
	var nilAddr *common.Address
	var nilHash *common.Hash
	var nilBytes []byte
	var nilAny any
	addr := common.Address{1, 2, 3}
	vals := []any{nil, nilAddr, nilHash, nilBytes, &nilBytes, &nilAddr, []byte{}, []byte{1}, "", "a", "abcdefgh", namedStr("xyz"), [0]byte{}, [1]byte{7}, [9]byte{1, 2, 3}, &[9]byte{1, 2, 3}, &[0]byte{}, addr, &addr, common.Hash{}, common.NodeID{5},
		5, 3.5, true, []int{1, 2}, [2]int{1, 2}, []string{}, []string{"a", "b"}, map[string]int{"a": 1}, map[string]int(nil), struct{}{}, struct{ a any }{nil}, func() {}, make(chan int), &nilAny, []any{nil, 1, nilAddr, []byte{1}}, []*common.Address{nil, &addr}, [2]*common.Hash{},
		[]common.Address{addr}, common.NodeIDs{{1}}, common.NodeIDs(nil), [][]byte{nil, {}, {1, 2}}, [][]byte(nil), big.NewInt(5), (*big.Int)(nil), common.Height(3), new(common.Height), []fmt.Stringer{nil, addr, nilAddr}, errInjected, []error{nil, errInjected},
		common.ChainIDs{1, 1 << 20}, common.NilHeight, []common.Height{1}, []common.Infoer{nil, common.NodeID{3}}, common.IndentLevel(3), uint8(3), []*common.Seed{nil}, (*common.ChainInfos)(nil), &common.ChainInfos{}, []*common.ChainInfos{nil, {}}}
	for _, v := range vals {
		for _, poss := range [][]int{nil, {0}, {-1}, {3}, {maxI}, {0, 0}, {0, 3}, {2, 1}, {-3, -1}, {100, 200}, {1, maxI}, {1, 2, 3}} {
			c.Evals.Add(1)
			if p := fw.Try(func() { common.ForPrint(v, poss...) }); p != nil {
				c.Fail("print", "ForPrint(%T, %v): panic %v", v, poss, p)
			}
		}
		for _, m := range [][]int{nil, {-1}, {0}, {1}, {100}} {
			if p := fw.Try(func() { common.ForPrintSliceString(v, m...) }); p != nil {
				c.Fail("print", "ForPrintSliceString(%T, %v): panic %v", v, m, p)
			}
		}
		for _, l := range []common.IndentLevel{-3, 0, 1, 3} {
			c.Evals.Add(1)
			if p := fw.Try(func() { l.InfoString(v) }); p != nil {
				c.Fail("print", "InfoString(%T): panic %v", v, p)
			}
			if bss, ok := v.([][]byte); ok {
				if p := fw.Try(func() { l.DoubleByteSlice(bss) }); p != nil {
					c.Fail("print", "DoubleByteSlice: panic %v", p)
				}
				for _, n := range []int{-1, 0, 1, 5} {
					if p := fw.Try(func() { common.PrintBytesSlice(bss, n) }); p != nil {
						c.Fail("print", "PrintBytesSlice(%x, %d): panic %v", bss, n, p)
					}
				}
			}
		}
	}
	for _, arr := range []any{[9]byte{1, 2, 3, 4, 5, 6, 7, 8, 9}, &[9]byte{1, 2, 3, 4, 5, 6, 7, 8, 9}} {
		if g := common.ForPrint(arr, 2, 4); !bytes.Equal(g, []byte{3, 4}) {
			c.Fail("print", "bytes 2 to 4 of an array: %x", g)
		}
		if g := common.ForPrint(arr); !bytes.Equal(g, []byte{1, 2, 3, 4, 5}) {
			c.Fail("print", "first bytes of an array: %x", g)
		}
		if g := common.ForPrint(arr, 7); !bytes.Equal(g, []byte{8, 9}) {
			c.Fail("print", "last bytes of an array: %x", g)
		}
	}
	if s := common.PrintBytesSlice([][]byte{{1, 2, 3}, {}, {4}}, 2); s != "[0102, , 04]" {
		c.Fail("print", "PrintBytesSlice: %s", s)
	}
	if s := common.ForPrintSliceString([]string{"a", "b", "c"}, 2); s != "[a b]" {
		c.Fail("print", "ForPrintSliceString: %s", s)
	}
}

func checkHexHelpers(c *fw.Ctx) {
	alpha := "09afAFgxX "
	words(len(alpha), 4, func(q []int) {
		b := make([]byte, len(q))
		for i, x := range q {
			b[i] = alpha[x]
		}
		s := string(b)
		body := s
		pre := len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')
		if pre {
			body = s[2:]
		}
		digits := true
		for i := 0; i < len(body); i++ {
			digits = digits && hexDigit(body[i]) >= 0
		}
		all := len(s)%2 == 0
		for i := 0; i < len(s); i++ {
			all = all && hexDigit(s[i]) >= 0
		}
		c.Evals.Add(1)
		if common.HasHexPrefix(s) != pre || common.IsHex(s) != all {
			c.Fail("hex", "%q: prefix %v, hex %v", s, common.HasHexPrefix(s), common.IsHex(s))
		}
		d, err := common.DecodeHex(s)
		ok := digits && len(body)%2 == 0
		if (err == nil) != ok || ok && fmt.Sprintf("%x", d) != strings.ToLower(body) {
			c.Fail("hex", "DecodeHex(%q) = %x, %v", s, d, err)
		}
		if digits {
			if len(body)%2 == 1 {
				body = "0" + body
			}
			if g := common.FromHex(s); fmt.Sprintf("%x", g) != strings.ToLower(body) {
				c.Fail("hex", "FromHex(%q) = %x", s, g)
			}
		}
	})
	for x := 0; x < 256; x++ {
		if common.IsHexCharacter(byte(x)) != (hexDigit(byte(x)) >= 0) {
			c.Fail("hex", "character %q", x)
		}
	}
}

func checkPaths(c *fw.Ctx) {
	for _, p := range []string{"", "/", "a", "a/", "/a/b", "a//", "."} {
		want := p
		if p == "" {
			want = "./"
		} else if !strings.HasSuffix(p, "/") {
			want += "/"
		}
		c.Evals.Add(1)
		if g := common.FormalizeBasePath(p); g != want || common.FormalizeBasePath(g) != g {
			c.Fail("path", "%q becomes %q", p, g)
		}
		for _, id := range []common.ChainID{0, 1, 1 << 20, 1<<32 - 1} {
			if g := common.DatabasePath(p, id); g != fmt.Sprintf("%sdb%d", p, uint32(id)) {
				c.Fail("path", "database of chain %d in %q: %q", uint32(id), p, g)
			}
		}
	}
}

func checkComparers(c *fw.Ctx) {
	ptr := func(i int) *int { return &i }
	vals := []*int{nil, ptr(1), ptr(1), ptr(2)}
	for _, a := range vals {
		for _, b := range vals {
			cmp, need := common.PointerCompare(a, b)
			wc := 0
			if a == nil && b != nil {
				wc = -1
			} else if a != nil && b == nil {
				wc = 1
			}
			c.Evals.Add(1)
			if cmp != wc || need != (a != nil && b != nil) {
				c.Fail("compare", "PointerCompare: %d %v", cmp, need)
			}
			l := []*int{a, b}
			less, need := common.PointerSliceLess(l, 0, 1)
			if less != (wc < 0) || need != (a != nil && b != nil) {
				c.Fail("compare", "PointerSliceLess: %v %v", less, need)
			}
			for _, ij := range [][2]int{{0, 0}, {-1, 0}, {0, -1}, {2, 0}, {0, 2}} {
				if less, need := common.PointerSliceLess(l, ij[0], ij[1]); less || need {
					c.Fail("compare", "PointerSliceLess at %v", ij)
				}
			}
		}
	}
	for _, bad := range []any{nil, 5, []int{1, 2}, []*int(nil)} {
		if less, need := common.PointerSliceLess(bad, 0, 1); less || need {
			c.Fail("compare", "PointerSliceLess of %T", bad)
		}
	}
	var lists [][]int
	words(3, 3, func(q []int) { lists = append(lists, append([]int{}, q...)) })
	lists = append(lists, nil)
	for _, a := range lists {
		for _, b := range lists {
			want := 0
			switch {
			case a == nil && b == nil:
			case a == nil:
				want = -1
			case b == nil:
				want = 1
			case len(a) != len(b):
				want = cmpU(uint64(len(a)), uint64(len(b)))
			default:
				for i := range a {
					if want == 0 {
						want = cmpU(uint64(a[i]), uint64(b[i]))
					}
				}
			}
			got := common.CompareSlices(a, b, func(x, y interface{}) int { return cmpU(uint64(x.(int)), uint64(y.(int))) })
			c.Evals.Add(1)
			if got != want {
				c.Fail("compare", "CompareSlices(%v, %v) = %d", a, b, got)
			}
		}
	}
}

// lists of node ids as sets
func checkNodeSets(c *fw.Ctx) {
	var lists []common.NodeIDs
	words(3, 3, func(q []int) {
		l := common.NodeIDs{}
		for _, x := range q {
			l = append(l, nodeN(byte(x*100)))
		}
		lists = append(lists, l)
	})
	lists = append(lists, nil)
	set := func(l common.NodeIDs) map[byte]bool {
		m := map[byte]bool{}
		for _, n := range l {
			m[n[0]] = true
		}
		return m
	}
	for _, a := range lists {
		cl := a.Clone()
		if !cl.Equal(a) || (cl == nil) != (a == nil) || a.Len() != len(a) {
			c.Fail("nodes", "%v clones to %v", a, cl)
		}
		if len(cl) > 0 {
			cl[0][9] ^= 1
			if cl.Equal(a) || a.Equal(cl) {
				c.Fail("nodes", "a clone of %v shares its entries", a)
			}
		}
		bs := a.ToBytesSlice()
		raw := common.PackNodeIdsToBytes(a)
		back, err := common.ParseBytesToNodeIds(raw)
		bb, err2 := common.ParseBytesToNodeIdBytes(raw)
		if err != nil || err2 != nil || !common.NodeIDs(back).Equal(a) || !common.BytesSliceEqual(bb, bs) || len(bs) != len(a) || len(raw) != 64*len(a) {
			c.Fail("nodes", "%v packs to %d bytes and unpacks to %v", a, len(raw), back)
		}
		uniq := set(a)
		ids, err := common.ByteSlicesToNodeIDs(bs)
		if (err == nil) != (len(uniq) == len(a)) || err == nil && !ids.Equal(a) {
			c.Fail("nodes", "%v as byte strings: %v, %v", a, ids, err)
		}
		if len(a.ToMap()) != len(uniq) {
			c.Fail("nodes", "%v as a map: %v", a, a.ToMap())
		}
		var hashes []common.Hash
		for _, n := range a {
			hashes = append(hashes, n.Hash())
		}
		for x := 0; x < 3; x++ {
			in := uniq[byte(x*100)]
			id := nodeN(byte(x * 100))
			if a.Contains(id) != in || a.IsIn(id) != in || common.IsNodeIDIn(hashes, id) != in {
				c.Fail("nodes", "%v contains %v: %v", a, id, !in)
			}
		}
		srt := a.Clone()
		sort.Sort(srt)
		for i := 1; i < len(srt); i++ {
			if bytes.Compare(srt[i-1][:], srt[i][:]) > 0 {
				c.Fail("nodes", "%v sorts to %v", a, srt)
			}
		}
		for _, l := range []int{1, 63, 65, 127} {
			if _, err := common.ParseBytesToNodeIds(make([]byte, l)); err == nil {
				c.Fail("nodes", "%d bytes unpack to node ids", l)
			}
			if _, err := common.ParseBytesToNodeIdBytes(make([]byte, l)); err == nil {
				c.Fail("nodes", "%d bytes unpack to node ids", l)
			}
			if _, err := common.ByteSlicesToNodeIDs([][]byte{make([]byte, l)}); err == nil {
				c.Fail("nodes", "%d bytes are a node id", l)
			}
		}
		for _, b := range lists {
			c.Evals.Add(1)
			k1, k2 := a.Clone(), b.Clone()
			u, r := a.Union(b), a.Remove(b)
			if !a.Equal(k1) || !b.Equal(k2) {
				c.Fail("nodes", "joining %v and %v changes them", k1, k2)
			}
			us, rs, as, bs := set(u), set(r), set(a), set(b)
			bad := len(us) != len(u) || len(rs) != len(r)
			for x := 0; x < 3; x++ {
				k := byte(x * 100)
				bad = bad || us[k] != (as[k] || bs[k]) || rs[k] != (as[k] && !bs[k])
			}
			if bad {
				c.Fail("nodes", "%v with %v: %v; without: %v", a, b, u, r)
			}
			eq := len(a) == len(b)
			for i := 0; eq && i < len(a); i++ {
				eq = a[i] == b[i]
			}
			if a.Equal(b) != eq {
				c.Fail("nodes", "%v equals %v: %v", a, b, !eq)
			}
		}
	}
}

// ---------------------------------------------------------------- B06

func runB06(c *fw.Ctx) {
	checkFixed(c, "address", 20, map[string]func(b []byte) []byte{
		"BytesToAddress":  func(b []byte) []byte { a := common.BytesToAddress(b); return a[:] },
		"BytesToAddressP": func(b []byte) []byte { return common.BytesToAddressP(b)[:] },
		"SetBytes": func(b []byte) []byte {
			a := common.BytesToAddress(bytes.Repeat([]byte{0xee}, 20))
			a.SetBytes(b)
			return a[:]
		},
		"HexToAddress": func(b []byte) []byte { a := common.HexToAddress("0x" + hex.EncodeToString(b)); return a[:] },
		"FromHex":      func(b []byte) []byte { a := common.HexToAddress(strings.ToUpper(hex.EncodeToString(b))); return a[:] },
		"BigToAddress": func(b []byte) []byte { a := common.BigToAddress(new(big.Int).SetBytes(b)); return a[:] },
	})
	checkFixed(c, "hash", 32, map[string]func(b []byte) []byte{
		"BytesToHash":  func(b []byte) []byte { a := common.BytesToHash(b); return a[:] },
		"BytesToHashP": func(b []byte) []byte { return common.BytesToHashP(b)[:] },
		"SetBytes": func(b []byte) []byte {
			a := common.BytesToHash(bytes.Repeat([]byte{0xee}, 32))
			a.SetBytes(b)
			return a[:]
		},
		"HexToHash": func(b []byte) []byte { a := common.HexToHash("0x" + hex.EncodeToString(b)); return a[:] },
		"BigToHash": func(b []byte) []byte { a := common.BigToHash(new(big.Int).SetBytes(b)); return a[:] },
	})
	checkFixed(c, "node id", 64, map[string]func(b []byte) []byte{
		"BytesToNodeID":  func(b []byte) []byte { a := common.BytesToNodeID(b); return a[:] },
		"BytesToNodeIDP": func(b []byte) []byte { return common.BytesToNodeIDP(b)[:] },
		"SetBytes": func(b []byte) []byte {
			a := common.BytesToNodeID(bytes.Repeat([]byte{0xee}, 64))
			a.SetBytes(b)
			return a[:]
		},
		"ParseNodeIDBytes": func(b []byte) []byte { a, err := common.ParseNodeIDBytes(b); must(err); return a[:] },
		"ParseNodeID":      func(b []byte) []byte { a, err := common.ParseNodeID(hex.EncodeToString(b)); must(err); return a[:] },
		"StringsToNodeIDs": func(b []byte) []byte {
			a, err := common.StringsToNodeIDs([]string{hex.EncodeToString(b)})
			must(err)
			return a[0][:]
		},
		"AppendByHex": func(b []byte) []byte {
			ns := common.NodeIDs{{1}}
			must(ns.AppendByHex(hex.EncodeToString(b)))
			return ns[1][:]
		},
		"Dataserver": func(b []byte) []byte {
			a, err := common.Dataserver{NodeIDString: hex.EncodeToString(b)}.GetNodeID()
			must(err)
			return a[:]
		},
	})
	checkFixed(c, "seed", 20, map[string]func(b []byte) []byte{
		"BytesToSeed":  func(b []byte) []byte { a := common.BytesToSeed(b); return a[:] },
		"BytesToSeedP": func(b []byte) []byte { return common.BytesToSeedP(b)[:] },
		"SetBytes":     func(b []byte) []byte { return common.BytesToSeedP(bytes.Repeat([]byte{0xee}, 20)).SetBytes(b).Byte() },
	})
	vals := [][]byte{}
	for _, n := range []int{20, 32, 64} {
		for pos := 0; pos < n; pos++ {
			for _, x := range []byte{1, 0x80, 0xff, 0x0a} {
				b := make([]byte, n)
				b[pos] = x
				vals = append(vals, b)
			}
		}
		b := make([]byte, n)
		vals = append(vals, b)
		for s := 0; s < 8; s++ {
			b = make([]byte, n)
			for i := range b {
				b[i] = byte(i*(37+2*s) + s*91 + 5)
			}
			vals = append(vals, b)
		}
	}
	c.Parallel(len(vals), func(i int, s *fw.Slot) {
		s.Begin(func() string { return fmt.Sprintf("%x", vals[i]) })
		switch len(vals[i]) {
		case 20:
			checkAddress(c, vals[i], vals)
		case 32:
			checkHashForms(c, vals[i], vals)
		default:
			checkNodeForms(c, vals[i], vals)
		}
		s.End()
	})
	checkBadTexts(c)
	checkDerived(c)
	checkVersions(c)
	checkElections(c)
	checkHashes(c)
	checkJSONForms(c)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func checkFixed(c *fw.Ctx, what string, n int, forms map[string]func(b []byte) []byte) {
	for l := 0; l <= 2*n+1; l++ {
		for variant := 0; variant < 3; variant++ {
			b := make([]byte, l)
			for i := range b {
				b[i] = byte(i + 1 + variant*100)
				if variant == 2 {
					b[i] = 0
				}
			}
			keep := append([]byte(nil), b...)
			want := make([]byte, n)
			if l >= n {
				copy(want, b[l-n:])
			} else {
				copy(want[n-l:], b)
			}
			for name, f := range forms {
				c.Evals.Add(1)
				c.Nontriv.Add(1)
				var got []byte
				if p := fw.Try(func() { got = append([]byte(nil), f(b)...) }); p != nil {
					c.Fail("fixed", "%s of %d bytes: panic %v", name, l, p)
				} else if !bytes.Equal(got, want) {
					c.Fail("fixed", "%s of %x is %x, not %x", name, keep, got, want)
				}
				if !bytes.Equal(b, keep) {
					c.Fail("fixed", "%s changes its input", name)
					copy(b, keep)
				}
			}
		}
	}
}

func checkAddress(c *fw.Ctx, b []byte, all [][]byte) {
	a := common.BytesToAddress(b)
	fail := func(f string, x ...any) { c.Fail("address", "%x: %s", b, fmt.Sprintf(f, x...)) }
	hx := hex.EncodeToString(b)
	c.Evals.Add(1)
	c.Nontriv.Add(1)
	if !bytes.Equal(a.Bytes(), b) || !bytes.Equal(a.Slice(), b) || a.String() != hx || a.ToString() != hx || a.Big().Cmp(new(big.Int).SetBytes(b)) != 0 || common.BigToAddress(a.Big()) != a {
		fail("bytes, text or integer form")
	}
	h := a.Hash()
	if !bytes.Equal(h[:12], make([]byte, 12)) || !bytes.Equal(h[12:], b) {
		fail("as a hash: %x", h[:])
	}
	// checksummed hex: case follows the hash of the lower-case hex
	sum := refHash([]byte(hx))
	want := []byte("0x" + hx)
	for i := 2; i < len(want); i++ {
		nib := sum[(i-2)/2]
		if i%2 == 0 {
			nib >>= 4
		}
		if want[i] >= 'a' && nib&0xf >= 8 {
			want[i] -= 32
		}
	}
	if a.Hex() != string(want) {
		fail("hex %s, not %s", a.Hex(), want)
	}
	for _, t := range []string{a.Hex(), hx, "0X" + hx, strings.ToUpper(hx)} {
		if !common.IsHexAddress(t) || common.HexToAddress(t) != a {
			fail("text %s reads as %v", t, common.HexToAddress(t))
		}
	}
	txt, err := a.MarshalText()
	var a2, a3, a4 common.Address
	if err != nil || string(txt) != "0x"+hx || a2.UnmarshalText(txt) != nil || a2 != a {
		fail("marshals as %s, %v", txt, err)
	}
	js, err := json.Marshal(a)
	if err != nil || json.Unmarshal(js, &a3) != nil || a3 != a || a4.UnmarshalJSON(js) != nil || a4 != a {
		fail("JSON %s", js)
	}
	cl := a.Clone()
	if *cl != a || cl == &a || *a.Copy() != a || a.Value() != a || *(&a).ForRLP() != a {
		fail("clone")
	}
	if f := (&a).FromRLP(); (f == nil) != (a == common.EmptyAddress) || f != nil && (*f != a || f == &a) {
		fail("FromRLP")
	}
	cl[0]++
	if cl.Equal(&a) || a.Equal(cl) || !a.Equal(a.Copy()) {
		fail("equality")
	}
	for _, o := range all {
		if len(o) == 20 {
			x := common.BytesToAddress(o)
			if a.Cmp(&x) != bytes.Compare(b, o) || a.Equal(&x) != bytes.Equal(b, o) {
				fail("compared with %x: %d", o, a.Cmp(&x))
			}
		}
	}
	var none *common.Address
	if none.Cmp(&a) != -1 || a.Cmp(nil) != 1 || none.Cmp(nil) != 0 || none.Equal(&a) || a.Equal(nil) || !none.Equal(nil) || none.Clone() != nil || none.Slice() != nil || none.ToString() != "<nil>" || none.Value() != common.EmptyAddress || *none.ForRLP() != common.EmptyAddress || none.FromRLP() != nil {
		fail("nil")
	}
	sd := common.BytesToSeed(b)
	if !bytes.Equal(sd.Slice(), b) || sd.IsZero() != bytes.Equal(b, make([]byte, 20)) || !sd.Equal(sd.Clone()) || !sd.Equals(sd.Clone()) || sd.Clone() == &sd || sd.Equals(5) || sd.Equals(nil) || sd.Hash() != common.BytesToHash(refHash(b)) || sd.String() != hx[:10] {
		fail("as a seed")
	}
	for _, o := range all {
		if len(o) == 20 {
			x := common.BytesToSeed(o)
			if sd.Equal(&x) != bytes.Equal(b, o) || sd.Equals(&x) != bytes.Equal(b, o) {
				fail("as a seed, equals %x", o)
			}
		}
	}
	var ns *common.Seed
	if ns.Clone() != nil || ns.Slice() != nil || ns.IsZero() || !ns.Equal(nil) || ns.Equal(&sd) || sd.Equal(nil) || ns.Equals(&sd) || ns.Hash() != common.NilHash {
		fail("nil seed")
	}
}

func checkHashForms(c *fw.Ctx, b []byte, all [][]byte) {
	h := common.BytesToHash(b)
	fail := func(f string, x ...any) { c.Fail("hash", "%x: %s", b, fmt.Sprintf(f, x...)) }
	hx := "0x" + hex.EncodeToString(b)
	c.Evals.Add(1)
	c.Nontriv.Add(1)
	hv, err := h.HashValue()
	if !bytes.Equal(h.Bytes(), b) || !bytes.Equal(h.Slice(), b) || h.Hex() != hx || h.String() != hx || h.Big().Cmp(new(big.Int).SetBytes(b)) != 0 || common.BigToHash(h.Big()) != h || common.HexToHash(hx) != h || common.HexToHash(hx[2:]) != h || *common.NewHash(b) != h || !bytes.Equal(hv, b) || err != nil || h.PrintString() != hx[2:12] {
		fail("bytes, text or integer form")
	}
	txt, err := h.MarshalText()
	var h2, h3 common.Hash
	if err != nil || string(txt) != hx || h2.UnmarshalText(txt) != nil || h2 != h {
		fail("marshals as %s, %v", txt, err)
	}
	js, err := json.Marshal(h)
	if err != nil || json.Unmarshal(js, &h3) != nil || h3 != h {
		fail("JSON %s", js)
	}
	cl := h.Clone()
	if *cl != h || cl == &h || *(&h).ForRLP() != h || (&h).ForRLP() == &h {
		fail("clone")
	}
	if f := (&h).FromRLP(); (f == nil) != (h == common.EmptyHash) || f != nil && (*f != h || f == &h) {
		fail("FromRLP")
	}
	for _, o := range all {
		if len(o) == 32 {
			x := common.BytesToHash(o)
			if common.HashLess(h, x) != (bytes.Compare(b, o) < 0) || h.Equal(&x) != bytes.Equal(b, o) || h.SliceEqual(o) != bytes.Equal(b, o) || common.HashEquals(&h, &x) != bytes.Equal(b, o) || common.HashSliceEquals(b, o) != bytes.Equal(b, o) ||
				common.HashsEquals([]common.Hash{h, h}, []common.Hash{h, x}) != bytes.Equal(b, o) {
				fail("compared with %x", o)
			}
		}
	}
	nilv, empty, node := bytes.Equal(b, common.NilHash[:]), bytes.Equal(b, make([]byte, 32)), h == common.EmptyNodeHash
	if h.IsNil() != nilv || h.IsEmpty() != empty || h.IsEmptyNode() != node || h.Invalid() != (nilv || empty || node) {
		fail("classified wrongly")
	}
	var none *common.Hash
	if none.Slice() != nil || none.Clone() != nil || none.PrintString() != "" || *none.ForRLP() != common.EmptyHash || none.FromRLP() != nil || !none.SliceEqual(nil) || none.SliceEqual(b) || !none.Equal(nil) || none.Equal(&h) || h.Equal(nil) {
		fail("nil")
	}
	hs := []common.Hash{h, {1}}
	cp := common.CopyHashs(hs)
	if !common.HashsEquals(hs, cp) || common.HashsEquals(hs, cp[:1]) || common.HashsEquals(hs, nil) || !common.HashsEquals(nil, nil) || common.CopyHashs(nil) != nil {
		fail("copy of a list")
	}
	cp[0][3] ^= 1
	if hs[0] != h {
		fail("a copied list shares entries")
	}
}

func checkNodeForms(c *fw.Ctx, b []byte, all [][]byte) {
	n := common.BytesToNodeID(b)
	fail := func(f string, x ...any) { c.Fail("node", "%x: %s", b, fmt.Sprintf(f, x...)) }
	hx := hex.EncodeToString(b)
	c.Evals.Add(1)
	c.Nontriv.Add(1)
	hv, err := (&n).HashValue()
	if !bytes.Equal(n.Bytes(), b) || n.String() != hx[:10] || n.InfoString(0) != hx || err != nil || !bytes.Equal(hv, refHash(b)) || n.Hash() != common.BytesToHash(hv) {
		fail("bytes, text or hash")
	}
	txt, err := n.MarshalText()
	var n2, n3 common.NodeID
	if err != nil || string(txt) != "0x"+hx || n2.UnmarshalText(txt) != nil || n2 != n {
		fail("marshals as %s, %v", txt, err)
	}
	js, err := json.Marshal(n)
	if err != nil || json.Unmarshal(js, &n3) != nil || n3 != n {
		fail("JSON %s", js)
	}
	p, err := common.ParseNodeID(strings.ToUpper(hx))
	if err != nil || *p != n {
		fail("text reads as %v, %v", p, err)
	}
	cl := (&n).Clone()
	if *cl != n || cl == &n || *n.New() != n {
		fail("clone")
	}
	for _, o := range all {
		if len(o) == 64 {
			x := common.BytesToNodeID(o)
			if n.Compare(&x) != bytes.Compare(b, o) || (common.NodeIDs{n, x}).Less(0, 1) != (bytes.Compare(b, o) < 0) {
				fail("compared with %x", o)
			}
		}
	}
	var none *common.NodeID
	if none.Compare(&n) != -1 || n.Compare(nil) != 1 || none.Compare(nil) != 0 || none.Clone() != nil {
		fail("nil")
	}
}

func checkBadTexts(c *fw.Ctx) {
	type target struct {
		n     int
		parse func(s string) error
	}
	ts := map[string]target{
		"Address": {20, func(s string) error { var a common.Address; return a.UnmarshalText([]byte(s)) }},
		"Hash":    {32, func(s string) error { var a common.Hash; return a.UnmarshalText([]byte(s)) }},
		"NodeID":  {64, func(s string) error { var a common.NodeID; return a.UnmarshalText([]byte(s)) }},
	}
	for name, t := range ts {
		good := "0x" + strings.Repeat("5a", t.n)
		if err := t.parse(good); err != nil {
			c.Fail("text", "%s refuses %s: %v", name, good, err)
		}
		bad := []string{good[2:], "0", "x", good + "0", good + "00", "0x" + good, " " + good, good + " "}
		for i := 2; i < len(good); i++ {
			bad = append(bad, good[:i], good[:i]+good[i+1:], good[:i]+"g"+good[i+1:], good[:i]+" "+good[i+1:], good[:i]+"\x00"+good[i+1:])
		}
		for _, s := range bad {
			c.Evals.Add(1)
			if t.parse(s) == nil {
				c.Fail("text", "%s accepts %q", name, s)
			}
		}
	}
	good := strings.Repeat("5a", 64)
	for i := 0; i < 128; i++ {
		for _, r := range []string{"g", " ", "x", "-"} {
			s := good[:i] + r + good[i+1:]
			if _, err := common.ParseNodeID(s); err == nil {
				c.Fail("text", "ParseNodeID accepts %q", s)
			}
			if _, err := common.StringsToNodeIDs([]string{good, s}); err == nil {
				c.Fail("text", "StringsToNodeIDs accepts %q", s)
			}
			ns := common.NodeIDs{{1}}
			if err := ns.AppendByHex(s); err == nil || len(ns) != 1 {
				c.Fail("text", "AppendByHex accepts %q", s)
			}
			a := "0x" + s[:40]
			if i < 40 && common.IsHexAddress(a) {
				c.Fail("text", "IsHexAddress accepts %q", a)
			}
		}
	}
	for l := 0; l < 90; l++ {
		s := strings.Repeat("a", l)
		if common.IsHexAddress(s) != (l == 40) || common.IsHexAddress("0x"+s) != (l == 40) {
			c.Fail("text", "IsHexAddress of %d digits", l)
		}
	}
	for l := 0; l < 150; l++ {
		d := common.Dataserver{NodeIDString: strings.Repeat("a", l), IP: "1", BasicPort: 1, ConsensusPort0: 1, ConsensusPort1: 1}
		if (d.Validation() == nil) != (l == 128) {
			c.Fail("text", "a data server with %d digits of node id: %v", l, d.Validation())
		}
	}
}

func checkDerived(c *fw.Ctx) {
	seen := map[common.Address]string{}
	add := func(a common.Address, what string, want []byte) {
		c.Evals.Add(1)
		if !bytes.Equal(a[:], want[12:]) {
			c.Fail("derived", "%s is %v, not %x", what, a, want[12:])
		}
		if o, ok := seen[a]; ok {
			c.Fail("derived", "%s and %s are the same address", what, o)
		}
		seen[a] = what
	}
	var bases []common.Address
	for i := 0; i < 20; i++ {
		var a common.Address
		a[i] = 0x81
		bases = append(bases, a)
	}
	bases = append(bases, common.Address{})
	rlpUint := func(n uint64) []byte {
		if n == 0 {
			return []byte{0x80}
		}
		b := new(big.Int).SetUint64(n).Bytes()
		if len(b) == 1 && b[0] < 0x80 {
			return b
		}
		return append([]byte{0x80 + byte(len(b))}, b...)
	}
	for _, b := range bases {
		for _, n := range []uint64{0, 1, 127, 128, 255, 256, 1<<16 - 1, 1 << 16, 1<<32 - 1, 1 << 32, 1<<56 - 1, 1 << 56, maxU64} {
			body := append(append([]byte{0x94}, b[:]...), rlpUint(n)...)
			add(common.CreateAddress(b, n), fmt.Sprintf("contract %d of %v", n, b), refHash(append([]byte{0xc0 + byte(len(body))}, body...)))
		}
		for i := -1; i < 32; i++ {
			var salt [32]byte
			if i >= 0 {
				salt[i] = 7
			}
			for _, code := range [][]byte{nil, {0}, {1}, bytes.Repeat([]byte{9}, 32)} {
				add(common.CreateAddress2(b, salt, code), fmt.Sprintf("contract with salt %x and code %x of %v", salt, code, b), refHash([]byte{0xff}, b[:], salt[:], code))
			}
		}
	}
	for i := -1; i < 64; i++ {
		pub := make([]byte, 65)
		pub[0] = 4
		if i >= 0 {
			pub[1+i] = 0x31
		}
		a, err := common.AddressFromPubSlice(pub)
		if err != nil {
			c.Fail("derived", "public key %x: %v", pub, err)
			continue
		}
		add(a, fmt.Sprintf("key %x", pub), refHash(pub[1:]))
		for _, bad := range []byte{0, 2, 3, 5, 0xff} {
			pub[0] = bad
			if _, err := common.AddressFromPubSlice(pub); err == nil {
				c.Fail("derived", "public key of form %d accepted", bad)
			}
		}
	}
	if _, err := common.AddressFromPubSlice(nil); err == nil {
		c.Fail("derived", "no public key accepted")
	}
	if _, err := common.AddressFromPubSlice([]byte{}); err == nil {
		c.Fail("derived", "no public key accepted")
	}
	// positions of headers
	ps := map[[13]byte]string{}
	for _, id := range []common.ChainID{0, 1, 256, 1 << 20, 1<<32 - 1} {
		for _, h := range []common.Height{0, 1, 256, 1 << 32, common.NilHeight} {
			p := common.ToHeaderPosHashBuffer(id, h)
			k := fmt.Sprint(uint32(id), uint64(h))
			if o, ok := ps[p]; ok {
				c.Fail("derived", "%s and %s have the same position", k, o)
			}
			ps[p] = k
			for _, ix := range []byte{0, 1, 255} {
				q := p
				q[12] = ix
				if g := common.HeaderIndexHash(p, ix); !bytes.Equal(g, refHash(q[:])) {
					c.Fail("derived", "index hash of %s, %d: %x", k, ix, g)
				}
			}
		}
	}
}

func checkVersions(c *fw.Ctx) {
	xs := []uint64{0, 1, 2, 9, 10, 99, 100, 500, 998, 999, 1000, 1001, 1 << 32, maxU64}
	var prev common.Version
	first := true
	for _, a := range xs {
		for _, b := range xs {
			for _, p := range xs {
				c.Evals.Add(1)
				v, err := common.NewNodeVersion(a, b, p)
				if ok := a < 1000 && b < 1000 && p < 1000; (err == nil) != ok {
					c.Fail("version", "%d.%d.%d: %v", a, b, p, err)
					continue
				} else if !ok {
					continue
				}
				if v.Major() != a || v.Minor() != b || v.Patch() != p || v.String() != fmt.Sprintf("%d.%d.%d", a, b, p) || !first && v <= prev {
					c.Fail("version", "%d.%d.%d becomes %s after %s", a, b, p, v, prev)
				}
				prev, first = v, false
			}
		}
	}
}

func checkElections(c *fw.Ctx) {
	for i := 0; i < 256; i++ {
		t := common.ElectionType(i)
		c.Evals.Add(1)
		valid := i == 0 || i == 1 || i == 4
		if t.IsValid() != valid || t.IsVrf() != (i <= 1) || t.IsManaged() != (i == 4) || t.Exclusiveness() != (i >= 2 && i <= 4) || t.RewardNeeded() != (i <= 1) || t.String() == "" {
			c.Fail("election", "type %d is classified wrongly", i)
		}
		back, ok := common.StringToElectionType(t.Name())
		if !ok || (i == 1 || i == 4) && back != t || i == 0 && back != common.ETVrf {
			c.Fail("election", "type %d is named %s, which is %v", i, t.Name(), back)
		}
	}
	for _, s := range []string{"", "vrf", "VRF ", "None", "ManagedCommittee", "managed"} {
		if _, ok := common.StringToElectionType(s); ok {
			c.Fail("election", "%q is accepted", s)
		}
	}
	seen := map[string]int{}
	for i := 0; i < 256; i++ {
		n := common.NodeType(i).String()
		if o, ok := seen[n]; ok {
			c.Fail("election", "node types %d and %d are both named %s", i, o, n)
		}
		seen[n] = i
		m := common.ChainMode(i).String()
		if o, ok := seen[m]; ok {
			c.Fail("election", "chain mode %d is named as %d", i, o)
		}
		seen[m] = i
		k := common.NetType(i).String()
		if o, ok := seen[k]; ok {
			c.Fail("election", "net type %d is named as %d", i, o)
		}
		seen[k] = i
	}
}

func checkHashes(c *fw.Ctx) {
	var all []byte
	for i := 0; i < 300; i++ {
		all = append(all, byte(i*7+3))
	}
	for l := 0; l <= 300; l++ {
		for _, cut := range []int{0, 1, l / 2, l} {
			if cut > l {
				continue
			}
			a, b := all[:cut], all[cut:l]
			want := refHash(all[:l])
			c.Evals.Add(1)
			h2, err := common.Hash256s(a, b)
			h3, err3 := common.Hash256WithError(a, nil, b)
			h := common.Hash256(a, b)
			if err != nil || err3 != nil || !bytes.Equal(h2, want) || !bytes.Equal(h3[:], want) || !bytes.Equal(h[:], want) || !bytes.Equal(common.Hash256p(a, b)[:], want) || !bytes.Equal(common.Hash256NoError(a, b), want) || !bytes.Equal(common.SystemHash256(a, b), want) {
				c.Fail("hashes", "hash of %d+%d bytes: %x, not %x", cut, l-cut, h2, want)
			}
		}
		md := ripemd160.New()
		md.Write(all[:l])
		if g := common.HashRipemd160(all[:l]); !bytes.Equal(g, md.Sum(nil)) {
			c.Fail("hashes", "RIPEMD-160 of %d bytes: %x", l, g)
		}
	}
	for l := 0; l < 3; l++ {
		x, y := all[:l*16], all[l:l+32]
		p := common.HashPair(x, y)
		q, err := common.HashPairOrder(true, x, y)
		q2, err2 := common.HashPairOrder(false, x, y)
		if !bytes.Equal(p, refHash(x, y)) || err != nil || err2 != nil || !bytes.Equal(q2, refHash(x, y)) && !bytes.Equal(q, refHash(x, y)) || !bytes.Equal(q2, refHash(y, x)) && !bytes.Equal(q, refHash(y, x)) {
			c.Fail("hashes", "hash of a pair: %x", p)
		}
	}
}

// whole structures through JSON
func checkJSONForms(c *fw.Ctx) {
	var cs []common.ChainStruct
	for _, id := range []common.ChainID{0, 1, 1 << 20, 1<<32 - 1} {
		for _, m := range []common.ChainMode{common.Root, common.Branch, common.Shard, 0xff} {
			cs = append(cs, common.ChainStruct{ID: id, ParentID: id ^ 5, Mode: m})
		}
	}
	for _, s := range cs {
		js, err := json.Marshal(s)
		var b common.ChainStruct
		c.Evals.Add(1)
		if err != nil || json.Unmarshal(js, &b) != nil || b != s || s.Clone() != s {
			c.Fail("json", "%v becomes %v through %s", s, b, js)
		}
		x := newChain(1)
		x.ChainStruct = s
		x.AddDataNode(nodeN(4))
		x.AddBootNode(common.Dataserver{ChainID: uint32(s.ID), NodeIDString: nodeHex(7), IP: "::1", BasicPort: 65535, DataRpcPort: 9})
		_ = x.Attributes.Add(common.AttrNoGas)
		js, err = json.Marshal(x)
		var y common.ChainInfos
		if err != nil || json.Unmarshal(js, &y) != nil || !reflect.DeepEqual(*x, y) {
			c.Fail("json", "a chain configuration becomes %v through %s", &y, js)
		}
	}
	for _, e := range []common.Endpoint{{}, {NetType: "tcp"}, {Address: "1:2"}, {NetType: "tcp", Address: "1:2"}} {
		js, _ := json.Marshal(e)
		var b common.Endpoint
		if json.Unmarshal(js, &b) != nil || b != e || e.IsNil() != (e == common.Endpoint{}) || e.Network() != e.NetType || e.String() != e.Address {
			c.Fail("json", "endpoint %v becomes %v", e, b)
		}
	}
}
