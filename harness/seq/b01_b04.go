package seq

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"

	common "github.com/ThinkiumGroup/go-common"

	"verif/harness/fw"
)

// nilLess is the documented order of heights, epochs and eras: the nil marker (maximum) comes first.
func nilLess(x, y uint64) int { x++; y++; return cmpU(x, y) }

func cmpU(x, y uint64) int {
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}

func be(x uint64, n int) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, x)
	return b[8-n:]
}

const maxU64 = ^uint64(0)

func heights(b, e uint64) []uint64 {
	seen := map[uint64]bool{}
	add := func(x *big.Int) {
		for d := int64(-2); d <= 2; d++ {
			y := new(big.Int).Add(x, big.NewInt(d))
			if y.IsUint64() {
				seen[y.Uint64()] = true
			}
		}
	}
	for _, m := range []uint64{1, b, b * e, 2 * b, 3 * b * e} {
		bm := new(big.Int).SetUint64(m)
		for _, k := range []uint64{0, 1, 2, 3, 10, 1 << 20, maxU64 / m} {
			add(new(big.Int).Mul(bm, new(big.Int).SetUint64(k)))
		}
		if m > 1 {
			add(new(big.Int).Mul(bm, new(big.Int).SetUint64(maxU64/m-1)))
		}
	}
	for s := uint(0); s <= 64; s += 4 {
		add(new(big.Int).Lsh(big.NewInt(1), s))
	}
	var r []uint64
	for x := range seen {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func runB01(c *fw.Ctx) {
	b0, e0 := common.BlocksInEpoch, common.EpochsInEra
	defer func() { common.BlocksInEpoch, common.EpochsInEra = b0, e0 }()
	dims := [][2]uint64{{b0, e0}, {1, 1}, {1, 7}, {2, 3}, {7, 1}, {100, 36}, {1 << 16, 5}, {1000, 1000}, {1<<32 - 1, 4}}
	for _, d := range dims {
		b, e := d[0], d[1]
		common.BlocksInEpoch, common.EpochsInEra = b, e
		hs := heights(b, e)
		c.AddExtra("heights", int64(len(hs)))
		c.Parallel(len(hs), func(i int, s *fw.Slot) {
			x := hs[i]
			s.Begin(func() string { return fmt.Sprintf("%d blocks per epoch, %d epochs per era, height %d", b, e, x) })
			checkHeight(c, b, e, x)
			for _, y := range hs {
				c.Evals.Add(1)
				checkHeightPair(c, x, y)
			}
			s.End()
		})
		// joining: every epoch around the limits with every kind of block number
		for _, ep := range hs {
			for _, bn := range []uint64{0, 1, 2, b / 2, b - 1, b, b + 1, 1<<32 - 1, 1<<32 - 2} {
				if bn > 1<<32-1 {
					continue
				}
				c.Evals.Add(1)
				got := common.ToHeight(common.EpochNum(ep), common.BlockNum(bn))
				want := new(big.Int).Add(new(big.Int).Mul(new(big.Int).SetUint64(ep), new(big.Int).SetUint64(b)), new(big.Int).SetUint64(bn))
				if ep == maxU64 || bn >= b || !want.IsUint64() {
					if !got.IsNil() {
						c.Fail("join", "%d blocks per epoch: epoch %d and block %d give height %v, not the nil marker", b, ep, bn, uint64(got))
					}
				} else if uint64(got) != want.Uint64() {
					c.Fail("join", "%d blocks per epoch: epoch %d and block %d give height %v, not %v", b, ep, bn, uint64(got), want)
				}
			}
		}
		// proposals of a committee share the blocks of an epoch
		for _, n := range []int{1, 2, 3, 4, 7, 100, 999, 1000, 1001} {
			if b > 1<<20 {
				break
			}
			sum, min, max := 0, 1<<40, 0
			for i := 0; i < n; i++ {
				k := common.CommID(i).ShouldPropose(n)
				sum += k
				if k < min {
					min = k
				}
				if k > max {
					max = k
				}
			}
			c.Evals.Add(1)
			if uint64(sum) != b || max-min > 1 {
				c.Fail("propose", "a committee of %d shares %d blocks of an epoch as %d in all, between %d and %d each", n, b, sum, min, max)
			}
		}
	}
}

func checkHeight(c *fw.Ctx, b, e, x uint64) {
	h := common.Height(x)
	fail := func(f string, a ...any) {
		c.Fail("height", "%d blocks per epoch, %d epochs per era, height %d: %s", b, e, x, fmt.Sprintf(f, a...))
	}
	c.Evals.Add(1)
	ep, bn := h.Split()
	if x == maxU64 {
		if ep != common.NilEpoch || bn != common.NilBlock || !h.IsNil() || !ep.IsNil() || !bn.IsNil() || !h.EpochNum().IsNil() || !h.BlockNum().IsNil() || !h.EraNum().IsNil() ||
			h.UsefulEpoch() != 0 || h.UsefulBlock() != 0 || h.IsFirstOfEpoch() || h.IsLastOfEpoch() || !common.ToHeight(ep, bn).IsNil() || h.RemoveRemainder(common.Height(b)) != h && b > 1 ||
			!ep.FirstHeight().IsNil() || !ep.LastHeight().IsNil() {
			fail("the nil marker does not split into nil markers")
		}
	} else {
		c.Nontriv.Add(1)
		if uint64(ep) != x/b || uint64(bn) != x%b || h.EpochNum() != ep || h.BlockNum() != bn || h.UsefulEpoch() != ep || h.UsefulBlock() != bn || ep.IsNil() && x/b != maxU64 || bn.IsNil() {
			fail("splits into epoch %d block %d (%d %d, %d %d)", ep, bn, h.EpochNum(), h.BlockNum(), h.UsefulEpoch(), h.UsefulBlock())
		}
		if h2 := common.ToHeight(ep, bn); h2 != h {
			fail("splits into %d and %d, which join to %v", ep, bn, uint64(h2))
		}
		if h.IsNil() || !bn.IsValid() || bn.IsFirstOfEpoch() != (x%b == 0) || h.IsFirstOfEpoch() != (x%b == 0) || bn.IsLastOfEpoch() != (x%b == b-1) || h.IsLastOfEpoch() != (x%b == b-1) {
			fail("first/last of epoch: %v %v, %v %v", h.IsFirstOfEpoch(), bn.IsFirstOfEpoch(), h.IsLastOfEpoch(), bn.IsLastOfEpoch())
		}
		if uint64(h.EraNum()) != x/(b*e) {
			fail("is in era %d", h.EraNum())
		}
		for _, n := range []uint64{0, 1, 2, 3, b, b * e, x, x + 1, maxU64} {
			want := x
			if n > 1 {
				want = x - x%n
			}
			if r := h.RemoveRemainder(common.Height(n)); uint64(r) != want {
				fail("rounded down to a multiple of %d gives %v", n, uint64(r))
			}
		}
		first := new(big.Int).Mul(new(big.Int).SetUint64(uint64(ep)), new(big.Int).SetUint64(b))
		last := new(big.Int).Add(first, new(big.Int).SetUint64(b-1))
		if f := ep.FirstHeight(); uint64(f) != first.Uint64() || uint64(f) > x {
			fail("epoch %d starts at %v", ep, uint64(f))
		}
		if l := ep.LastHeight(); last.IsUint64() && uint64(l) != last.Uint64() || !last.IsUint64() && !l.IsNil() {
			fail("epoch %d ends at %v", ep, uint64(l))
		}
	}
	// x as an epoch: bounds never wrap
	en := common.EpochNum(x)
	lim := new(big.Int).Mul(new(big.Int).SetUint64(x), new(big.Int).SetUint64(b))
	if f := en.FirstHeight(); x != maxU64 && lim.IsUint64() && uint64(f) != lim.Uint64() || (x == maxU64 || !lim.IsUint64()) && !f.IsNil() {
		fail("as an epoch, starts at %v", uint64(f))
	}
	lim.Add(lim, new(big.Int).SetUint64(b-1))
	if l := en.LastHeight(); x != maxU64 && lim.IsUint64() && uint64(l) != lim.Uint64() || (x == maxU64 || !lim.IsUint64()) && !l.IsNil() {
		fail("as an epoch, ends at %v", uint64(l))
	}
	era, bl := common.EraNum(x), common.BlockNum(uint32(x))
	if !bytes.Equal(h.Bytes(), be(x, 8)) || !bytes.Equal(en.Bytes(), be(x, 8)) || !bytes.Equal(era.Bytes(), be(x, 8)) || !bytes.Equal(bl.Bytes(), be(x, 8)[4:]) || !bytes.Equal((&h).Slice(), be(x, 8)) || !bytes.Equal((&era).Slice(), be(x, 8)) {
		fail("bytes %x %x %x %x", h.Bytes(), en.Bytes(), era.Bytes(), bl.Bytes())
	}
	if common.BytesToHeight(h.Bytes()) != h || common.BytesToHeight(append([]byte{9, 9}, h.Bytes()...)) != h || common.BytesToHeight(new(big.Int).SetUint64(x).Bytes()) != h {
		fail("is read back from its bytes as %d", common.BytesToHeight(h.Bytes()))
	}
	if hh, ok := h.FromBig(new(big.Int).SetUint64(x)); !ok || hh != h {
		fail("from a big integer: %d %v", hh, ok)
	}
	if hh, ok := h.FromBig(new(big.Int).Add(new(big.Int).SetUint64(x), two64)); ok || hh != common.NilHeight {
		fail("from a too big integer: %d %v", hh, ok)
	}
	if hh, ok := h.FromBig(new(big.Int).Sub(big.NewInt(-1), new(big.Int).SetUint64(x))); ok || hh != common.NilHeight {
		fail("from a negative integer: %d %v", hh, ok)
	}
	id := common.ChainID(uint32(x))
	if !bytes.Equal(id.Bytes(), be(x, 8)[4:]) || !bytes.Equal(id.Formalize(), id.Bytes()) || common.BytesToChainID(id.Bytes()) != id || id.FromFormalize(id.Bytes()) != id || common.BytesToChainID(be(x, 8)) != id || common.BytesToChainID(new(big.Int).SetUint64(uint64(id)).Bytes()) != id {
		fail("as a chain id: bytes %x", id.Bytes())
	}
	if i2, ok := id.FromBig(new(big.Int).SetUint64(x)); ok != (x < 1<<32) || ok && uint64(i2) != x || !ok && i2 != common.NilChainID {
		fail("as a chain id from a big integer: %d %v", i2, ok)
	}
	if id.IsNil() != (uint32(x) == 1<<20) || id.IsMain() != (uint32(x) == 0) || id.IsReserved() != (uint32(x) < 1<<20) || id.IsUserDefined() != (uint32(x) > 1<<20) || id.IsSub() != (!id.IsNil() && !id.IsMain()) {
		fail("as a chain id: classified wrongly")
	}
	hv, err := h.HashValue()
	if err != nil || !bytes.Equal(hv, refHash(be(x, 8))) || (&h).Hash() != common.BytesToHash(hv) {
		fail("hashes to %x, %v", hv, err)
	}
	if c1, c2, c3 := (&h).Clone(), (&en).Clone(), (&era).Clone(); c1 == &h || c2 == &en || c3 == &era || *c1 != h || *c2 != en || *c3 != era {
		fail("clones wrongly")
	}
	dec := fmt.Sprint(x)
	if x == maxU64 {
		dec = "<nil>"
	}
	if h.String() != dec || en.String() != dec || era.String() != dec || (&en).ToString() != dec {
		fail("prints as %q %q %q", h.String(), en.String(), era.String())
	}
	if (&era).Value() != era || era.IsNil() != (x == maxU64) || en.IsNil() != (x == maxU64) || h.IsNil() != (x == maxU64) || bl.IsNil() != (uint32(x) == 1<<32-1) || bl.IsValid() != (uint64(uint32(x)) < b) {
		fail("nil and validity tests")
	}
	if x == 0 {
		var nh *common.Height
		var ne *common.EpochNum
		var nr *common.EraNum
		if nh.Clone() != nil || ne.Clone() != nil || nr.Clone() != nil || nh.String() != "" || ne.ToString() != "" || nr.String() != "" || nh.Slice() != nil || nr.Slice() != nil || !nr.Value().IsNil() || !nh.Equal(nil) || nh.Equal(&h) || h.Equal(nil) || nr.Equal(&era) || !nr.Equal(nil) ||
			ne.Cmp(nil) != 0 || ne.Cmp(&en) != -1 || en.Cmp(nil) != 1 || nr.Cmp(nil) != 0 || nr.Cmp(&era) != -1 || era.Cmp(nil) != 1 || nh.Hash() != common.NilHash || nr.Hash() != common.NilHash {
			fail("nil pointers")
		}
	}
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

func checkHeightPair(c *fw.Ctx, x, y uint64) {
	fail := func(f string, a ...any) { c.Fail("compare", "%d and %d: %s", x, y, fmt.Sprintf(f, a...)) }
	want := nilLess(x, y)
	hx, hy, ex, ey, rx, ry := common.Height(x), common.Height(y), common.EpochNum(x), common.EpochNum(y), common.EraNum(x), common.EraNum(y)
	if hx.Compare(hy) != want || ex.Compare(ey) != want || rx.Compare(ry) != want || ex.Cmp(&ey) != want || rx.Cmp(&ry) != want {
		fail("compare as %d %d %d", hx.Compare(hy), ex.Compare(ey), rx.Compare(ry))
	}
	if hx.Equal(&hy) != (x == y) || rx.Equal(&ry) != (x == y) {
		fail("equality")
	}
	// the nil marker counts as one before zero
	d := (y + 1) - (x + 1)
	if want > 0 {
		d = (x + 1) - (y + 1)
	}
	if v, r := hx.Diff(hy); v != d || r != want {
		fail("heights differ by %d, %d", v, r)
	}
	if v, r := ex.Diff(ey); v != d || r != want {
		fail("epochs differ by %d, %d", v, r)
	}
	if bytes.Compare(hx.Bytes(), hy.Bytes()) != cmpU(x, y) {
		fail("bytes compare differently")
	}
	ix, iy := common.ChainID(uint32(x)), common.ChainID(uint32(y))
	key := func(i common.ChainID) int64 {
		if i == 1<<20 {
			return -1
		}
		return int64(i)
	}
	w := 0
	if key(ix) < key(iy) {
		w = -1
	} else if key(ix) > key(iy) {
		w = 1
	}
	if ix.Compare(iy) != w {
		fail("chain ids compare as %d", ix.Compare(iy))
	}
}

// ---------------------------------------------------------------- B02

func runB02(c *fw.Ctx) {
	parent := common.ChainStruct{ID: 1, ParentID: 0, Mode: common.Branch}
	maxShards := c.Pick(256, 256)
	var sizes []int
	for n := 1; n <= maxShards; n++ {
		if n <= 9 || n&(n-1) == 0 || (n+1)&n == 0 || c.Thorough || n%37 == 0 {
			sizes = append(sizes, n)
		}
	}
	c.Extra("shardCounts", len(sizes))
	c.Parallel(len(sizes), func(si int, s *fw.Slot) {
		n := sizes[si]
		for variant := 0; variant < 3; variant++ {
			s.Begin(func() string { return fmt.Sprintf("%d shards, list variant %d", n, variant) })
			checkShards(c, parent, n, variant)
			s.End()
		}
	})
	// no shards: everything belongs to the parent
	for _, si := range []common.ShardInfo{common.NewShardInfo(parent, common.NilChainID, nil), common.NewShardInfo(parent, parent.ID, nil), common.NewShardInfo(parent, common.NilChainID, nil).Clone()} {
		for x := 0; x < 256; x++ {
			c.Evals.Add(1)
			if id := si.ShardTo(common.Address{byte(x)}); id != parent.ID {
				c.Fail("shard", "without shards, an address is assigned to %v", id)
			}
		}
		if si.LocalID() != parent.ID || len(si.AllIDs()) != 0 || si.GetMaskBits() != 0 {
			c.Fail("shard", "without shards: local %v, all %v", si.LocalID(), si.AllIDs())
		}
	}
	for _, n := range []int{257, 300, 512} {
		ids := shardIDs(n, 0)
		if p := fw.Try(func() { common.NewShardInfo(parent, parent.ID, ids) }); p == nil {
			c.Fail("refuse", "%d shards are accepted", n)
		}
	}
	if p := fw.Try(func() { common.NewShardInfo(parent, common.NilChainID, shardIDs(2, 0)) }); p == nil {
		c.Fail("refuse", "shards are accepted without a local chain")
	}
	checkAddressShards(c)
	checkBits(c)
}

func shardIDs(n, variant int) []common.ChainID {
	var ids []common.ChainID
	for i := 0; i < n; i++ {
		switch variant {
		case 0:
			ids = append(ids, common.ChainID(100+i*3))
		case 1: // descending, beyond the reserved range too
			ids = append(ids, common.ChainID(1<<20+5000-i*41))
		default: // rotated, with repetitions
			ids = append(ids, common.ChainID(7+(i*5+3)%n*2), common.ChainID(7+(i*5+3)%n*2))
			if n%5 == 0 {
				ids[len(ids)-1], ids[len(ids)-2] = common.ChainID(7+i*2), common.ChainID(7+i*2)
			}
		}
	}
	for i := range ids {
		if ids[i].IsNil() {
			ids[i] = 3
		}
	}
	return ids
}

func checkShards(c *fw.Ctx, parent common.ChainStruct, n, variant int) {
	ids := shardIDs(n, variant)
	keep := append([]common.ChainID(nil), ids...)
	sorted := append([]common.ChainID(nil), ids...)
	sort.Slice(sorted, func(i, j int) bool { return sorted[i] < sorted[j] })
	var uniq []common.ChainID
	for i, id := range sorted {
		if i == 0 || id != sorted[i-1] {
			uniq = append(uniq, id)
		}
	}
	fail := func(key, f string, a ...any) {
		c.Fail(key, "%d shards (list variant %d): %s", n, variant, fmt.Sprintf(f, a...))
	}
	if len(uniq) != n {
		fail("harness", "%d distinct ids", len(uniq))
		return
	}
	bits := 0
	for 1<<bits < n {
		bits++
	}
	views := []common.ShardInfo{common.NewShardInfo(parent, parent.ID, ids)}
	locals := []common.ChainID{parent.ID}
	for i := 0; i < n; i++ {
		if i < 3 || i >= n-2 || i == n/2 {
			views = append(views, common.NewShardInfo(parent, uniq[i], ids))
			locals = append(locals, uniq[i])
			// a shard's own id need not be on the list it is told about
			var others []common.ChainID
			for _, id := range ids {
				if id != uniq[i] {
					others = append(others, id)
				}
			}
			views = append(views, common.NewShardInfo(parent, uniq[i], others))
			locals = append(locals, uniq[i])
		}
	}
	for i := range ids {
		if ids[i] != keep[i] {
			fail("input", "the caller's list is changed")
			break
		}
	}
	scribbleIDs := append([]common.ChainID(nil), ids...)
	for i := range ids {
		ids[i] = 1 // the shard info must not depend on the caller's list
	}
	m := len(views)
	for i := 0; i < m; i++ {
		views = append(views, views[i].Clone())
		locals = append(locals, locals[i])
	}
	copy(ids, scribbleIDs)
	for i, v := range views {
		if v.LocalID() != locals[i] || v.GetMaskBits() != uint(bits) || len(v.AllIDs()) != n {
			fail("shape", "view of %v: local %v, mask bits %d, %d chains", locals[i], v.LocalID(), v.GetMaskBits(), len(v.AllIDs()))
			continue
		}
		for j, id := range v.AllIDs() {
			if id != uniq[j] {
				fail("shape", "chain %d is %v", j, id)
			}
			if v.Pos(id) != j {
				fail("pos", "chain %v is at %d", id, v.Pos(id))
			}
		}
		for _, id := range []common.ChainID{0, 1, 2, 8, 99, 101, 1<<20 + 6000, 1<<32 - 1} {
			k := sort.Search(n, func(i int) bool { return uniq[i] >= id })
			if in := k < n && uniq[k] == id; !in && v.Pos(id) != -1 {
				fail("pos", "chain %v, not a shard, is at %d", id, v.Pos(id))
			}
		}
		if v.ShardTo(nil) != common.NilChainID {
			fail("shard", "nil is assigned to %v", v.ShardTo(nil))
		}
	}
	counts := map[common.ChainID]int{}
	step := 1
	var a common.Address
	for x := 0; x < 1<<16; x += step {
		a[0], a[1] = byte(x>>8), byte(x)
		a[2], a[19] = byte(x*7), byte(x*13)
		c.Evals.Add(1)
		got := views[0].ShardTo(a)
		counts[got]++
		want := uniq[(x>>(16-bits))%n]
		if n&(n-1) == 0 && got != want {
			fail("shard", "address %v is assigned to %v, its leading %d bits say %v", a, got, bits, want)
			return
		}
		if views[0].Pos(got) < 0 {
			fail("shard", "address %v is assigned to %v, not one of the shards", a, got)
			return
		}
		b := a
		b[5], b[18] = 0xff, 0xee
		if o := views[0].ShardTo(&b); o != got {
			fail("shard", "addresses %v and %v, as a value and by reference, are assigned to %v and %v", a, b, got, o)
			return
		}
		for i, v := range views {
			if (x>>8^x)&7 != i&7 && x&0xff != 0 {
				continue
			}
			if o := v.ShardTo(&a); o != got {
				fail("view", "address %v is assigned to %v, but to %v as seen by %v", a, got, o, locals[i])
				return
			}
		}
		if n&(n-1) == 0 && n > 1 {
			// the address range of the assigned chain contains the address, the others do not
			i := views[0].Pos(got)
			for _, j := range []int{i, (i + 1) % n, i ^ 1, n - 1 - i} {
				val := uint16(j << (16 - bits))
				sh := &common.AddressShard{Index: common.BitIndex(bits - 1), Value: common.Bits{byte(val >> 8), byte(val)}}
				if sh.IsIn(a) != (i == j) {
					fail("range", "address %v belongs to shard %d, the range of shard %d contains it: %v", a, i, j, sh.IsIn(a))
					return
				}
			}
			c.Nontriv.Add(1)
		}
	}
	if n&(n-1) == 0 {
		for _, id := range uniq {
			if counts[id] != 1<<16/n {
				fail("share", "chain %v gets %d of %d addresses", id, counts[id], 1<<16)
			}
		}
	}
}

func checkAddressShards(c *fw.Ctx) {
	addrs := []common.Address{{}, {0: 0x80}, {0: 0xff, 1: 0xff, 2: 0x80}, {19: 1}}
	var full common.Address
	for i := range full {
		full[i] = byte(0x35 + i*47)
	}
	addrs = append(addrs, full)
	bit := func(b []byte, i int) bool { return b[i/8]>>(7-uint(i%8))&1 == 1 }
	for idx := 0; idx < 160; idx++ {
		for _, base := range addrs {
			for l := 0; l <= 20; l++ {
				sh := &common.AddressShard{Index: common.BitIndex(idx), Value: common.Bits(base[:l])}
				valid := l*8 > idx
				if sh.IsValid() != valid {
					c.Fail("valid", "a shard of the first %d bits given %d bytes: valid = %v", idx+1, l, sh.IsValid())
				}
				if !valid && sh.IsIn(base) {
					c.Fail("valid", "a shard of the first %d bits given %d bytes contains an address", idx+1, l)
				}
			}
			sh := &common.AddressShard{Index: common.BitIndex(idx), Value: common.Bits(base[:])}
			for f := 0; f < 160; f++ {
				a := base
				a[f/8] ^= 0x80 >> uint(f%8)
				c.Evals.Add(1)
				if sh.IsIn(a) != (f > idx) {
					c.Fail("range", "the shard of addresses sharing the first %d bits of %v contains %v: %v", idx+1, base, a, sh.IsIn(a))
				}
				if !sh.IsIn(base) {
					c.Fail("range", "the shard of addresses sharing the first %d bits of %v does not contain it", idx+1, base)
				}
				if (common.Bits)(a[:]).Bit(common.BitIndex(f)) != bit(a[:], f) {
					c.Fail("bit", "bit %d of %x", f, a)
				}
			}
		}
	}
	var none *common.AddressShard
	zero := &common.AddressShard{}
	if none.IsIn(full) || none.IsValid() || zero.IsIn(full) || zero.IsValid() || (&common.AddressShard{Index: 160, Value: make(common.Bits, 40)}).IsValid() || (&common.AddressShard{Index: -1, Value: make(common.Bits, 40)}).IsValid() {
		c.Fail("valid", "an empty or out-of-range shard is valid")
	}
}

func checkBits(c *fw.Ctx) {
	words(4, 3, func(q []int) {
		var b common.Bits
		for _, x := range q {
			b = append(b, []byte{0x00, 0x80, 0xa5, 0x7f}[x])
		}
		var want []bool
		for _, x := range b {
			for i := 7; i >= 0; i-- {
				want = append(want, x>>uint(i)&1 == 1)
			}
		}
		for n := -9; n <= 33; n++ {
			c.Evals.Add(1)
			w := want
			if n < len(w) {
				w = w[:maxInt(n, 0)]
			}
			got := b.Bits(n)
			if len(got) != len(w) {
				c.Fail("bits", "the first %d bits of %x are %v", n, b, got)
				continue
			}
			for i := range w {
				if got[i] != w[i] {
					c.Fail("bits", "the first %d bits of %x are %v", n, b, got)
					break
				}
			}
			if v := b.Bit(common.BitIndex(n)); v != (n >= 0 && n < len(want) && want[n]) {
				c.Fail("bits", "bit %d of %x is %v", n, b, v)
			}
			v, ok := b.Byte(n)
			if in := n >= 0 && n < len(b); ok != in || in && v != b[n] || !in && v != 0 {
				c.Fail("bits", "byte %d of %x is %v %v", n, b, v, ok)
			}
			if n >= 0 {
				i := common.BitIndex(n)
				if i.BytePos() != n/8 || i.BitPos() != uint(n%8) || len(b) > 0 && i.Mask(b[0]) != b[0]&(0xff<<uint(7-n%8)) {
					c.Fail("bits", "bit index %d: byte %d bit %d mask", n, i.BytePos(), i.BitPos())
				}
			}
		}
	})
}

// words calls f with every sequence over 0..n-1 of length up to max.
func words(n, max int, f func(q []int)) {
	f(nil)
	for l := 1; l <= max; l++ {
		for first := 0; first < n; first++ {
			sequences(n, l, first, func(q []int) bool { f(q); return true })
		}
	}
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// ---------------------------------------------------------------- B03

type chainModel struct {
	boots map[string]bool // node
	datas map[byte]bool
	attrs map[string]bool
}

func (m *chainModel) clone() *chainModel {
	n := &chainModel{map[string]bool{}, map[byte]bool{}, map[string]bool{}}
	for k := range m.boots {
		n.boots[k] = true
	}
	for k := range m.datas {
		n.datas[k] = true
	}
	for k := range m.attrs {
		n.attrs[k] = true
	}
	return n
}

func (m *chainModel) key() string {
	var s []string
	for k := range m.boots {
		s = append(s, "b"+k)
	}
	for k := range m.datas {
		s = append(s, fmt.Sprintf("d%02x", k))
	}
	for k := range m.attrs {
		s = append(s, "a"+k)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func nodeN(x byte) (n common.NodeID) {
	n[0], n[63] = x, ^x
	return
}

func nodeHex(x byte) string { n := nodeN(x); return fmt.Sprintf("%x", n[:]) }

type chainOp struct {
	name string
	do   func(x *common.ChainInfos, m *chainModel) error
}

func chainOps(thorough bool) []chainOp {
	var ops []chainOp
	nodes := []byte{0x1a, 0xa1, 0xff}
	for _, n := range nodes {
		n := n
		for upper := 0; upper < 2; upper++ {
			upper := upper
			if upper == 1 && n != 0xa1 {
				continue
			}
			ops = append(ops, chainOp{fmt.Sprintf("add boot %02x upper=%d", n, upper), func(x *common.ChainInfos, m *chainModel) error {
				id := nodeN(n)
				s := fmt.Sprintf("%x", id[:])
				if upper == 1 {
					s = strings.ToUpper(s)
				}
				k := fmt.Sprintf("%02x", n)
				want := !m.boots[k]
				m.boots[k] = true
				if got := x.AddBootNode(common.Dataserver{ChainID: 5, NodeIDString: s, IP: "10.0.0.1", BasicPort: uint16(n)}); got != want {
					return fmt.Errorf("adding reports %v", got)
				}
				return nil
			}})
		}
		ops = append(ops, chainOp{fmt.Sprintf("remove boot %02x", n), func(x *common.ChainInfos, m *chainModel) error {
			k := fmt.Sprintf("%02x", n)
			want := m.boots[k]
			delete(m.boots, k)
			if got := x.RemoveBootNode(nodeN(n)); got != want {
				return fmt.Errorf("removing reports %v", got)
			}
			return nil
		}}, chainOp{fmt.Sprintf("add data %02x", n), func(x *common.ChainInfos, m *chainModel) error {
			want := !m.datas[n]
			m.datas[n] = true
			if got := x.AddDataNode(nodeN(n)); got != want {
				return fmt.Errorf("adding reports %v", got)
			}
			return nil
		}}, chainOp{fmt.Sprintf("remove data %02x", n), func(x *common.ChainInfos, m *chainModel) error {
			want := m.datas[n]
			delete(m.datas, n)
			if got := x.RemoveDataNode(nodeN(n)); got != want {
				return fmt.Errorf("removing reports %v", got)
			}
			return nil
		}})
	}
	addAttrs := func(names ...string) {
		ops = append(ops, chainOp{fmt.Sprint("add attributes ", names), func(x *common.ChainInfos, m *chainModel) error {
			bad := false
			for _, n := range names {
				switch strings.ToUpper(n) {
				case "POC", "REWARD", "NOGAS":
				default:
					bad = true
				}
			}
			err := x.Attributes.AddByName(names...)
			if (err != nil) != bad {
				return fmt.Errorf("adding reports %v", err)
			}
			if !bad {
				for _, n := range names {
					m.attrs[strings.ToUpper(n)] = true
				}
			}
			return nil
		}})
	}
	addAttrs("reward")
	addAttrs("POC")
	addAttrs("noGas", "Poc", "nogas")
	addAttrs("poc", "other")
	return ops
}

func checkChain(x *common.ChainInfos, m *chainModel) error {
	var prev string
	if len(x.BootNodes) != len(m.boots) {
		return fmt.Errorf("%d boot nodes instead of %d", len(x.BootNodes), len(m.boots))
	}
	for i, b := range x.BootNodes {
		if i > 0 && b.NodeIDString <= prev {
			return fmt.Errorf("boot nodes are out of order")
		}
		prev = b.NodeIDString
		id, err := b.GetNodeID()
		if err != nil || !m.boots[fmt.Sprintf("%02x", id[0])] || *id != nodeN(id[0]) || b.BasicPort != uint16(id[0]) {
			return fmt.Errorf("boot node %s is listed", b.NodeIDString)
		}
	}
	if len(x.Datas) != len(m.datas) {
		return fmt.Errorf("%d data nodes instead of %d", len(x.Datas), len(m.datas))
	}
	for i, d := range x.Datas {
		if i > 0 && bytes.Compare(x.Datas[i-1][:], d[:]) >= 0 {
			return fmt.Errorf("data nodes are out of order")
		}
		if !m.datas[d[0]] || x.Index(d) != i {
			return fmt.Errorf("data node %s at %d is listed", d, x.Index(d))
		}
	}
	for _, n := range []byte{0, 0x1a, 0x50, 0xa1, 0xff} {
		if x.HasDataNode(nodeN(n)) != m.datas[n] || (x.Index(nodeN(n)) >= 0) != m.datas[n] || x.Datas.Contains(nodeN(n)) != m.datas[n] || x.Datas.IsIn(nodeN(n)) != m.datas[n] {
			return fmt.Errorf("data node %02x: has = %v", n, x.HasDataNode(nodeN(n)))
		}
		gen := n == 0x50
		if x.IsGenesisDataNode(nodeN(n)) != gen {
			return fmt.Errorf("genesis data node %02x: %v", n, !gen)
		}
	}
	if len(x.GetDataNodes()) != len(m.datas) {
		return fmt.Errorf("data nodes returned: %d", len(x.GetDataNodes()))
	}
	aud := map[byte]bool{0x50: true, 0x77: true}
	for n := range m.datas {
		aud[n] = true
	}
	ids, am := x.GetAuditorIds(), x.GetAuditorMap()
	if len(ids) != len(aud) || len(am) != len(aud) {
		return fmt.Errorf("auditors %v", ids)
	}
	for i, d := range ids {
		if _, in := am[d]; !in || !aud[d[0]] || i > 0 && bytes.Compare(ids[i-1][:], d[:]) >= 0 {
			return fmt.Errorf("auditors %v", ids)
		}
	}
	if len(x.Attributes) != len(m.attrs) {
		return fmt.Errorf("attributes %v", x.Attributes)
	}
	for i, a := range x.Attributes {
		if !m.attrs[string(a)] || i > 0 && x.Attributes[i-1] >= a {
			return fmt.Errorf("attributes %v", x.Attributes)
		}
	}
	for _, a := range []common.ChainAttr{common.AttrPoC, common.AttrReward, common.AttrNoGas, "OTHER", ""} {
		if x.HasAttribute(a) != m.attrs[string(a)] || x.Attributes.Contains(a) != m.attrs[string(a)] || a.IsValid() != (len(a) > 0 && a != "OTHER") {
			return fmt.Errorf("attribute %q: has = %v", a, x.HasAttribute(a))
		}
	}
	if x.IsPocChain() != m.attrs["POC"] || x.IsRewardChain() != m.attrs["REWARD"] {
		return fmt.Errorf("chain kind")
	}
	am2 := x.Attributes.ToMap()
	back := (common.ChainAttrs)(nil).FromMap(am2)
	if len(am2) != len(m.attrs) || fmt.Sprint(back.ToStringSlice()) != fmt.Sprint(x.Attributes.ToStringSlice()) {
		return fmt.Errorf("attributes as a map %v", am2)
	}
	return nil
}

func newChain(version uint16) *common.ChainInfos {
	return &common.ChainInfos{ChainStruct: common.ChainStruct{ID: 5, ParentID: 0, Mode: common.Branch}, SecondCoinId: 3, SecondCoinName: "coin",
		AdminPubs: [][]byte{{4, 1, 2}, {4, 9}}, GenesisCommIds: common.NodeIDs{nodeN(9), nodeN(2)}, Election: common.ETVrf,
		GenesisDatas: common.NodeIDs{nodeN(0x50)}, Auditors: common.NodeIDs{nodeN(0x50), nodeN(0x77)}, Version: version}
}

func runB03(c *fw.Ctx) {
	ops := chainOps(c.Thorough)
	depth := c.Pick(4, 5)
	c.Extra("depth", depth)
	c.Extra("operations", len(ops))
	type hv struct {
		hash, hist string
	}
	shards := make([]map[string]hv, len(ops)*2)
	c.Parallel(len(ops)*2, func(first int, s *fw.Slot) {
		version := uint16(first % 2)
		seen := map[string]hv{}
		shards[first] = seen
		var walk func(x *common.ChainInfos, m *chainModel, d int, hist []string)
		step := func(x *common.ChainInfos, m *chainModel, op chainOp, hist []string) bool {
			h := append(append([]string(nil), hist...), op.name)
			s.Begin(func() string { return fmt.Sprintf("version %d: %v", version, h) })
			defer s.End()
			c.Trans.Add(1)
			err := op.do(x, m)
			if err == nil {
				err = checkChain(x, m)
			}
			if err != nil {
				c.Fail("edit", "version %d: %s: %v", version, strings.Join(h, "; "), err)
				return false
			}
			hash, err := x.HashValue()
			if err != nil {
				c.Fail("hash", "%s: %v", strings.Join(h, "; "), err)
				return false
			}
			// two spellings of a node id are different texts: hash by spelling
			k := m.key()
			for _, b := range x.BootNodes {
				k += b.NodeIDString[:2]
			}
			if o, ok := seen[k]; !ok {
				seen[k] = hv{string(hash), strings.Join(h, "; ")}
				c.States.Add(1)
			} else if o.hash != string(hash) {
				c.Fail("hash", "version %d: the same chain reached by [%s] and [%s] has different hashes", version, o.hist, strings.Join(h, "; "))
			}
			return true
		}
		walk = func(x *common.ChainInfos, m *chainModel, d int, hist []string) {
			if d == 0 {
				return
			}
			h0, _ := x.HashValue()
			for _, op := range ops {
				x2, m2 := x.Clone(), m.clone()
				if hc, _ := x2.HashValue(); !bytes.Equal(hc, h0) {
					c.Fail("clone", "[%s]: a clone hashes differently", strings.Join(hist, "; "))
				}
				if step(x2, m2, op, hist) {
					walk(x2, m2, d-1, append(hist, op.name))
				}
				if h1, _ := x.HashValue(); !bytes.Equal(h0, h1) {
					c.Fail("clone", "[%s]: %s on a clone changes the original", strings.Join(hist, "; "), op.name)
				}
				if err := checkChain(x, m); err != nil {
					c.Fail("clone", "[%s]: %s on a clone changes the original: %v", strings.Join(hist, "; "), op.name, err)
				}
				c.Nontriv.Add(1)
			}
		}
		x, m := newChain(version), (&chainModel{}).clone()
		if step(x, m, ops[first/2], nil) {
			walk(x, m, depth-1, []string{ops[first/2].name})
		}
		// in-place histories, without clones in between
		sequences(len(ops), c.Pick(4, 5), first/2, func(q []int) bool {
			x, m := newChain(version), (&chainModel{}).clone()
			var hist []string
			for i, o := range q {
				if i < len(q)-2 {
					if ops[o].do(x, m) != nil {
						return true // reported by the walk
					}
				} else if !step(x, m, ops[o], hist) {
					return true
				}
				hist = append(hist, ops[o].name)
			}
			c.Traces.Add(1)
			return true
		})
	})
	for v := 0; v < 2; v++ {
		all := map[string]hv{}
		back := map[string]string{}
		for f := v; f < len(shards); f += 2 {
			for k, x := range shards[f] {
				if o, ok := all[k]; ok && o.hash != x.hash {
					c.Fail("hash", "version %d: the same chain reached by [%s] and [%s] has different hashes", v, o.hist, x.hist)
				}
				all[k] = x
				if o, ok := back[x.hash]; ok && o != k {
					c.Fail("hash", "version %d: different chains [%s] and [%s] have the same hash", v, o, k)
				}
				back[x.hash] = k
			}
		}
		c.AddExtra("distinctChains", int64(len(all)))
	}
	checkChainClone(c)
	checkChainQueries(c)
	checkChainSort(c)
	checkChainStructs(c)
}

// every way of spreading nodes over the three lists: the queries answer from the lists alone.
func checkChainQueries(c *fw.Ctx) {
	nodes := []byte{3, 0x80, 0xfe}
	pick := func(m int) (l common.NodeIDs) {
		for i, n := range nodes {
			if m>>uint(i)&1 == 1 {
				l = append(l, nodeN(n))
			}
		}
		return
	}
	for m := 0; m < 512; m++ {
		g, d, a := m&7, m>>3&7, m>>6
		x := &common.ChainInfos{GenesisDatas: pick(g), Datas: pick(d), Auditors: pick(a)}
		c.Evals.Add(1)
		if m%5 == 0 && len(x.Auditors) > 1 { // auditors are found whatever order the list is in
			x.Auditors[0], x.Auditors[1] = x.Auditors[1], x.Auditors[0]
		}
		want := pick(g | d | a)
		ids, am := x.GetAuditorIds(), x.GetAuditorMap()
		if !ids.Equal(want) || len(am) != len(want) {
			c.Fail("query", "genesis %v, data %v, auditors %v: all auditors are %v", pick(g), pick(d), pick(a), ids)
		}
		for i, n := range nodes {
			id := nodeN(n)
			if _, in := am[id]; in != ((g|d|a)>>uint(i)&1 == 1) || x.IsGenesisDataNode(id) != (g>>uint(i)&1 == 1) || x.HasDataNode(id) != (d>>uint(i)&1 == 1) || (x.Index(id) >= 0) != (d>>uint(i)&1 == 1) {
				c.Fail("query", "genesis %v, data %v, auditors %v: node %02x: auditor %v genesis %v data %v", pick(g), pick(d), pick(a), n, in, x.IsGenesisDataNode(id), x.HasDataNode(id))
			}
		}
		// the answers are the caller's own
		for i := range ids {
			ids[i][7] ^= 1
		}
		for k := range am {
			delete(am, k)
		}
		if !x.GetAuditorIds().Equal(want) || !x.Datas.Equal(pick(d)) || !x.GenesisDatas.Equal(pick(g)) {
			c.Fail("query", "genesis %v, data %v, auditors %v: changing an answer changes the configuration", pick(g), pick(d), pick(a))
		}
	}
}

// every part of a clone is scribbled on in turn: the original does not notice.
func checkChainClone(c *fw.Ctx) {
	full := func() *common.ChainInfos {
		x := newChain(1)
		x.AddDataNode(nodeN(1))
		x.AddDataNode(nodeN(2))
		x.AddBootNode(common.Dataserver{ChainID: 5, NodeIDString: nodeHex(1), IP: "a"})
		_ = x.Attributes.Add(common.AttrPoC, common.AttrNoGas)
		x.Auditors = append(x.Auditors, nodeN(3))
		return x
	}
	edits := map[string]func(x *common.ChainInfos){
		"admin key":       func(x *common.ChainInfos) { x.AdminPubs[0][1] ^= 1 },
		"admin keys":      func(x *common.ChainInfos) { x.AdminPubs[1] = nil },
		"committee":       func(x *common.ChainInfos) { x.GenesisCommIds[0][0] ^= 1 },
		"boot node":       func(x *common.ChainInfos) { x.BootNodes[0].IP = "b" },
		"genesis data":    func(x *common.ChainInfos) { x.GenesisDatas[0][5] ^= 1 },
		"data":            func(x *common.ChainInfos) { x.Datas[1][5] ^= 1 },
		"attribute":       func(x *common.ChainInfos) { x.Attributes[0] = "X" },
		"auditor":         func(x *common.ChainInfos) { x.Auditors[0][5] ^= 1 },
		"id":              func(x *common.ChainInfos) { x.ID++ },
		"parent":          func(x *common.ChainInfos) { x.ParentID++ },
		"mode":            func(x *common.ChainInfos) { x.Mode++ },
		"coin":            func(x *common.ChainInfos) { x.SecondCoinId++ },
		"coin name":       func(x *common.ChainInfos) { x.SecondCoinName += "x" },
		"second coin":     func(x *common.ChainInfos) { x.HaveSecondCoin = !x.HaveSecondCoin },
		"election":        func(x *common.ChainInfos) { x.Election = common.ETManagedCommittee },
		"chain version":   func(x *common.ChainInfos) { x.ChainVersion += "x" },
		"sync":            func(x *common.ChainInfos) { x.Syncblock = !x.Syncblock },
		"version":         func(x *common.ChainInfos) { x.Version = 2 },
		"more committee":  func(x *common.ChainInfos) { x.GenesisCommIds = append(x.GenesisCommIds, nodeN(44)) },
		"more admin keys": func(x *common.ChainInfos) { x.AdminPubs = append(x.AdminPubs, []byte{4, 4}) },
	}
	seen := map[string]string{}
	x := full()
	h0, _ := x.HashValue()
	seen[string(h0)] = "the original"
	for name, edit := range edits {
		y := x.Clone()
		edit(y)
		c.Evals.Add(1)
		h1, _ := x.HashValue()
		if !bytes.Equal(h0, h1) {
			c.Fail("clone", "changing the %s of a clone changes the original", name)
			x = full()
		}
		hy, _ := y.HashValue()
		if o, ok := seen[string(hy)]; ok {
			c.Fail("hash", "changing the %s leaves the hash that of %s", name, o)
		}
		seen[string(hy)] = name
		// and the other way round
		z := full()
		w := z.Clone()
		edit(z)
		if hw, _ := w.HashValue(); !bytes.Equal(h0, hw) {
			c.Fail("clone", "changing the %s of the original changes a clone", name)
		}
	}
	var none *common.ChainInfos
	if none.Clone() != nil || none.Index(nodeN(1)) != -1 || none.GetAuditorMap() != nil || len(none.GetAuditorIds()) != 0 || none.String() == "" || none.ReportTo() != common.NilChainID || none.AddrIsAdmin(common.Address{}) || none.PubIsAdmin(nil) {
		c.Fail("nil", "a nil configuration answers wrongly")
	}
	if fmt.Sprint((&common.ChainInfos{}).Clone()) != fmt.Sprint(&common.ChainInfos{}) {
		c.Fail("clone", "a clone of an empty configuration differs")
	}
	e := &common.ChainInfos{Version: 1}
	he, _ := e.HashValue()
	if hc, _ := e.Clone().HashValue(); !bytes.Equal(he, hc) {
		c.Fail("clone", "a clone of an empty configuration hashes differently")
	}
	e = &common.ChainInfos{Version: 1, AdminPubs: [][]byte{}, GenesisCommIds: common.NodeIDs{}, BootNodes: []common.Dataserver{}, Datas: common.NodeIDs{}, Attributes: common.ChainAttrs{}, Auditors: common.NodeIDs{}, GenesisDatas: common.NodeIDs{}}
	he, _ = e.HashValue()
	if hc, _ := e.Clone().HashValue(); !bytes.Equal(he, hc) {
		c.Fail("clone", "a clone of a configuration with empty lists hashes differently")
	}
	// administrators
	pub := append([]byte{4}, bytes.Repeat([]byte{0x3c}, 64)...)
	y := full()
	y.AdminPubs = append(y.AdminPubs, pub, nil)
	addr, err := common.AddressFromPubSlice(pub)
	other, _ := common.AddressFromPubSlice(append([]byte{4}, bytes.Repeat([]byte{0x3d}, 64)...))
	if err != nil || !y.AddrIsAdmin(addr) || !y.PubIsAdmin(pub) || y.AddrIsAdmin(other) || y.PubIsAdmin(pub[:64]) || y.PubIsAdmin(nil) || y.PubIsAdmin([]byte{}) {
		c.Fail("admin", "administrators are recognized wrongly")
	}
	d := common.Dataserver{ChainID: 1, NodeIDString: "x"}
	if d2 := d.Clone(); d2 == &d || *d2 != d {
		c.Fail("clone", "a clone of a data server differs")
	}
}

// every order of the same lists sorts to the same configuration and hash; edits of it find what is in it.
func checkChainSort(c *fw.Ctx) {
	perms := permutations(4)
	var want []byte
	for _, p := range perms {
		for _, q := range perms {
			x := newChain(1)
			x.AdminPubs, x.GenesisDatas, x.Auditors = nil, nil, nil
			for i := 0; i < 4; i++ {
				n := nodeN(byte(p[i]*60 + 10))
				x.Datas = append(x.Datas, n)
				x.GenesisDatas = append(x.GenesisDatas, nodeN(byte(q[i])))
				x.Auditors = append(x.Auditors, nodeN(byte(q[i])))
				x.AdminPubs = append(x.AdminPubs, []byte{4, byte(q[i])})
				x.BootNodes = append(x.BootNodes, common.Dataserver{ChainID: uint32(5 + p[i]%2), NodeIDString: nodeHex(byte(p[i]*60 + 10))})
			}
			for i := 0; i < 3; i++ {
				x.Attributes = append(x.Attributes, []common.ChainAttr{common.AttrPoC, common.AttrNoGas, common.AttrReward}[p[i]%3])
			}
			x.Attributes = nil
			for i := 0; i < 4; i++ {
				if p[i] < 3 {
					x.Attributes = append(x.Attributes, []common.ChainAttr{common.AttrPoC, common.AttrNoGas, common.AttrReward}[p[i]])
				}
			}
			x.Sort()
			c.Evals.Add(1)
			h, _ := x.HashValue()
			if want == nil {
				want = h
			}
			if !bytes.Equal(h, want) {
				c.Fail("sort", "orders %v and %v of the same lists hash differently after sorting", p, q)
				return
			}
			if !sort.IsSorted(x.Datas) || !sort.IsSorted(x.GenesisDatas) || !sort.IsSorted(x.Auditors) || !sort.IsSorted(x.Attributes) || x.GenesisCommIds[0] != nodeN(9) {
				c.Fail("sort", "orders %v and %v: lists are not sorted", p, q)
			}
			for i := 0; i < 4; i++ {
				n := nodeN(byte(i*60 + 10))
				y := x.Clone()
				if !y.HasDataNode(n) || y.AddDataNode(n) || !y.RemoveDataNode(n) || y.HasDataNode(n) || len(y.Datas) != 3 {
					c.Fail("sort", "data node %d of a sorted configuration is not found", i)
				}
				if y.AddBootNode(common.Dataserver{ChainID: 5, NodeIDString: nodeHex(byte(i*60 + 10))}) || !y.RemoveBootNode(n) || len(y.BootNodes) != 3 {
					c.Fail("sort", "boot node %d of a sorted configuration is not found", i)
				}
				for _, b := range y.BootNodes {
					if id, _ := b.GetNodeID(); *id == n {
						c.Fail("sort", "the wrong boot node is removed")
					}
				}
			}
		}
	}
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var r [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int(nil), p[:i]...), n-1), p[i:]...)
			r = append(r, q)
		}
	}
	return r
}

func checkChainStructs(c *fw.Ctx) {
	ids := []common.ChainID{0, 1, 2, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<32 - 1}
	modes := []common.ChainMode{0, common.Root, common.Branch, common.Shard, common.UnknownMode, 0xff}
	for _, id := range ids {
		for _, pa := range ids {
			c.Evals.Add(1)
			cs, err := common.NewChainStruct(id, pa)
			var mode common.ChainMode
			ok := true
			switch {
			case id == 1<<20:
				ok = false
			case pa == 1<<20:
				ok, mode = id == 0, common.Root
			case id == 0:
				ok = false
			case pa == 0:
				mode = common.Branch
			default:
				mode = common.Shard
			}
			if (err == nil) != ok || ok && *cs != (common.ChainStruct{ID: id, ParentID: pa, Mode: mode}) {
				c.Fail("struct", "chain %d under %d: %v, %v", uint32(id), uint32(pa), cs, err)
				continue
			}
			if ok && (cs.Validate() != nil || cs.Clone() != *cs) {
				c.Fail("struct", "chain %d under %d: %v", uint32(id), uint32(pa), cs.Validate())
			}
			for _, m := range modes {
				v := (common.ChainStruct{ID: id, ParentID: pa, Mode: m}).Validate() == nil
				want := m == common.Root && id == 0 && pa == 1<<20 || m == common.Branch && id != 0 && pa == 0 || m == common.Shard && id != 0 && pa != 0 && pa != 1<<20
				if v != want {
					c.Fail("struct", "chain %d under %d with mode %v: valid = %v", uint32(id), uint32(pa), m, v)
				}
			}
		}
	}
}

// ---------------------------------------------------------------- B04

func runB04(c *fw.Ctx) {
	amounts := []uint64{0, 1, 2, 1 << 31, 1<<63 - 1, 1 << 63, 1<<63 + 1, maxU64 - 1, maxU64}
	ops := 2 * len(amounts)
	starts := []uint64{0, 1, 1 << 63, maxU64 - 1, maxU64}
	depth := c.Pick(4, 5)
	c.Extra("depth", depth)
	c.Parallel(ops, func(first int, s *fw.Slot) {
		sequences(ops, depth, first, func(q []int) bool {
			for _, st := range starts {
				s.Begin(func() string { return fmt.Sprintf("start %d, operations %v", st, q) })
				c.Traces.Add(1)
				pool := common.GasPool(st)
				want := new(big.Int).SetUint64(st)
				for i, o := range q {
					a := amounts[o/2]
					ba := new(big.Int).SetUint64(a)
					c.Trans.Add(1)
					hist := func() string {
						var h []string
						for _, o := range q[:i+1] {
							h = append(h, fmt.Sprintf("%s %d", []string{"add", "take"}[o%2], amounts[o/2]))
						}
						return fmt.Sprintf("start %d; %s", st, strings.Join(h, "; "))
					}
					if o%2 == 0 {
						sum := new(big.Int).Add(want, ba)
						var r *common.GasPool
						p := fw.Try(func() { r = pool.AddGas(a) })
						if sum.IsUint64() {
							want = sum
							if p != nil || r != &pool {
								c.Fail("add", "%s: refused: %v", hist(), p)
							}
						} else if p == nil {
							c.Fail("add", "%s: wraps around to %d", hist(), pool.Gas())
						}
					} else {
						err := pool.SubGas(a)
						if ba.Cmp(want) <= 0 {
							want = new(big.Int).Sub(want, ba)
							if err != nil {
								c.Fail("take", "%s: refused: %v", hist(), err)
							}
						} else if err == nil {
							c.Fail("take", "%s: granted", hist())
						} else {
							c.Nontriv.Add(1)
						}
					}
					if pool.Gas() != want.Uint64() || pool.String() != want.String() {
						c.Fail("balance", "%s: the balance is %d instead of %v", hist(), pool.Gas(), want)
						break
					}
				}
				s.End()
			}
			return true
		})
	})
	c.States.Add(c.Trans.Load())
	// every pair over a wide set of boundary values
	us := u64s()
	for _, x := range us {
		for _, y := range us {
			c.Evals.Add(1)
			p := common.GasPool(x)
			err := p.SubGas(y)
			if (err == nil) != (y <= x) || err == nil && uint64(p) != x-y || err != nil && uint64(p) != x {
				c.Fail("take", "taking %d of %d: %d, %v", y, x, p, err)
			}
			p = common.GasPool(x)
			pan := fw.Try(func() { p.AddGas(y) })
			if over := x+y < x; (pan != nil) != over || !over && uint64(p) != x+y || over && uint64(p) != x {
				c.Fail("add", "adding %d to %d: %d, %v", y, x, p, pan)
			}
		}
	}
}
