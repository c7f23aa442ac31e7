package main

import (
	"bytes"
	"fmt"
	"sort"

	common "github.com/ThinkiumGroup/go-common"
	"verif/harness/fw"
)

func cid(b byte) *common.NodeID {
	var n common.NodeID
	n[0], n[63] = b, 0xee
	return &n
}

func showIDs(l common.NodeIDs) string {
	s := ""
	for _, x := range l {
		s += string(x[0])
	}
	return s
}

// --- the node-id set

func setOps() []Op {
	type W = *common.NodeIDSet
	put := func(b byte) Op {
		return op("Put "+string(b), func(w W) string { return str(w.Put(cid(b))) })
	}
	del := func(b byte) Op {
		return op("Delete "+string(b), func(w W) string { w.Delete(cid(b)); return "" })
	}
	return []Op{put('a'), put('b'), del('a'), del('b'),
		op("Get 0", func(w W) string {
			p, ok := w.Get(0)
			if p == nil {
				return str("nil ", ok)
			}
			return str(string(p[0]), ok)
		}),
		op("GetIndex b", func(w W) string { i, ok := w.GetIndex(cid('b')); return str(i, ok) }),
		op("Len", func(w W) string { return str(w.Len()) }),
		op("GetNodeIDs", func(w W) string {
			l := w.GetNodeIDs(0)
			s := showIDs(l)
			for i := range l {
				l[i] = common.NodeID{}
			}
			return s
		}),
	}
}

func setDigest(w *common.NodeIDSet) string {
	s := fmt.Sprint(w.Len(), " ")
	for i := -1; i <= w.Len(); i++ {
		p, ok := w.Get(i)
		if ok != (i >= 0 && i < w.Len()) || ok != (p != nil) {
			s += "!"
		}
		if p != nil {
			j, ok := w.GetIndex(p)
			if !ok || j != i {
				s += "?"
			}
			s += string(p[0])
		}
	}
	for _, b := range []byte("abc") {
		i, ok := w.GetIndex(cid(b))
		if ok {
			p, ok2 := w.Get(i)
			if !ok2 || p[0] != b {
				s += "#"
			}
		}
		s += fmt.Sprint(ok)
	}
	return s + " " + showIDs(w.GetNodeIDs(0))
}

func setHistories(c *fw.Ctx) {
	depth := c.Pick(5, 7)
	starts := []string{"", "b", "ca", "aab", "cba"}
	for _, st := range starts {
		var ids []*common.NodeID
		for _, b := range []byte(st) {
			ids = append(ids, cid(b))
		}
		var hist []int
		names := []string{"Put a", "Put b", "Put c", "Delete a", "Delete b", "Delete c", "GetNodeIDs", "nil"}
		var rec func()
		run := func() {
			w := common.NewNodeIDSet(ids...)
			m := map[byte]bool{}
			for _, b := range []byte(st) {
				m[b] = true
			}
			where := func() string {
				s := "start " + st
				for _, h := range hist {
					s += ", " + names[h]
				}
				return s
			}
			for _, h := range hist {
				c.Trans.Add(1)
				switch {
				case h < 3:
					b := byte('a' + h)
					id := cid(b)
					if got := w.Put(id); got == m[b] {
						c.Fail("set", "%s: Put of %c reports %v", where(), b, got)
					}
					m[b] = true
				case h < 6:
					b := byte('a' + h - 3)
					w.Delete(cid(b))
					delete(m, b)
				case h == 6:
					want := ""
					for b := byte('a'); b <= 'c'; b++ {
						if m[b] {
							want += string(b)
						}
					}
					l := w.GetNodeIDs(7)
					if got := showIDs(l); got != want {
						c.Fail("set", "%s: GetNodeIDs gives %s, expected %s", where(), got, want)
					}
					for i := range l {
						l[i] = common.NodeID{}
					}
				default:
					w.Delete(nil)
					if w.Put(nil) {
						c.Fail("set", "%s: Put(nil) reports true", where())
					}
					if _, ok := w.GetIndex(nil); ok {
						c.Fail("set", "%s: GetIndex(nil) reports true", where())
					}
				}
				if w.Len() != len(m) {
					c.Fail("set", "%s: Len %d, expected %d", where(), w.Len(), len(m))
				}
			}
			for b := byte('a'); b <= 'c'; b++ {
				i, ok := w.GetIndex(cid(b))
				if ok != m[b] {
					c.Fail("set", "%s: GetIndex of %c reports %v", where(), b, ok)
				}
				if ok {
					p, ok := w.Get(i)
					if !ok || *p != *cid(b) {
						c.Fail("set", "%s: Get(GetIndex(%c)) is another node", where(), b)
					}
				}
			}
			for i := -1; i < 5; i++ {
				if p, ok := w.Get(i); ok != (i >= 0 && i < len(m)) || ok != (p != nil) {
					c.Fail("set", "%s: Get(%d) reports %v", where(), i, ok)
				}
			}
			sort.Sort(w)
			var prev *common.NodeID
			for i := 0; i < w.Len(); i++ {
				p, _ := w.Get(i)
				if prev != nil && bytes.Compare(prev[:], p[:]) >= 0 {
					c.Fail("set", "%s: not sorted by sort.Sort", where())
				}
				if j, ok := w.GetIndex(p); !ok || j != i {
					c.Fail("set", "%s: index of element %d is %d after sorting", where(), i, j)
				}
				prev = p
			}
			c.States.Add(1)
		}
		rec = func() {
			run()
			if len(hist) == depth-1 {
				return
			}
			for h := range names {
				hist = append(hist, h)
				rec()
				hist = hist[:len(hist)-1]
			}
		}
		rec()
	}
}

// --- the last-height map

func lbOps() []Op {
	type W = *common.LastBlockMap
	var ops []Op
	for _, v := range []common.Height{5, 7} {
		v := v
		ops = append(ops, op(fmt.Sprint("CAS 1 ", v), func(w W) string { return str(w.CAS(1, v)) }))
	}
	return append(ops,
		op("Set 1 6", func(w W) string { w.Set(1, 6); return "" }),
		op("CAS 2 0", func(w W) string { return str(w.CAS(2, 0)) }),
		op("Get 1", func(w W) string { h, ok := w.Get(1); return fmt.Sprintf("%d %v", uint64(h), ok) }),
		op("CopyMap", func(w W) string {
			m := w.CopyMap()
			s := showHeights(m)
			m[1], m[9] = 99, 99
			return s
		}))
}

func showHeights(m map[common.ChainID]common.Height) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%d=%d", uint32(k), uint64(v)))
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

func lbHistories(c *fw.Ctx) {
	depth := c.Pick(5, 6)
	vals := []common.Height{0, 1, 5, ^common.Height(0) - 1, ^common.Height(0)}
	type sym struct {
		kind int
		id   common.ChainID
		v    common.Height
	}
	var syms []sym
	for _, id := range []common.ChainID{0, ^common.ChainID(0)} {
		for _, v := range vals {
			syms = append(syms, sym{0, id, v}, sym{1, id, v})
		}
	}
	if !c.Thorough { // one chain is enough below the last level
		syms = syms[:12]
	}
	var hist []sym
	var rec func()
	rec = func() {
		w := &common.LastBlockMap{M: map[common.ChainID]common.Height{}}
		m := map[common.ChainID]common.Height{}
		for _, h := range hist {
			c.Trans.Add(1)
			if h.kind == 0 {
				w.Set(h.id, h.v)
				m[h.id] = h.v
				continue
			}
			old, had := m[h.id]
			want := !had || h.v > old
			if got := w.CAS(h.id, h.v); got != want {
				c.Fail("heights", "history %v: CAS(%d,%d) reports %v over %d (present %v)", hist, h.id, uint64(h.v), got, uint64(old), had)
			}
			if want {
				m[h.id] = h.v
			}
		}
		for _, id := range []common.ChainID{0, 5, ^common.ChainID(0)} {
			g, ok := w.Get(id)
			e, ok2 := m[id]
			if g != e || ok != ok2 {
				c.Fail("heights", "history %v: Get(%d) = %d,%v expected %d,%v", hist, id, uint64(g), ok, uint64(e), ok2)
			}
		}
		cp := w.CopyMap()
		if showHeights(cp) != showHeights(m) {
			c.Fail("heights", "history %v: CopyMap gives %s expected %s", hist, showHeights(cp), showHeights(m))
		}
		cp[0], cp[77] = 12345, 1
		if showHeights(w.CopyMap()) != showHeights(m) {
			c.Fail("heights", "history %v: changing a copy changed the map", hist)
		}
		c.States.Add(1)
		if len(hist) == depth-1 {
			return
		}
		for _, s := range syms {
			hist = append(hist, s)
			rec()
			hist = hist[:len(hist)-1]
		}
	}
	rec()
}

// --- the bounded recent-items map

func lruOps() []Op {
	type W = *common.LruMap
	add := func(k, v int) Op {
		return op(fmt.Sprintf("Add %d=%d", k, v), func(w W) string { return str(w.Add(k, v)) })
	}
	return []Op{add(1, 10), add(1, 11), add(2, 20), add(3, 30),
		op("Get 1", func(w W) string { return str(w.Get(1)) }),
		op("Contains 2", func(w W) string { return str(w.Contains(2)) }),
		op("Remove 1", func(w W) string { w.Remove(1); return "" }),
		op("Clear", func(w W) string { w.Clear(); return "" }),
	}
}

func lruHistories(c *fw.Ctx) {
	depth := c.Pick(5, 7)
	for size := 1; size <= 3; size++ {
		n := 3*4 + 1
		var hist []int
		var rec func()
		rec = func() {
			w := common.NewLruMap(size)
			type e struct{ k, v int }
			var m []e // least recent first
			find := func(k int) int {
				for i := range m {
					if m[i].k == k {
						return i
					}
				}
				return -1
			}
			for i, h := range hist {
				c.Trans.Add(1)
				k := h%3 + 1
				at := find(k)
				switch {
				case h == n-1:
					w.Clear()
					m = nil
				case h/3 == 0:
					v := 100*i + k
					if got := w.Add(k, v); got != (at < 0) {
						c.Fail("lru", "size %d history %v: Add of %d reports %v", size, hist[:i+1], k, got)
					}
					if at < 0 {
						m = append(m, e{k, v})
						if len(m) > size {
							m = m[1:]
						}
					}
				case h/3 == 1:
					var want any
					if at >= 0 {
						x := m[at]
						want = x.v
						m = append(append(append([]e{}, m[:at]...), m[at+1:]...), x)
					}
					if got := w.Get(k); got != want {
						c.Fail("lru", "size %d history %v: Get of %d gives %v, expected %v", size, hist[:i+1], k, got, want)
					}
				case h/3 == 2:
					if got := w.Contains(k); got != (at >= 0) {
						c.Fail("lru", "size %d history %v: Contains of %d gives %v", size, hist[:i+1], k, got)
					}
				case h/3 == 3:
					w.Remove(k)
					if at >= 0 {
						m = append(append([]e{}, m[:at]...), m[at+1:]...)
					}
				}
			}
			for k := 1; k <= 3; k++ {
				if w.Contains(k) != (find(k) >= 0) {
					c.Fail("lru", "size %d history %v: membership of %d", size, hist, k)
				}
			}
			c.States.Add(1)
			if len(hist) == depth-1 {
				return
			}
			for h := 0; h < n; h++ {
				hist = append(hist, h)
				rec()
				hist = hist[:len(hist)-1]
			}
		}
		rec()
	}
}

// --- the address registry

type regWorld struct{ a, b common.Address }

var regCount uint64

func regNew() any {
	regCount++
	w := &regWorld{}
	for i := 0; i < 8; i++ {
		w.a[i+1] = byte(regCount >> (8 * i))
	}
	w.b = w.a
	w.a[0], w.b[0] = 1, 2
	return w
}

func regShow(a common.Address) string {
	return fmt.Sprint(a.IsReserved(), a.IsSystemContract(), a.IsNoGas(), a.NoCheck())
}

func regOps() []Op {
	type W = *regWorld
	return []Op{
		op("RegisterReservedAddress a,b", func(w W) string { common.RegisterReservedAddress(w.a, w.b); return "" }),
		op("RegisterSystemContract noGas b", func(w W) string { common.RegisterSystemContract(true, w.b); return "" }),
		op("RegisterSystemContract a", func(w W) string { common.RegisterSystemContract(false, w.a); return "" }),
		op("RegisterNoCheckAddress a", func(w W) string { common.RegisterNoCheckAddress(w.a); return "" }),
		op("a.IsReserved", func(w W) string { return str(w.a.IsReserved()) }),
		op("b.IsNoGas", func(w W) string { return str(w.b.IsNoGas()) }),
		op("a.NoCheck", func(w W) string { return str(w.a.NoCheck()) }),
		op("b.IsSystemContract", func(w W) string { return str(w.b.IsSystemContract()) }),
	}
}

func regHistories(c *fw.Ctx) {
	depth := c.Pick(4, 5)
	type sym struct {
		kind, who int // who: bit set of addresses
	}
	var syms []sym
	for kind := 0; kind < 4; kind++ {
		for who := 0; who < 4; who++ {
			syms = append(syms, sym{kind, who})
		}
	}
	var hist []sym
	var rec func()
	rec = func() {
		w := regNew().(*regWorld)
		as := []common.Address{w.a, w.b}
		var m [2][4]bool // reserved, system, nogas, nocheck
		for _, h := range hist {
			c.Trans.Add(1)
			var l []common.Address
			for i := range as {
				if h.who>>i&1 == 0 {
					continue
				}
				l = append(l, as[i])
				m[i][0] = true
				switch h.kind {
				case 1:
					m[i][1] = true
				case 2:
					m[i][1], m[i][2] = true, true
				case 3:
					m[i][3] = true
				}
			}
			switch h.kind {
			case 0:
				common.RegisterReservedAddress(l...)
			case 1:
				common.RegisterSystemContract(false, l...)
			case 2:
				common.RegisterSystemContract(true, l...)
			case 3:
				common.RegisterNoCheckAddress(l...)
			}
		}
		for i := range as {
			if got, want := regShow(as[i]), fmt.Sprint(m[i][0], m[i][1], m[i][2], m[i][3]); got != want {
				c.Fail("registry", "history %v: address %d answers reserved, system, no gas, no check = %s, expected %s", hist, i, got, want)
			}
		}
		c.States.Add(1)
		if len(hist) == depth-1 {
			return
		}
		for _, s := range syms {
			hist = append(hist, s)
			rec()
			hist = hist[:len(hist)-1]
		}
	}
	rec()
}

func init() {
	suite(&Suite{ID: "C05",
		Rule: "every history up to the depth of each registry against a set or map model; every interleaving of two and three concurrent call sequences, compared with the one-at-a-time orders",
		Pre: func(c *fw.Ctx) {
			setHistories(c)
			lbHistories(c)
			lruHistories(c)
			regHistories(c)
		},
		Scenarios: func(thorough bool) []*Scenario {
			var out []*Scenario
			add := func(base Scenario, ops []Op) {
				base.Bound = -1
				out = append(out, product(base, ops, 1, 1)...)
				out = append(out, product(base, ops, 2, 1)...)
				base.Bound = 3
				if thorough {
					base.Bound = -1
				}
				out = append(out, product(base, ops, 1, 1, 1)...)
				base.Bound = 2
				if thorough {
					base.Bound = -1
				}
				out = append(out, product(base, ops, 2, 2)...)
				if thorough {
					base.Bound = 3
					out = append(out, product(base, ops, 2, 1, 1)...)
				}
			}
			add(Scenario{Name: "node-id set {b}", New: func() any { return common.NewNodeIDSet(cid('b')) },
				Digest: func(w any) string { return setDigest(w.(*common.NodeIDSet)) }}, setOps())
			{
				type W = *common.NodeIDSet
				three := Scenario{Name: "node-id set {b,a,c}", New: func() any {
					w := common.NewNodeIDSet(cid('b'))
					w.Put(cid('a'))
					w.Put(cid('c'))
					return w
				}, Digest: func(w any) string { return setDigest(w.(W)) }, Bound: 3}
				sw := func(i, j int) Op {
					return op(fmt.Sprint("Swap ", i, j), func(w W) string { w.Swap(i, j); return "" })
				}
				ls := func(i, j int) Op {
					return op(fmt.Sprint("Less ", i, j), func(w W) string { return str(w.Less(i, j)) })
				}
				ops := []Op{sw(0, 1), sw(1, 2), ls(0, 1), ls(2, 0),
					op("Put d", func(w W) string { return str(w.Put(cid('d'))) }),
					op("Get 1", func(w W) string { p, ok := w.Get(1); return str(string(p[0]), ok) }),
					op("GetIndex a", func(w W) string { return str(w.GetIndex(cid('a'))) }),
					op("GetNodeIDs", func(w W) string { return showIDs(w.GetNodeIDs(0)) }),
				}
				three.Bound = -1
				out = append(out, product(three, ops, 1, 1)...)
				out = append(out, product(three, ops, 2, 1)...)
			}
			add(Scenario{Name: "last heights {1=5}", New: func() any {
				return &common.LastBlockMap{M: map[common.ChainID]common.Height{1: 5}}
			}, Digest: func(w any) string { return showHeights(w.(*common.LastBlockMap).CopyMap()) }}, lbOps())
			add(Scenario{Name: "recent items of 2", New: func() any {
				m := common.NewLruMap(2)
				m.Add(2, 2)
				return m
			}, Digest: func(w any) string {
				m := w.(*common.LruMap)
				return str(m.Map.Keys(), m.Get(1), m.Get(2), m.Get(3))
			}}, lruOps())
			add(Scenario{Name: "address registry", New: regNew, Digest: func(w any) string {
				return regShow(w.(*regWorld).a) + regShow(w.(*regWorld).b)
			}}, regOps())
			return out
		}})
}
