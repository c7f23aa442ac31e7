package seq

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strconv"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/stephenfire/go-rtl"

	"verif/harness/fw"
)

func init() {
	fw.Register(fw.Check{ID: "B07", Level: fw.Exploration, Run: runB07,
		Rule: "every listed value of every kind the hashing entries take, hashed through each of them and compared pairwise; every data server of the grid of field values against its neighbours in one field; every permutation of up to six data nodes; every subset of the addresses of a node"})
}

type b07rec struct {
	A uint64
	B []byte
	C *b07rec
	D []string
}

type b07pair struct {
	name string
	v    any
	own  []byte // what its own HashValue must give, nil for none
}

func runB07(c *fw.Ctx) {
	// --- hashing entries
	u32 := func(x uint32) []byte { return []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)} }
	var vals []b07pair
	for _, x := range []uint32{0, 1, 2, 255, 256, 65536, 1 << 31, 1<<32 - 1} {
		vals = append(vals, b07pair{fmt.Sprint("chain id ", x), common.ChainID(x), refHash(u32(x))})
		h := common.Height(x)
		vals = append(vals, b07pair{fmt.Sprint("height ", x), h, refHash(append(make([]byte, 4), u32(x)...))})
	}
	for i := 0; i < 6; i++ {
		var n common.NodeID
		var h common.Hash
		for j := range n {
			n[j] = byte(i * j)
		}
		n[63] ^= byte(i)
		copy(h[:], n[20:])
		h[0] = byte(i)
		vals = append(vals, b07pair{fmt.Sprint("node id ", i), &n, refHash(n[:])}, b07pair{fmt.Sprint("hash ", i), h, append([]byte{}, h[:]...)}, b07pair{fmt.Sprint("hash pointer ", i), &h, append([]byte{}, h[:]...)})
		if x := n.Hash(); !bytes.Equal(x[:], refHash(n[:])) {
			c.Fail("node id hash", "Hash of node id %x is %x", n[:], x[:])
		}
		if s := h.TerminalString(); s != fmt.Sprintf("%x…%x", h[:3], h[29:]) {
			c.Fail("terminal string", "TerminalString of %x is %s", h[:], s)
		}
	}
	for _, v := range []any{uint8(0), uint8(7), uint64(7), uint64(1 << 40), int64(-3), true, false, "", "a", "ab", []byte(nil), []byte{}, []byte{0}, []byte("abc"), []uint64{1, 2}, []uint64{2, 1}, []string{"a", "b"}, []string{"ab", ""}, [3]byte{1, 2, 3},
		b07rec{}, b07rec{A: 1}, b07rec{B: []byte{1}}, b07rec{D: []string{"1"}}, b07rec{C: &b07rec{}}, b07rec{C: &b07rec{A: 1}}, &b07rec{A: 2}, (*b07rec)(nil), big.NewInt(5), big.NewInt(-5), (*big.Int)(nil), map[string]uint64{}, map[string]uint64{"a": 1}, map[string]uint64{"a": 2}} {
		vals = append(vals, b07pair{fmt.Sprintf("%T %v", v, v), v, nil})
	}
	type hres struct {
		name string
		enc  []byte
		h    []byte
	}
	var hs []hres
	for _, p := range vals {
		c.Evals.Add(1)
		enc, err := rtl.Marshal(p.v)
		if err != nil {
			panic(err)
		}
		ho, err1 := common.HashObject(p.v)
		eh, err2 := common.EncodeAndHash(p.v)
		if err1 != nil || err2 != nil {
			c.Fail("hash error "+p.name, "hashing %s: %v %v", p.name, err1, err2)
		}
		want := p.own
		if want == nil {
			want = refHash(enc)
		}
		if !bytes.Equal(eh, refHash(enc)) {
			c.Fail("EncodeAndHash "+p.name, "EncodeAndHash of %s is %x, the hash of its encoding %x is %x", p.name, eh, enc, refHash(enc))
		}
		if !bytes.Equal(ho, want) {
			c.Fail("HashObject "+p.name, "HashObject of %s is %x, expected %x", p.name, ho, want)
		}
		if h := common.EncodeHash(p.v); !bytes.Equal(h[:], want) {
			c.Fail("EncodeHash "+p.name, "EncodeHash of %s is %x, expected %x", p.name, h[:], want)
		}
		for i := 0; i < 2; i++ { // hashing again gives the same, in slices of their own
			h2, _ := common.HashObject(p.v)
			e2, _ := common.EncodeAndHash(p.v)
			if !bytes.Equal(h2, want) || !bytes.Equal(e2, eh) {
				c.Fail("hash again "+p.name, "hashing %s again gives %x, %x", p.name, h2, e2)
			}
			if len(e2) > 0 {
				e2[0] ^= 1
			}
		}
		hs = append(hs, hres{p.name, enc, eh})
	}
	for i := range hs {
		for j := range hs {
			c.Evals.Add(1)
			if bytes.Equal(hs[i].enc, hs[j].enc) != bytes.Equal(hs[i].h, hs[j].h) {
				c.Fail("hash pair", "%s and %s: encodings %x %x, hashes %x %x", hs[i].name, hs[j].name, hs[i].enc, hs[j].enc, hs[i].h, hs[j].h)
			}
		}
	}
	// a map with several entries: the codec (a module of its own) writes it in iteration order
	m := map[string]uint64{"a": 1, "b": 2, "c": 3, "d": 4}
	first, _ := common.EncodeAndHash(m)
	for i := 0; i < 2000; i++ {
		if h, err := common.EncodeAndHash(m); err != nil || !bytes.Equal(h, first) {
			c.Fail("map of several entries: hash depends on the iteration order", "EncodeAndHash of %v is %x, then %x %v", m, first, h, err)
			break
		}
	}
	if h, err := common.HashObject(nil); err != nil || !bytes.Equal(h, refHash()) {
		c.Fail("hash nil", "HashObject(nil) is %x %v", h, err)
	}
	if h, err := common.EncodeAndHash(nil); err != nil || !bytes.Equal(h, refHash()) {
		c.Fail("hash nil", "EncodeAndHash(nil) is %x %v", h, err)
	}
	if h := common.EncodeHash(nil); !bytes.Equal(h[:], refHash()) {
		c.Fail("hash nil", "EncodeHash(nil) is %x", h[:])
	}
	for _, v := range []any{make(chan int), func() {}, struct{ A chan int }{make(chan int)}} {
		_, err1 := common.HashObject(v)
		_, err2 := common.EncodeAndHash(v)
		if (err1 == nil) != (err2 == nil) || err1 != nil && common.EncodeHash(v) != (common.Hash{}) {
			c.Fail("hash of "+reflect.TypeOf(v).String(), "HashObject error %v, EncodeAndHash error %v, EncodeHash %x", err1, err2, common.EncodeHash(v))
		}
	}

	// --- data servers
	strs := func(xs ...string) []string { return xs }
	ports := []uint16{0, 7, 12, 65535}
	if c.Thorough {
		ports = []uint16{0, 1, 7, 12, 80, 65535}
	}
	fields := reflect.TypeOf(common.Dataserver{}).NumField()
	base := []common.Dataserver{{}}
	for _, ch := range []uint32{0, 1, 1<<32 - 1} {
		for _, id := range strs("", "ab", "ac") {
			for _, ip := range strs("", "127.0.0.1", "10.0.0.1") {
				for _, p := range ports {
					for _, q := range ports {
						base = append(base, common.Dataserver{ChainID: ch, NodeIDString: id, IP: ip, BasicPort: p, ConsensusPort0: q, ConsensusPort1: p + 1, DataPort0: q + 1, DataPort1: p + 2, DataRpcPort: q + 3})
					}
				}
			}
		}
	}
	itoa := func(x uint16) string { return strconv.Itoa(int(x)) }
	dsHash := func(d common.Dataserver) []byte {
		return refHash([]byte(strconv.FormatUint(uint64(d.ChainID), 10) + d.NodeIDString + d.IP + itoa(d.BasicPort) + itoa(d.ConsensusPort0) + itoa(d.ConsensusPort1) + itoa(d.DataPort0) + itoa(d.DataPort1) + itoa(d.DataRpcPort)))
	}
	for _, d := range base {
		c.Evals.Add(1)
		d0 := d
		h, err := d.HashValue()
		if err != nil || !bytes.Equal(h, dsHash(d)) || d != d0 {
			c.Fail("data server hash", "HashValue of %v is %x %v", d, h, err)
		}
		if s := d.GetRpcAddr(); s != d.IP+":"+itoa(d.DataRpcPort) {
			c.Fail("rpc address", "GetRpcAddr of %v is %s", d, s)
		}
		cl := d.Clone()
		for i := 0; i < fields; i++ {
			f := reflect.ValueOf(cl).Elem().Field(i)
			old := reflect.New(f.Type()).Elem()
			old.Set(f)
			if f.Kind() == reflect.String {
				f.SetString(f.String() + "5")
			} else {
				f.SetUint(f.Uint() ^ 1)
			}
			if h2, _ := cl.HashValue(); bytes.Equal(h, h2) {
				c.Fail("data server hash", "%v and %v have the same hash", d, *cl)
			}
			if d != d0 {
				c.Fail("data server clone", "changing the clone changed the original %v to %v", d0, d)
			}
			f.Set(old)
		}
		if *cl != d {
			c.Fail("data server clone", "the clone of %v is %v", d, *cl)
		}
	}
	for i, a := range base {
		for _, b := range base[i:] {
			c.Evals.Add(1)
			want := 0
			switch {
			case a.ChainID != b.ChainID:
				want = 1
				if a.ChainID < b.ChainID {
					want = -1
				}
			default:
				want = bytes.Compare([]byte(a.NodeIDString), []byte(b.NodeIDString))
			}
			if a.Compare(b) != want || b.Compare(a) != -want {
				c.Fail("data server order", "%v compared with %v gives %d and %d", a, b, a.Compare(b), b.Compare(a))
			}
		}
	}

	// --- data nodes: genesis nodes first, then by id
	var nodes common.DataNodes
	for i := 0; i < 6; i++ {
		nodes = append(nodes, common.DataNode{NodeID: nodeN(byte(10 - i)), IsGenesis: i&1 == 1, RpcAddress: fmt.Sprint(i)})
	}
	nodes = append(nodes, nodes[1])
	want := func(ds common.DataNodes) common.DataNodes {
		w := append(common.DataNodes{}, ds...)
		for i := range w {
			for j := i; j > 0; j-- {
				a, b := w[j-1], w[j]
				if a.IsGenesis && !b.IsGenesis || a.IsGenesis == b.IsGenesis && bytes.Compare(a.NodeID[:], b.NodeID[:]) <= 0 {
					break
				}
				w[j-1], w[j] = b, a
			}
		}
		return w
	}
	var perm func(cur, rest common.DataNodes)
	perm = func(cur, rest common.DataNodes) {
		c.Evals.Add(1)
		s := append(common.DataNodes{}, cur...)
		sort.Sort(s)
		if !reflect.DeepEqual(s, want(cur)) && len(cur) > 0 {
			c.Fail("data node order", "sorting %v gives %v", cur, s)
		}
		for i := range cur {
			for j := range cur {
				a, b := cur[i], cur[j]
				w := a.IsGenesis && !b.IsGenesis || a.IsGenesis == b.IsGenesis && bytes.Compare(a.NodeID[:], b.NodeID[:]) < 0
				if cur.Less(i, j) != w {
					c.Fail("data node order", "Less of %v and %v is %v", a, b, !w)
				}
			}
		}
		for i := range rest {
			r := append(append(common.DataNodes{}, rest[:i]...), rest[i+1:]...)
			perm(append(append(common.DataNodes{}, cur...), rest[i]), r)
		}
	}
	perm(nil, nodes[:c.Pick(6, 7)])

	// --- the addresses of a node
	types := []common.NetType{common.BasicNet, common.ConsensusNet1, common.ConsensusNet2, common.RootDataNet, common.BranchDataNet}
	for i := range types {
		for j := range types[:i] {
			if types[i] == types[j] || types[i].String() == types[j].String() {
				c.Fail("net types", "net types %d and %d are the same", i, j)
			}
		}
	}
	for mask := 0; mask < 32; mask++ {
		addr := make([]string, 5)
		for i := range addr {
			if mask>>i&1 == 1 {
				addr[i] = fmt.Sprint("host", i, ":", 80+i)
			}
		}
		id := nodeN(byte(mask))
		for add := -1; add < 5; add++ {
			c.Evals.Add(1)
			n := common.NewNetInfo(&id, addr[0], addr[1], addr[2], addr[3], addr[4])
			exp := make([]common.Endpoint, 5)
			for i, a := range addr {
				if a != "" {
					exp[i] = common.Endpoint{NetType: "tcp", Address: a}
				}
			}
			if add >= 0 {
				exp[add] = common.Endpoint{NetType: "udp", Address: "new"}
				e := exp[add]
				n.AddAddr(types[add], &e)
			}
			if n.NodeID == nil || *n.NodeID != id {
				c.Fail("net info", "node id of the net info is %v", n.NodeID)
			}
			for i, ty := range types {
				p := n.GetAddr(ty)
				if exp[i] == (common.Endpoint{}) && p != nil || exp[i] != (common.Endpoint{}) && (p == nil || *p != exp[i]) {
					c.Fail("net info", "addresses %q, address %d replaced: address of %v is %v, expected %v", addr, add, ty, p, exp[i])
				}
			}
			if p := n.GetAddr(common.NetType(77)); p != nil {
				c.Fail("net info", "address of an unknown net: %v", p)
			}
		}
	}
	for e := uint64(0); e < 70000; e++ {
		c.Evals.Add(1)
		for _, x := range []uint64{e, 1<<32 + e, ^uint64(0) - e} {
			a, b := common.ChooseConNetByEpoch(common.EpochNum(x)), common.ChooseConNetByEpoch(common.EpochNum(x+1))
			w := types[1]
			if x&1 == 1 {
				w = types[2]
			}
			if a != w || a == b {
				c.Fail("consensus net", "epoch %d runs on %v, epoch %d on %v", x, a, x+1, b)
			}
		}
	}

	// --- small facts
	for x := 0; x < 65536; x++ {
		c.Evals.Add(1)
		if common.CoinID(x).IsSovereign() != (x == 0) {
			c.Fail("coin", "coin %d sovereign: %v", x, common.CoinID(x).IsSovereign())
		}
		ci := &common.ChainInfos{ChainStruct: common.ChainStruct{ID: common.ChainID(x * 65537)}}
		if ci.IsMainChain() != (x == 0) || !bytes.Equal(ci.Key(), u32(uint32(x*65537))) {
			c.Fail("chain key", "chain %d: main %v key %x", x*65537, ci.IsMainChain(), ci.Key())
		}
	}
	if common.StringsToAddresses(nil) != nil {
		c.Fail("addresses", "StringsToAddresses(nil) is not nil")
	}
	raws := []string{"", "a", "0123456789012345678", "01234567890123456789", "x01234567890123456789", "0123456789012345678901234567890123456789"}
	for _, a := range raws {
		for _, b := range raws {
			c.Evals.Add(1)
			got := common.StringsToAddresses([]string{a, b})
			if len(got) != 2 || got[0] != common.BytesToAddress([]byte(a)) || got[1] != common.BytesToAddress([]byte(b)) {
				c.Fail("addresses", "StringsToAddresses of %q %q is %x", a, b, got)
			}
		}
	}
	for _, x := range []*big.Int{nil, new(big.Int), big.NewInt(1), big.NewInt(-9), new(big.Int).Lsh(big.NewInt(3), 300)} {
		y := common.BigIntForRLP(x)
		if y == nil || x == nil && y.Sign() != 0 || x != nil && (x.Cmp(y) != 0 || x == y) {
			c.Fail("BigIntForRLP", "BigIntForRLP of %v is %v", x, y)
		}
		if x != nil {
			s := x.String()
			y.Add(y, big.NewInt(1))
			if y.SetBit(y, 3, 1); x.String() != s {
				c.Fail("BigIntForRLP", "changing the result changed the argument")
			}
		}
	}
	for _, x := range [][]byte{nil, {}, {0}, {1, 2, 3}} {
		y := common.BytesForRLP(x)
		if y == nil || !bytes.Equal(x, y) {
			c.Fail("BytesForRLP", "BytesForRLP of %x is %x", x, y)
		}
		if len(y) > 0 {
			y[0] ^= 1
			if bytes.Equal(x, y) {
				c.Fail("BytesForRLP", "the result shares its bytes with the argument")
			}
		}
	}
	if _, err := common.InitSharedObjectWithError(c.Tmp + "/none.so"); err == nil {
		c.Fail("shared object", "a missing shared object is loaded")
	}
	if p := fw.Try(func() { common.InitShareObject(c.Tmp + "/none.so") }); p == nil {
		c.Fail("shared object", "a missing shared object is loaded")
	}
	ta := db.NewTransparentDataAdapter()
	for _, k := range [][]byte{nil, {}, []byte("key")} {
		for i := 0; i < 2; i++ {
			if i == 1 {
				ta = ta.Clone()
			}
			if err := ta.Save(k, []byte("other")); err != nil {
				c.Fail("transparent", "Save: %v", err)
			}
			if v, err := ta.Load(k); err != nil || !bytes.Equal(v, k) {
				c.Fail("transparent", "Load(%x) is %x %v", k, v, err)
			}
		}
	}
	var ms common.MoreTimes
	for mask := 0; mask < 256; mask++ {
		ms = nil
		for i := 0; i < 8; i++ {
			if mask>>i&1 == 1 {
				ms = append(ms, common.MoreTime{Index: i * 2, Times: i + 1})
			}
		}
		for x := -1; x < 18; x++ {
			c.Evals.Add(1)
			n, ok := ms.Find(x)
			w := x >= 0 && x%2 == 0 && x < 16 && mask>>(x/2)&1 == 1
			if ok != w || ok && n != x/2+1 || !ok && n != 0 {
				c.Fail("repeats", "Find(%d) in %v is %d %v", x, ms, n, ok)
			}
		}
		for i := range ms {
			for j := range ms {
				if ms[i].Equal(ms[j]) != (i == j) {
					c.Fail("repeats", "%v equal %v: %v", ms[i], ms[j], i != j)
				}
			}
		}
	}
	c.Nontriv.Add(c.Evals.Load())
	c.States.Add(c.Evals.Load())
}
