package seq

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/ThinkiumGroup/go-common/abi"

	"verif/harness/fw"
)

// abiArgs builds the argument list of ts.
func abiArgs(ts []*at) abi.Arguments {
	a, js, err := abiFor(ts)
	if err != nil {
		panic(js + ": " + err.Error())
	}
	return a.Methods["f"].Inputs
}

// junk follows the data in memory; nothing of it may be read.
var abiJunk = bytes.Repeat([]byte{0, 0, 0, 1}, 64)

// checkAbiData unpacks data as ts and compares with the reference decoder.
func checkAbiData(c *fw.Ctx, args abi.Arguments, ts []*at, data []byte) {
	buf := append(append(make([]byte, 0, len(data)+len(abiJunk)), data...), abiJunk...)
	in := buf[:len(data)]
	var got []interface{}
	var err error
	c.Evals.Add(1)
	if p := fw.Try(func() { got, err = args.Unpack(in) }); p != nil {
		c.Fail("abi-unpack-panic", "unpacking %x as %s panics: %v", data, sigs(ts), p)
	}
	if !bytes.Equal(in, data) {
		c.Fail("abi-unpack-input", "unpacking %x as %s changes it to %x", data, sigs(ts), in)
	}
	d := &adec{strict: true}
	want, ok := d.seq(ts, data)
	if err != nil {
		if ok && d.strict {
			c.Fail("abi-unpack-refused", "unpacking %x as %s fails (%v), it is %s", data, sigs(ts), err, avStr(want))
		}
		return
	}
	if !ok {
		c.Fail("abi-unpack-accepted", "unpacking %x as %s gives %v, it must be refused", data, sigs(ts), got)
	}
	r, good := readAll(ts, got)
	if !good || !avEq(r, want) {
		c.Fail("abi-unpack-value", "unpacking %x as %s gives %s (%v), it is %s", data, sigs(ts), avStr(r), got, avStr(want))
	}
	c.Nontriv.Add(1)
	// the value packs, and unpacks again to itself
	var b []byte
	var again []interface{}
	if p := fw.Try(func() {
		if b, err = args.Pack(got...); err == nil {
			again, err = args.Unpack(b)
		}
	}); p != nil || err != nil {
		c.Fail("abi-repack", "unpacking %x as %s gives %s, which cannot be packed and unpacked again: %v %v", data, sigs(ts), avStr(r), err, p)
	}
	if r2, good := readAll(ts, again); !good || !avEq(r, r2) {
		c.Fail("abi-repack", "unpacking %x as %s gives %s, packed again %x and unpacked %s", data, sigs(ts), avStr(r), b, avStr(r2))
	}
}

func abiWords(n int) [][]byte {
	p := func(e uint, add int64) []byte {
		return word(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), e), big.NewInt(add)))
	}
	end := int64(32 * n)
	ws := [][]byte{
		wordInt(0), wordInt(1), wordInt(2), wordInt(0x20), wordInt(0x40), word(big.NewInt(end - 32)), word(big.NewInt(end)), word(big.NewInt(end - 31)), word(big.NewInt(31)), word(big.NewInt(33)),
		p(63, -1), p(63, 0), p(64, 32), p(63, -32), p(8, 32), p(16, 0), p(59, 0), p(64, -32), p(58, 1), p(255, 0), p(256, -1), p(256, -32), p(40, 32), p(192, 32),
	}
	var r [][]byte
	for _, w := range ws {
		dup := false
		for _, x := range r {
			dup = dup || bytes.Equal(w, x)
		}
		if !dup {
			r = append(r, w)
		}
	}
	return r
}

func e02Types() [][]*at {
	u, y, s, b, a, f4 := uintT(256), kindT(aBytes), kindT(aString), kindT(aBool), kindT(aAddr), fixedT(4)
	one := []*at{
		u, uintT(8), intT(8), intT(64), uintT(128), intT(256), b, a, f4, fixedT(32), kindT(aFunc), y, s,
		sliceT(u), sliceT(uintT(8)), sliceT(b), sliceT(y), sliceT(s), sliceT(sliceT(u)), sliceT(arrT(u, 2)), sliceT(tupleT(u, b)), sliceT(tupleT(y, u)), sliceT(arrT(y, 2)), sliceT(tupleT(y)),
		arrT(u, 2), arrT(y, 1), arrT(y, 2), arrT(s, 3), arrT(sliceT(u), 2), arrT(arrT(u, 2), 2), arrT(arrT(y, 1), 2), arrT(tupleT(u, y), 1), arrT(tupleT(u, b), 2),
		tupleT(u), tupleT(y), tupleT(u, y), tupleT(y, y), tupleT(sliceT(u), b), tupleT(tupleT(y), u), tupleT(arrT(u, 2), y), tupleT(arrT(y, 2)), tupleT(tupleT(u, b), s), tupleT(sliceT(tupleT(y))), sliceT(sliceT(y)),
	}
	var r [][]*at
	for _, t := range one {
		r = append(r, []*at{t})
	}
	r = append(r, []*at{u, y}, []*at{y, u}, []*at{y, y}, []*at{arrT(u, 2), y}, []*at{tupleT(u, u), s}, []*at{arrT(y, 2), u}, []*at{sliceT(u), b}, []*at{tupleT(y), arrT(y, 1)}, []*at{b, sliceT(y)})
	return r
}

func runE02(c *fw.Ctx) {
	lists := e02Types()
	args := make([]abi.Arguments, len(lists))
	for i := range lists {
		args[i] = abiArgs(lists[i])
	}
	depth := c.Pick(4, 5)
	type job struct{ n, first, list int }
	var jobs []job
	for n := 0; n <= depth; n++ {
		for l := range lists {
			if n < 3 {
				jobs = append(jobs, job{n, -1, l})
				continue
			}
			for f := range abiWords(n) {
				jobs = append(jobs, job{n, f, l})
			}
		}
	}
	c.Parallel(len(jobs), func(i int, s *fw.Slot) {
		j := jobs[i]
		if c.Expired() {
			return
		}
		ws := abiWords(j.n)
		// the fourth and fifth word need fewer candidates
		small := ws[:min(len(ws), c.Pick(14, 12))]
		data := make([]byte, 0, 32*j.n)
		ts := lists[j.list]
		s.Begin(func() string { return fmt.Sprintf("words %x... as %s", data[:cap(data)], sigs(ts)) })
		var rec func(k int)
		rec = func(k int) {
			if k == j.n {
				s.Begin(nil)
				checkAbiData(c, args[j.list], ts, data)
				if j.n > 0 && j.n <= 3 {
					for _, cut := range []int{1, 16, 31} {
						checkAbiData(c, args[j.list], ts, data[:len(data)-cut])
					}
				}
				return
			}
			alpha := ws
			if k >= 3 || j.n > 4 && k >= 1 {
				alpha = small
			}
			if k == 0 && j.first >= 0 {
				alpha = ws[j.first : j.first+1]
			}
			for _, w := range alpha {
				data = append(data[:32*k], w...)
				rec(k + 1)
			}
			data = data[:32*k]
		}
		rec(0)
		s.End()
	})
	if c.Expired() {
		return
	}
	// valid encodings with one word replaced, removed, or cut short
	wide := append(wrapAll(coreTypes()), wrapAll(wrapAll([]*at{uintT(256), kindT(aBytes), kindT(aBool)}))...)
	if c.Thorough {
		wide = append(wide, wrapAll(wrapAll(coreTypes()))...)
	}
	c.Parallel(len(wide), func(i int, s *fw.Slot) {
		ts := []*at{wide[i]}
		a := abiArgs(ts)
		s.Begin(func() string { return "damaged encodings of " + sigs(ts) })
		for _, v := range avals(wide[i]) {
			enc := refAbiSeq(ts, []av{v})
			if len(enc) > 32*40 {
				continue
			}
			for n := 0; n < len(enc); n++ {
				if n%32 == 0 || n%32 == 1 || n%32 == 31 || n%32 == 5 {
					checkAbiData(c, a, ts, enc[:n])
				}
			}
			for n := 0; n+32 <= len(enc); n += 32 {
				s.Begin(nil)
				for _, w := range abiWords(len(enc) / 32) {
					b := append([]byte{}, enc...)
					copy(b[n:], w)
					checkAbiData(c, a, ts, b)
				}
				for _, k := range []int{0, 11, 23, 31} {
					for _, x := range []byte{1, 0x80, 0xff} {
						b := append([]byte{}, enc...)
						b[n+k] ^= x
						checkAbiData(c, a, ts, b)
					}
				}
				checkAbiData(c, a, ts, append(append([]byte{}, enc[:n]...), enc[n+32:]...))
			}
			checkAbiData(c, a, ts, append(append([]byte{}, enc...), 1))
		}
		s.End()
	})
	// revert reasons are a string behind a selector
	sel := refHash([]byte("Error(string)"))[:4]
	st := []*at{kindT(aString)}
	for n := 0; n <= 3; n++ {
		ws := abiWords(n)
		idx := make([]int, n)
		for {
			data := append([]byte{}, sel...)
			for _, k := range idx {
				data = append(data, ws[k]...)
			}
			for _, cut := range []int{0, 1, 31} {
				if cut > len(data) {
					continue
				}
				in := data[:len(data)-cut]
				var got string
				var err error
				c.Evals.Add(1)
				if p := fw.Try(func() { got, err = abi.UnpackRevert(append([]byte{}, in...)) }); p != nil {
					c.Fail("abi-revert", "UnpackRevert(%x) panics: %v", in, p)
				}
				d := &adec{strict: true}
				var want []any
				ok := false
				if len(in) > 4 {
					want, ok = d.seq(st, in[4:])
				}
				if err == nil && (!ok || want[0] != got) || err != nil && ok && d.strict {
					c.Fail("abi-revert", "UnpackRevert(%x) gives %q, %v", in, got, err)
				}
			}
			i := 0
			for i < n {
				if idx[i]++; idx[i] < len(ws) {
					break
				}
				idx[i] = 0
				i++
			}
			if i == n {
				break
			}
		}
	}
	for i := 0; i < 32; i++ {
		b := append(append([]byte{}, sel...), refAbiSeq(st, []av{"reason"})...)
		b[i/8] ^= 1 << uint(i%8)
		if s, err := abi.UnpackRevert(b); err == nil {
			c.Fail("abi-revert", "UnpackRevert(%x) gives %q behind another selector", b, s)
		}
	}
}
