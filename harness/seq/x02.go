package seq

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	cmath "github.com/ThinkiumGroup/go-common/math"

	"verif/harness/fw"
)

func pow2s(max uint, neg bool) []*big.Int {
	seen := map[string]bool{}
	var r []*big.Int
	add := func(x *big.Int) {
		if !seen[x.String()] {
			seen[x.String()] = true
			r = append(r, x)
		}
	}
	for e := uint(0); e <= max; e++ {
		if e > 9 && e%8 != 0 && e%8 != 7 && e%8 != 1 {
			continue
		}
		for d := int64(-1); d <= 1; d++ {
			x := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), e), big.NewInt(d))
			add(x)
			if neg {
				add(new(big.Int).Neg(x))
			}
		}
	}
	return r
}

func u64s() []uint64 {
	m := map[uint64]bool{}
	for i := uint64(0); i < 20; i++ {
		m[i], m[-i] = true, true
	}
	for e := uint(0); e < 64; e++ {
		for _, b := range []uint64{1, 3, 5, 0xffffffff} {
			m[b<<e-1], m[b<<e], m[b<<e+1] = true, true, true
		}
	}
	// divisors of the limit and neighbours of its root
	for _, d := range []uint64{3, 5, 17, 257, 641, 65537, 6700417, 4294967295, 4294967296, 4294967297} {
		q := ^uint64(0) / d
		m[d], m[q], m[q+1], m[q-1] = true, true, true, true
	}
	var r []uint64
	for x := range m {
		r = append(r, x)
	}
	return r
}

func checkChecked(c *fw.Ctx, x, y uint64) {
	bx, by := new(big.Int).SetUint64(x), new(big.Int).SetUint64(y)
	test := func(what string, got uint64, over bool, exact *big.Int) {
		if over == exact.IsUint64() || !over && got != exact.Uint64() {
			c.Fail("checked", "%s(%d, %d) = %d, %v; exact: %v", what, x, y, got, over, exact)
		}
	}
	c.Evals.Add(1)
	v, o := cmath.SafeAdd(x, y)
	test("SafeAdd", v, o, new(big.Int).Add(bx, by))
	v, o = cmath.SafeSub(x, y)
	test("SafeSub", v, o, new(big.Int).Sub(bx, by))
	v, o = cmath.SafeMul(x, y)
	test("SafeMul", v, o, new(big.Int).Mul(bx, by))
}

// refParse reads decimal or 0x-hex digits; sign says whether a sign before the digits is tolerated.
func refParseNum(s string) (x *big.Int, signed, ok bool) {
	if s == "" {
		return new(big.Int), false, true
	}
	base := int64(10)
	if len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
		base, s = 16, s[2:]
	}
	neg := false
	if s != "" && (s[0] == '-' || s[0] == '+') {
		signed, neg = true, s[0] == '-'
		s = s[1:]
	}
	if s == "" {
		return nil, signed, false
	}
	x = new(big.Int)
	for i := 0; i < len(s); i++ {
		d := int64(hexDigit(s[i]))
		if d < 0 || d >= base {
			return nil, signed, false
		}
		x.Mul(x, big.NewInt(base)).Add(x, big.NewInt(d))
	}
	if neg {
		x.Neg(x)
	}
	return x, signed, true
}

func checkParseNum(c *fw.Ctx, s string) {
	x, signed, ok := refParseNum(s)
	c.Evals.Add(1)
	u, uok := cmath.ParseUint64(s)
	want := ok && !signed && x.IsUint64()
	if uok != want || want && u != x.Uint64() {
		c.Fail("parse", "ParseUint64(%q) = %d, %v", s, u, uok)
	}
	h64 := cmath.HexOrDecimal64(77)
	if err := h64.UnmarshalText([]byte(s)); (err == nil) != want || want && uint64(h64) != x.Uint64() || !want && h64 != 77 {
		c.Fail("parse", "HexOrDecimal64 %q: %d, %v", s, h64, err)
	}
	if p := fw.Try(func() { u = cmath.MustParseUint64(s) }); (p == nil) != want || want && u != x.Uint64() {
		c.Fail("parse", "MustParseUint64(%q) = %d, %v", s, u, p)
	}
	b, bok := cmath.ParseBig256(s)
	want = ok && x.BitLen() <= 256
	if signed && !bok && b == nil {
		// a sign may be refused
	} else if bok != want || want && b.Cmp(x) != 0 {
		c.Fail("parse", "ParseBig256(%q) = %v, %v", s, b, bok)
	}
	h := *cmath.NewHexOrDecimal256(77)
	d := *cmath.NewDecimal256(77)
	e1, e2 := h.UnmarshalText([]byte(s)), d.UnmarshalText([]byte(s))
	hb, db := big.Int(h), big.Int(d)
	if (e1 == nil) != bok || (e2 == nil) != bok || bok && (hb.Cmp(x) != 0 || db.Cmp(x) != 0) || !bok && (hb.Int64() != 77 || db.Int64() != 77) {
		c.Fail("parse", "HexOrDecimal256/Decimal256 %q: %v, %v; %v, %v", s, &hb, e1, &db, e2)
	}
	if bok {
		c.Nontriv.Add(1)
		var h2 cmath.HexOrDecimal256
		var d2 cmath.Decimal256
		t1, e1 := h.MarshalText()
		t2, e2 := d.MarshalText()
		if d.String() != x.String() || string(t2) != x.String() || e1 != nil || e2 != nil {
			c.Fail("parse", "%v marshals to %s and %s", x, t1, t2)
		}
		if err := d2.UnmarshalText(t2); err != nil || (*big.Int)(&d2).Cmp(x) != 0 {
			c.Fail("parse", "%v marshals to %s, which reads as %v, %v", x, t2, &d2, err)
		}
		if x.Sign() >= 0 {
			if err := h2.UnmarshalText(t1); err != nil || (*big.Int)(&h2).Cmp(x) != 0 {
				c.Fail("parse", "%v marshals to %s, which reads as %v, %v", x, t1, &h2, err)
			}
		}
	}
	if p := fw.Try(func() { b = cmath.MustParseBig256(s) }); (p == nil) != bok || bok && b.Cmp(x) != 0 {
		c.Fail("parse", "MustParseBig256(%q) = %v, %v", s, b, p)
	}
}

func checkBig(c *fw.Ctx, x *big.Int) {
	keep := new(big.Int).Set(x)
	fail := func(f string, a ...any) { c.Fail("big", "%v: %s", keep, fmt.Sprintf(f, a...)) }
	unchanged := func(what string) {
		if x.Cmp(keep) != 0 {
			fail("%s changes its argument to %v", what, x)
		}
	}
	c.Evals.Add(1)
	mod := new(big.Int).Mod(x, two256)
	if y := cmath.U256(new(big.Int).Set(x)); y.Cmp(mod) != 0 {
		fail("U256 = %v", y)
	}
	if b := cmath.U256Bytes(new(big.Int).Set(x)); !bytes.Equal(b, word(x)) {
		fail("U256Bytes = %x", b)
	}
	if x.Sign() >= 0 && x.BitLen() <= 256 {
		want := new(big.Int).Set(x)
		if x.Bit(255) == 1 {
			want.Sub(x, two256)
		}
		if y := cmath.S256(x); y.Cmp(want) != 0 {
			fail("S256 = %v", y)
		}
		unchanged("S256")
	}
	abs := new(big.Int).Abs(x)
	raw := abs.Bytes()
	for _, n := range []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 40} {
		want := raw
		if n > len(raw) {
			want = append(make([]byte, n-len(raw)), raw...)
		}
		if b := cmath.PaddedBigBytes(x, n); !bytes.Equal(b, want) {
			fail("PaddedBigBytes(%d) = %x", n, b)
		}
		buf := make([]byte, n)
		cmath.ReadBits(x, buf)
		short := want[len(want)-n:]
		if !bytes.Equal(buf, short) {
			fail("ReadBits into %d bytes = %x", n, buf)
		}
		for i := 0; i < n+2; i++ {
			w := byte(0)
			if i < n {
				w = short[i]
			}
			if b := cmath.Byte(x, n, i); b != w {
				fail("Byte(%d, %d) = %x", n, i, b)
			}
		}
	}
	first := 0
	for first < abs.BitLen() && abs.Bit(first) == 0 {
		first++
	}
	if n := cmath.FirstBitSet(x); n != first {
		fail("FirstBitSet = %d", n)
	}
	unchanged("reading")
	// printed forms denote the number
	for _, s := range []string{cmath.BigIntForPrint(x), cmath.BigStringForPrint(x.String()), cmath.NewBigInt(x).String()} {
		r, ok := new(big.Rat).SetString(s)
		if !ok || !r.IsInt() || r.Num().Cmp(x) != 0 {
			fail("is printed as %s", s)
		}
	}
	if s := cmath.BigForPrint(x); s != x.String() && !strings.HasPrefix(s, x.String()+" (") {
		fail("BigForPrint = %s", s)
	}
	if y, ok := new(big.Int).SetString(cmath.NewBigInt(x).HexString(), 16); !ok || y.Cmp(x) != 0 {
		fail("HexString = %s", cmath.NewBigInt(x).HexString())
	}
	if u, ok := cmath.NewBigInt(x).ToUint64(); ok != x.IsUint64() || ok && u != x.Uint64() {
		fail("ToUint64 = %d, %v", u, ok)
	}
	p := cmath.CopyBigInt(x)
	if p.Cmp(x) != 0 || p == x {
		fail("CopyBigInt = %v", p)
	}
	p.Add(p, cmath.Big1)
	unchanged("writing to the copy")
	q := cmath.MustCreatedBigInt(x, false)
	q.Add(q, cmath.Big1)
	unchanged("writing to MustCreatedBigInt")
	if y := cmath.MustPositiveInt(x); (y != nil) != (x.Sign() > 0) || y != nil && y.Cmp(x) != 0 {
		fail("MustPositiveInt = %v", y)
	}
}

// checkNilInts: nil counts as zero in every operation of two BigInts; only the receiver may change.
func checkNilInts(c *fw.Ctx, x, y *big.Int) {
	val := func(b *big.Int) *big.Int {
		if b == nil {
			return new(big.Int)
		}
		return b
	}
	vx, vy := new(big.Int).Set(val(x)), new(big.Int).Set(val(y))
	clone := func(b *big.Int) *big.Int {
		if b == nil {
			return nil
		}
		return new(big.Int).Set(b)
	}
	c.Evals.Add(1)
	op := func(what string, want *big.Int, f func(a *cmath.BigInt, b *cmath.BigInt) *cmath.BigInt) {
		a, b := (*cmath.BigInt)(clone(x)), (*cmath.BigInt)(clone(y))
		var r *cmath.BigInt
		if p := fw.Try(func() { r = f(a, b) }); p != nil {
			c.Fail("bigint", "%s of %v and %v panics: %v", what, x, y, p)
		}
		got := val((*big.Int)(r))
		if got.Cmp(want) != 0 {
			c.Fail("bigint", "%s of %v and %v = %v, want %v", what, x, y, got, want)
		}
		if (b == nil) != (y == nil) || b != nil && (*big.Int)(b).Cmp(vy) != 0 {
			c.Fail("bigint", "%s of %v and %v changes its argument to %v", what, x, y, b)
		}
		// the result is not the argument
		if r != nil && b != nil {
			(*big.Int)(r).Add((*big.Int)(r), big.NewInt(3))
			if (*big.Int)(b).Cmp(vy) != 0 {
				c.Fail("bigint", "the result of %s of %v and %v shares its argument", what, x, y)
			}
		}
	}
	N := func(b *cmath.BigInt) *big.Int { return (*big.Int)(b) }
	sum, diff, prod := new(big.Int).Add(vx, vy), new(big.Int).Sub(vx, vy), new(big.Int).Mul(vx, vy)
	op("Add", sum, func(a, b *cmath.BigInt) *cmath.BigInt { return a.Add(b) })
	op("AddInt", sum, func(a, b *cmath.BigInt) *cmath.BigInt { return a.AddInt(N(b)) })
	op("AddBigInt", sum, func(a, b *cmath.BigInt) *cmath.BigInt { return (*cmath.BigInt)(cmath.AddBigInt(N(a), N(b))) })
	op("AddInts", new(big.Int).Add(sum, vy), func(a, b *cmath.BigInt) *cmath.BigInt { return a.AddInts(N(b), nil, N(b), new(big.Int)) })
	op("AddInts()", vx, func(a, b *cmath.BigInt) *cmath.BigInt { return a.AddInts() })
	op("Sub", diff, func(a, b *cmath.BigInt) *cmath.BigInt { return a.Sub(b) })
	op("SubInt", diff, func(a, b *cmath.BigInt) *cmath.BigInt { return a.SubInt(N(b)) })
	op("Mul", prod, func(a, b *cmath.BigInt) *cmath.BigInt { return a.Mul(b) })
	op("MulInt", prod, func(a, b *cmath.BigInt) *cmath.BigInt { return a.MulInt(N(b)) })
	op("Clone", vx, func(a, b *cmath.BigInt) *cmath.BigInt {
		r := a.Clone()
		if r != nil {
			N(r).Add(N(r), big.NewInt(1))
			if N(a).Cmp(vx) != 0 {
				c.Fail("bigint", "a clone of %v shares it", x)
			}
			N(r).Sub(N(r), big.NewInt(1))
		}
		return r
	})
	op("MustInt", vx, func(a, b *cmath.BigInt) *cmath.BigInt { return (*cmath.BigInt)(a.MustInt()) })
	op("MustBigInt", vx, func(a, b *cmath.BigInt) *cmath.BigInt { return (*cmath.BigInt)(cmath.MustBigInt(N(a))) })
	if y != nil {
		op("SetInt", vy, func(a, b *cmath.BigInt) *cmath.BigInt { return a.SetInt(N(b)) })
	}
	if vy.Sign() != 0 {
		// Euclidean quotient, as big.Int.Div has it
		op("Div", new(big.Int).Div(vx, vy), func(a, b *cmath.BigInt) *cmath.BigInt { return a.Div(b) })
		op("DivInt", new(big.Int).Div(vx, vy), func(a, b *cmath.BigInt) *cmath.BigInt { return a.DivInt(N(b)) })
	} else if p := fw.Try(func() { (*cmath.BigInt)(clone(x)).DivInt(y) }); p == nil {
		c.Fail("bigint", "dividing %v by %v goes through", x, y)
	}
	for _, d := range []int64{1, 2, 3, 7} {
		for _, n := range []int64{1, -1, 2, 5} {
			r := big.NewRat(n, d)
			w := new(big.Int).Mul(vx, r.Num())
			w.Div(w, r.Denom())
			op("MulRat", w, func(a, b *cmath.BigInt) *cmath.BigInt { return a.MulRat(r) })
		}
	}
	a, b := (*cmath.BigInt)(clone(x)), (*cmath.BigInt)(clone(y))
	if r := a.Compare(b); r != vx.Cmp(vy) {
		c.Fail("bigint", "Compare of %v and %v = %d", x, y, r)
	}
	if r := a.CompareInt(N(b)); r != vx.Cmp(vy) {
		c.Fail("bigint", "CompareInt of %v and %v = %d", x, y, r)
	}
	if a.Sign() != vx.Sign() || a.IsZero() != (vx.Sign() == 0) || a.Positive() != (vx.Sign() > 0) || a.Negative() != (vx.Sign() < 0) || (a.MustPositive() != nil) != (vx.Sign() > 0) || (a.Int() != nil) != (vx.Sign() != 0) {
		c.Fail("bigint", "sign of %v: %d %v %v %v", x, a.Sign(), a.IsZero(), a.Positive(), a.Negative())
	}
	if x != nil && y != nil {
		if cmath.BigMax(x, y).Cmp(x) < 0 || cmath.BigMax(x, y).Cmp(y) < 0 || cmath.BigMin(x, y).Cmp(x) > 0 || cmath.BigMin(x, y).Cmp(y) > 0 {
			c.Fail("bigint", "BigMax/BigMin of %v and %v", x, y)
		}
		if cmath.CompareBigInt(x, y) != x.Cmp(y) {
			c.Fail("bigint", "CompareBigInt of %v and %v", x, y)
		}
	}
	if (x == nil) != (y == nil) && cmath.CompareBigInt(x, y) != -cmath.CompareBigInt(y, x) {
		c.Fail("bigint", "CompareBigInt of %v and %v", x, y)
	}
	if s := a.HexString(); x == nil && s != "0" {
		c.Fail("bigint", "HexString of nil = %s", s)
	}
	// subtraction that stops at zero: left + taken = before, never negative, neither operand changed
	left, taken := a.SubIntNotLessZero(N(b))
	l, t := val(N(left)), val(N(taken))
	wantT := new(big.Int)
	if vx.Sign() > 0 && vy.Sign() > 0 {
		wantT.Set(vx)
		if vx.Cmp(vy) > 0 {
			wantT.Set(vy)
		}
	}
	if t.Cmp(wantT) != 0 || new(big.Int).Add(l, t).Cmp(vx) != 0 || val(N(a)).Cmp(vx) != 0 || val(N(b)).Cmp(vy) != 0 {
		c.Fail("bigint", "SubIntNotLessZero of %v and %v: %v, %v", x, y, left, taken)
	}
}

func checkRat(c *fw.Ctx, r *big.Rat) {
	c.Evals.Add(1)
	keep := new(big.Rat).Set(r)
	fl := new(big.Int).Div(r.Num(), r.Denom())
	ce := new(big.Int).Set(fl)
	if !r.IsInt() {
		ce.Add(ce, big.NewInt(1))
	}
	if x, no := cmath.RatToInt64(r); no == ce.IsInt64() || !no && x != ce.Int64() {
		c.Fail("rat", "RatToInt64(%v) = %d, %v", r, x, no)
	}
	if x, no := cmath.RatToInt64Floor(r); no == fl.IsInt64() || !no && x != fl.Int64() {
		c.Fail("rat", "RatToInt64Floor(%v) = %d, %v", r, x, no)
	}
	for _, i := range []int64{0, 1, -1, 3, 1 << 53, 1<<53 + 1, 1<<63 - 1, -1 << 63} {
		p := new(big.Rat).Mul(r, new(big.Rat).SetInt64(i))
		w := new(big.Int).Div(p.Num(), p.Denom())
		if !p.IsInt() {
			w.Add(w, big.NewInt(1))
		}
		if x := cmath.Int64MulRat(i, r); w.IsInt64() && x != w.Int64() {
			c.Fail("rat", "Int64MulRat(%d, %v) = %d", i, r, x)
		}
	}
	cp := cmath.CopyBigRat(r)
	if cp.Cmp(r) != 0 || cp == r || cmath.CompareBigRat(r, cp) != 0 || cmath.CompareBigRat(r, nil) != -cmath.CompareBigRat(nil, r) {
		c.Fail("rat", "copy of %v is %v", r, cp)
	}
	if s, ok := new(big.Rat).SetString(cmath.BigRatForPrint(r)); !ok || s.Cmp(r) != 0 {
		c.Fail("rat", "%v is printed as %s", r, cmath.BigRatForPrint(r))
	}
	if r.Cmp(keep) != 0 {
		c.Fail("rat", "%v is changed to %v", keep, r)
	}
}

func runX02(c *fw.Ctx) {
	us := u64s()
	c.Parallel(len(us), func(i int, s *fw.Slot) {
		s.Begin(func() string { return fmt.Sprint("checked arithmetic of ", us[i]) })
		for _, y := range us {
			checkChecked(c, us[i], y)
		}
		s.End()
	})
	for x := uint64(0); x < uint64(c.Pick(300, 2000)); x++ {
		for y := uint64(0); y < 300; y++ {
			checkChecked(c, x, y)
		}
	}
	bs := append(pow2s(264, true), big.NewInt(100000), big.NewInt(123450), big.NewInt(-100000), big.NewInt(99999), big.NewInt(-99999), big.NewInt(-10000), big.NewInt(1000001))
	for i := int64(-300); i <= 300; i++ {
		bs = append(bs, big.NewInt(i))
	}
	ten := big.NewInt(1)
	for i := 0; i < 40; i++ {
		ten = new(big.Int).Mul(ten, big.NewInt(10))
		bs = append(bs, ten, new(big.Int).Add(ten, big.NewInt(1)), new(big.Int).Neg(ten), new(big.Int).Mul(ten, big.NewInt(125)))
	}
	c.Parallel(len(bs), func(i int, s *fw.Slot) {
		s.Begin(func() string { return "big integer " + bs[i].String() })
		checkBig(c, bs[i])
		s.End()
	})
	// exponentiation
	base := append(pow2s(256, false), big.NewInt(10), big.NewInt(7))
	exps := []*big.Int{}
	for _, x := range pow2s(uint(c.Pick(130, 256)), false) {
		exps = append(exps, x)
	}
	c.Parallel(len(base), func(i int, s *fw.Slot) {
		if base[i].BitLen() > 256 {
			return
		}
		s.Begin(func() string { return "powers of " + base[i].String() })
		for _, e := range exps {
			x, y := new(big.Int).Set(base[i]), new(big.Int).Set(e)
			r := cmath.Exp(x, y)
			c.Evals.Add(1)
			if r.Cmp(new(big.Int).Exp(base[i], e, two256)) != 0 {
				c.Fail("exp", "Exp(%v, %v) = %v", base[i], e, r)
			}
			if x.Cmp(base[i]) != 0 || y.Cmp(e) != 0 || r == x || r == y {
				c.Fail("exp", "Exp(%v, %v) changes its arguments to %v, %v", base[i], e, x, y)
			}
		}
		s.End()
	})
	for a := int64(-5); a <= 5; a++ {
		for b := int64(0); b <= 70; b++ {
			w := big.NewInt(1)
			for i := int64(0); i < b; i++ {
				w.Mul(w, big.NewInt(a))
			}
			if r := cmath.BigPow(a, b); r.Cmp(w) != 0 {
				c.Fail("exp", "BigPow(%d, %d) = %v", a, b, r)
			}
		}
	}
	// nil-tolerant helpers
	ns := append([]*big.Int{nil}, pow2s(66, true)...)
	c.Parallel(len(ns), func(i int, s *fw.Slot) {
		s.Begin(func() string { return fmt.Sprint("nil-tolerant operations of ", ns[i]) })
		for _, y := range ns {
			checkNilInts(c, ns[i], y)
		}
		s.End()
	})
	// rationals
	nums, dens := pow2s(130, true), pow2s(68, false)
	c.Parallel(len(nums), func(i int, s *fw.Slot) {
		s.Begin(func() string { return "rationals over " + nums[i].String() })
		for _, d := range dens {
			if d.Sign() > 0 {
				checkRat(c, new(big.Rat).SetFrac(nums[i], d))
			}
		}
		s.End()
	})
	checkRat(c, new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 2000)))
	checkRat(c, new(big.Rat).SetFrac(big.NewInt(-1), new(big.Int).Lsh(big.NewInt(1), 2000)))
	checkRat(c, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 2000)))
	// parsing
	alpha := []byte("019afFxX+-_ g")
	depth := c.Pick(5, 6)
	c.Parallel(len(alpha), func(i int, s *fw.Slot) {
		s.Begin(func() string { return "numbers beginning with " + string(alpha[i:i+1]) })
		buf := []byte{alpha[i]}
		var rec func()
		rec = func() {
			s.Begin(nil)
			checkParseNum(c, string(buf))
			if len(buf) < depth {
				for _, a := range alpha {
					buf = append(buf, a)
					rec()
					buf = buf[:len(buf)-1]
				}
			}
		}
		rec()
		s.End()
	})
	checkParseNum(c, "")
	for _, x := range pow2s(264, true) {
		for _, pre := range []string{"", "0", "000"} {
			checkParseNum(c, pre+x.Text(10))
			checkParseNum(c, "0x"+pre+x.Text(16))
			checkParseNum(c, "0X"+pre+strings.ToUpper(x.Text(16)))
		}
	}
	for n := 0; n <= 80; n++ {
		checkParseNum(c, strings.Repeat("9", n))
		checkParseNum(c, "0x"+strings.Repeat("f", n))
		checkParseNum(c, "0x"+strings.Repeat("0", n)+"1")
	}
	if b := (*cmath.HexOrDecimal256)(nil); true {
		if t, err := b.MarshalText(); err != nil || string(t) != "0x0" {
			c.Fail("parse", "nil HexOrDecimal256 marshals to %s, %v", t, err)
		}
	}
	for _, u := range us {
		t, err := cmath.HexOrDecimal64(u).MarshalText()
		var back cmath.HexOrDecimal64
		if err != nil || back.UnmarshalText(t) != nil || uint64(back) != u {
			c.Fail("parse", "HexOrDecimal64 %d marshals to %s and comes back as %d", u, t, back)
		}
	}
}
