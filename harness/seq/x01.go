package seq

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/hexutil"

	"verif/harness/fw"
)

// The documented forms, written as plain predicates over the text.

func hexDigit(b byte) int {
	for i := 0; i < 16; i++ {
		if b == "0123456789abcdef"[i] || b == "0123456789ABCDEF"[i] {
			return i
		}
	}
	return -1
}

// refHexBytes reads "0x" and an even number of digits.
func refHexBytes(s string, prefix bool) ([]byte, bool) {
	if len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
		s = s[2:]
	} else if prefix {
		return nil, false
	}
	if len(s)%2 == 1 {
		return nil, false
	}
	r := []byte{}
	for i := 0; i < len(s); i += 2 {
		h, l := hexDigit(s[i]), hexDigit(s[i+1])
		if h < 0 || l < 0 {
			return nil, false
		}
		r = append(r, byte(h<<4|l))
	}
	return r, true
}

// refHexNum reads "0x" and digits without leading zero, of at most max bits.
func refHexNum(s string, max int) (*big.Int, bool) {
	if len(s) < 3 || s[0] != '0' || s[1] != 'x' && s[1] != 'X' {
		return nil, false
	}
	s = s[2:]
	if len(s) > 1 && s[0] == '0' {
		return nil, false
	}
	x := new(big.Int)
	for i := 0; i < len(s); i++ {
		d := hexDigit(s[i])
		if d < 0 {
			return nil, false
		}
		x.Lsh(x, 4).Add(x, big.NewInt(int64(d)))
	}
	return x, x.BitLen() <= max
}

func checkHexText(c *fw.Ctx, s string) {
	fail := func(what string, got any, err error, want any, ok bool) {
		c.Fail("hex", "%s(%q): %v, %v; want %v, valid: %v", what, s, got, err, want, ok)
	}
	c.Evals.Add(1)
	jsonIn := []byte(`"` + s + `"`)
	// bytes
	want, ok := refHexBytes(s, true)
	b, err := hexutil.Decode(s)
	if ok != (err == nil) || ok && !bytes.Equal(b, want) {
		fail("Decode", b, err, want, ok)
	}
	if ok {
		c.Nontriv.Add(1)
	}
	must := func(what string, ok bool, f func()) {
		if p := fw.Try(f); (p == nil) != ok {
			fail(what, p, nil, nil, ok)
		}
	}
	must("MustDecode", ok, func() { hexutil.MustDecode(s) })
	if s == "" {
		want, ok = []byte{}, true
	}
	for _, viaJSON := range []bool{false, true} {
		x := hexutil.Bytes{0xee, 0xee}
		if viaJSON {
			err = x.UnmarshalJSON(jsonIn)
		} else {
			err = x.UnmarshalText([]byte(s))
		}
		w := want
		if !ok {
			w = []byte{0xee, 0xee}
		}
		if ok != (err == nil) || !bytes.Equal(x, w) {
			fail("Bytes.Unmarshal", x, err, w, ok)
		}
		for _, n := range []int{0, 1, 2, 3} {
			out := bytes.Repeat([]byte{0xee}, n)
			if viaJSON {
				err = hexutil.UnmarshalFixedJSON(reflect.TypeOf(x), jsonIn, out)
			} else {
				err = hexutil.UnmarshalFixedText("x", []byte(s), out)
			}
			good := ok && len(want) == n
			w := want
			if !good {
				w = bytes.Repeat([]byte{0xee}, n)
			}
			if good != (err == nil) || !bytes.Equal(out, w) {
				fail(fmt.Sprintf("UnmarshalFixed to %d bytes", n), out, err, w, good)
			}
		}
	}
	uw, uok := refHexBytes(s, false)
	for _, n := range []int{0, 1, 2, 3} {
		out := bytes.Repeat([]byte{0xee}, n)
		err = hexutil.UnmarshalFixedUnprefixedText("x", []byte(s), out)
		good := uok && len(uw) == n
		w := uw
		if !good {
			w = bytes.Repeat([]byte{0xee}, n)
		}
		if good != (err == nil) || !bytes.Equal(out, w) {
			fail(fmt.Sprintf("UnmarshalFixedUnprefixedText to %d bytes", n), out, err, w, good)
		}
	}
	// numbers
	checkHexNumber(c, s)
}

func checkHexNumber(c *fw.Ctx, s string) {
	fail := func(what string, got any, err error, want any, ok bool) {
		c.Fail("hex", "%s(%q): %v, %v; want %v, valid: %v", what, s, got, err, want, ok)
	}
	must := func(what string, ok bool, f func()) {
		if p := fw.Try(f); (p == nil) != ok {
			fail(what, p, nil, nil, ok)
		}
	}
	jsonIn := []byte(`"` + s + `"`)
	x, ok := refHexNum(s, 64)
	u, err := hexutil.DecodeUint64(s)
	if ok != (err == nil) || ok && u != x.Uint64() {
		fail("DecodeUint64", u, err, x, ok)
	}
	must("MustDecodeUint64", ok, func() { hexutil.MustDecodeUint64(s) })
	tx, tok := x, ok
	if s == "" {
		tx, tok = new(big.Int), true
	}
	if !tok {
		tx = big.NewInt(0xeeee)
	}
	for i := 0; i < 2; i++ {
		v, w := hexutil.Uint64(0xeeee), hexutil.Uint(0xeeee)
		var err2 error
		if i == 0 {
			err, err2 = v.UnmarshalText([]byte(s)), w.UnmarshalText([]byte(s))
		} else {
			err, err2 = v.UnmarshalJSON(jsonIn), w.UnmarshalJSON(jsonIn)
		}
		if tok != (err == nil) || uint64(v) != tx.Uint64() {
			fail("Uint64.Unmarshal", v, err, tx, tok)
		}
		if tok != (err2 == nil) || uint64(w) != tx.Uint64() {
			fail("Uint.Unmarshal", w, err2, tx, tok)
		}
	}
	x, ok = refHexNum(s, 256)
	b, err := hexutil.DecodeBig(s)
	if ok != (err == nil) || ok && b.Cmp(x) != 0 {
		fail("DecodeBig", b, err, x, ok)
	}
	must("MustDecodeBig", ok, func() { hexutil.MustDecodeBig(s) })
	tx, tok = x, ok
	if s == "" {
		tx, tok = new(big.Int), true
	}
	if !tok {
		tx = big.NewInt(0xeeee)
	}
	for i := 0; i < 2; i++ {
		v := hexutil.Big(*big.NewInt(0xeeee))
		if i == 0 {
			err = v.UnmarshalText([]byte(s))
		} else {
			err = v.UnmarshalJSON(jsonIn)
		}
		if tok != (err == nil) || v.ToInt().Cmp(tx) != 0 {
			fail("Big.Unmarshal", v.ToInt(), err, tx, tok)
		}
	}
}

// fixedKinds are the fixed-size types of the package with text forms.
func checkFixedTypes(c *fw.Ctx) {
	type fx struct {
		name string
		size int
		text func(in []byte, old []byte) ([]byte, error)
		json func(in []byte, old []byte) ([]byte, error)
		out  func(v []byte) ([]byte, error)
	}
	kinds := []fx{
		{"Hash", 32, func(in, old []byte) ([]byte, error) {
			h := common.BytesToHash(old)
			err := h.UnmarshalText(in)
			return h[:], err
		}, func(in, old []byte) ([]byte, error) {
			h := common.BytesToHash(old)
			err := json.Unmarshal(in, &h)
			return h[:], err
		}, func(v []byte) ([]byte, error) { return common.BytesToHash(v).MarshalText() }},
		{"Address", 20, func(in, old []byte) ([]byte, error) {
			h := common.BytesToAddress(old)
			err := h.UnmarshalText(in)
			return h[:], err
		}, func(in, old []byte) ([]byte, error) {
			h := common.BytesToAddress(old)
			err := h.UnmarshalJSON(in)
			return h[:], err
		}, func(v []byte) ([]byte, error) { return common.BytesToAddress(v).MarshalText() }},
		{"NodeID", 64, func(in, old []byte) ([]byte, error) {
			h := common.BytesToNodeID(old)
			err := h.UnmarshalText(in)
			return h[:], err
		}, func(in, old []byte) ([]byte, error) {
			h := common.BytesToNodeID(old)
			err := json.Unmarshal(in, &h)
			return h[:], err
		}, func(v []byte) ([]byte, error) { return common.BytesToNodeID(v).MarshalText() }},
	}
	for _, k := range kinds {
		old := bytes.Repeat([]byte{0xee}, k.size)
		try := func(s string) {
			want, ok := refHexBytes(s, true)
			ok = ok && len(want) == k.size
			if !ok {
				want = old
			}
			c.Evals.Add(1)
			got, err := k.text([]byte(s), old)
			if ok != (err == nil) || !bytes.Equal(got, want) {
				c.Fail("hex-fixed", "%s.UnmarshalText(%q): %x, %v", k.name, s, got, err)
			}
			got, err = k.json([]byte(`"`+s+`"`), old)
			if ok != (err == nil) || !bytes.Equal(got, want) {
				c.Fail("hex-fixed", "%s from JSON %q: %x, %v", k.name, s, got, err)
			}
			for _, bad := range []string{s, `"` + s, s + `"`, `'` + s + `'`, `["` + s + `"]`, "12", "{}"} {
				if got, err := k.json([]byte(bad), old); err == nil || !bytes.Equal(got, old) {
					c.Fail("hex-fixed", "%s from JSON %s: %x, %v", k.name, bad, got, err)
				}
			}
		}
		val := make([]byte, k.size)
		for i := range val {
			val[i] = byte(0x91 + 7*i)
		}
		for _, v := range [][]byte{val, make([]byte, k.size), bytes.Repeat([]byte{0xff}, k.size)} {
			txt, err := k.out(v)
			if err != nil || string(txt) != fmt.Sprintf("0x%x", v) {
				c.Fail("hex-fixed", "%s %x marshals to %s, %v", k.name, v, txt, err)
			}
			try(string(txt))
			try(fmt.Sprintf("0X%X", v))
		}
		full := fmt.Sprintf("0x%x", val)
		for n := 0; n <= len(full); n++ {
			try(full[:n])
			try(full[n:])
			try(full + full[:n])
			if n < len(full) {
				for _, x := range []byte("gG /:@`x-+_\x00é0") {
					b := []byte(full)
					b[n] = x
					try(string(b))
					try(full[:n] + string([]byte{x}) + full[n:])
				}
				try(full[:n] + full[n+1:])
			}
		}
	}
}

func runX01(c *fw.Ctx) {
	alpha := []byte("0x19afAFgGX -+_\"\\\x00\x80")
	depth := c.Pick(5, 6)
	c.Parallel(len(alpha), func(i int, s *fw.Slot) {
		s.Begin(func() string { return "text beginning with " + string(alpha[i:i+1]) })
		buf := make([]byte, 0, 16)
		var rec func()
		rec = func() {
			s.Begin(nil)
			checkHexText(c, string(buf))
			if len(buf) < depth {
				for _, a := range alpha {
					buf = append(buf, a)
					rec()
					buf = buf[:len(buf)-1]
				}
			}
		}
		buf = append(buf, alpha[i])
		rec()
		// behind the prefix
		if i < 8 {
			for _, p := range []string{"0x", "0X"} {
				buf = append(append(buf[:0], p...), alpha[i])
				depth := depth + 2
				var rec2 func()
				rec2 = func() {
					s.Begin(nil)
					checkHexText(c, string(buf))
					if len(buf) < depth {
						for _, a := range alpha {
							buf = append(buf, a)
							rec2()
							buf = buf[:len(buf)-1]
						}
					}
				}
				rec2()
			}
		}
		s.End()
	})
	checkHexText(c, "")
	// numbers of every length around the limits, each digit position damaged once
	for n := 1; n <= 70; n++ {
		for _, lead := range []string{"", "0", "00"} {
			for _, d := range []string{"1", "8", "f", "F", "7"} {
				for _, fill := range []string{"0", "f", "5"} {
					b := []byte("0x" + lead + d)
					for len(b) < n+2 {
						b = append(b, fill[0])
					}
					checkHexNumber(c, string(b))
					c.Evals.Add(1)
					if d == "8" && lead == "" {
						for i := 2; i < len(b); i++ {
							for _, x := range []byte("gG/:@`\x00") {
								o := b[i]
								b[i] = x
								checkHexNumber(c, string(b))
								b[i] = o
							}
						}
					}
				}
			}
		}
	}
	// values
	for e := uint(0); e <= 256; e++ {
		for d := int64(-1); d <= 1; d++ {
			x := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), e), big.NewInt(d))
			if x.Sign() < 0 || x.BitLen() > 256 {
				continue
			}
			c.Evals.Add(1)
			keep := new(big.Int).Set(x)
			want := "0x" + x.Text(16)
			v := hexutil.Big(*x)
			txt, err := v.MarshalText()
			js, err2 := json.Marshal((*hexutil.Big)(x))
			if s := hexutil.EncodeBig(x); s != want || v.String() != want || string(txt) != want || err != nil || err2 != nil || string(js) != `"`+want+`"` {
				c.Fail("hex-big", "%v: EncodeBig %s, String %s, MarshalText %s, JSON %s; want %s", x, s, v.String(), txt, js, want)
			}
			var back hexutil.Big
			if err := json.Unmarshal(js, &back); err != nil || back.ToInt().Cmp(keep) != 0 || x.Cmp(keep) != 0 {
				c.Fail("hex-big", "%v comes back as %v, %v", x, back.ToInt(), err)
			}
			if y, err := hexutil.DecodeBig(want); err != nil || y.Cmp(x) != 0 {
				c.Fail("hex-big", "DecodeBig(%s): %v, %v", want, y, err)
			}
			if !x.IsUint64() {
				continue
			}
			u := x.Uint64()
			txt, err = hexutil.Uint64(u).MarshalText()
			txt2, err2 := hexutil.Uint(u).MarshalText()
			if s := hexutil.EncodeUint64(u); s != want || hexutil.Uint64(u).String() != want || hexutil.Uint(u).String() != want || string(txt) != want || string(txt2) != want || err != nil || err2 != nil {
				c.Fail("hex-uint", "%d: %s %s %s; want %s", u, s, txt, txt2, want)
			}
			if y, err := hexutil.DecodeUint64(want); err != nil || y != u {
				c.Fail("hex-uint", "DecodeUint64(%s): %v, %v", want, y, err)
			}
			type rec struct {
				A hexutil.Uint64
				B hexutil.Uint
				C *hexutil.Big
				D hexutil.Bytes
			}
			r := rec{hexutil.Uint64(u), hexutil.Uint(u), (*hexutil.Big)(x), x.Bytes()}
			js, err = json.Marshal(r)
			var r2 rec
			if err != nil || json.Unmarshal(js, &r2) != nil || r2.A != r.A || r2.B != r.B || r2.C.ToInt().Cmp(x) != 0 || !bytes.Equal(r2.D, r.D) {
				c.Fail("hex-json", "%+v marshals to %s and comes back as %+v", r, js, r2)
			}
		}
	}
	// byte strings
	for n := 0; n < 70; n++ {
		for _, v := range [][]byte{patBytes(n), make([]byte, n), bytes.Repeat([]byte{0xff}, n)} {
			in := append([]byte{}, v...)
			want := fmt.Sprintf("0x%x", v)
			txt, err := hexutil.Bytes(in).MarshalText()
			js, err2 := json.Marshal(hexutil.Bytes(in))
			c.Evals.Add(1)
			if s := hexutil.Encode(in); s != want || hexutil.Bytes(in).String() != want || string(txt) != want || string(js) != `"`+want+`"` || err != nil || err2 != nil || !bytes.Equal(in, v) {
				c.Fail("hex-bytes", "%x: %s %s %s %v %v", v, s, txt, js, err, err2)
			}
			if b, err := hexutil.Decode(want); err != nil || !bytes.Equal(b, v) {
				c.Fail("hex-bytes", "Decode(%s): %x %v", want, b, err)
			}
			var back hexutil.Bytes
			src := []byte(want)
			if err := back.UnmarshalText(src); err != nil || !bytes.Equal(back, v) {
				c.Fail("hex-bytes", "UnmarshalText(%s): %x %v", want, []byte(back), err)
			}
			for i := range src {
				src[i] = 'z'
			}
			if !bytes.Equal(back, v) {
				c.Fail("hex-bytes", "decoded bytes change with the text they came from")
			}
		}
	}
	// JSON that is not a string
	for _, bad := range []string{``, `"`, `null`, `1`, `0x1`, `"0x1`, `0x1"`, `[]`, `true`, `'0x1'`} {
		b, u, w, g := hexutil.Bytes{7}, hexutil.Uint64(7), hexutil.Uint(7), hexutil.Big(*big.NewInt(7))
		e1, e2, e3, e4 := b.UnmarshalJSON([]byte(bad)), u.UnmarshalJSON([]byte(bad)), w.UnmarshalJSON([]byte(bad)), g.UnmarshalJSON([]byte(bad))
		if e1 == nil || e2 == nil || e3 == nil || e4 == nil || len(b) != 1 || u != 7 || w != 7 || g.ToInt().Int64() != 7 {
			c.Fail("hex-json", "JSON %s is accepted or changes the destination: %v %v %v %v", bad, e1, e2, e3, e4)
		}
	}
	checkFixedTypes(c)
}
