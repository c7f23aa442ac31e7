package seq

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/ThinkiumGroup/go-common"
)

// An independent reference of the contract ABI: types, canonical signatures, values, encoding and
// decoding, written from the ABI specification.

type akind int

const (
	aUint akind = iota
	aInt
	aBool
	aAddr
	aFixed // bytesN
	aFunc
	aBytes
	aString
	aSlice
	aArray
	aTuple
)

type at struct {
	k    akind
	n    int // bits, byte size, or array length
	elem *at
	fs   []*at
}

// values: *big.Int (integers), bool, []byte (address, bytesN, function, bytes), string, []any
type av = any

func (t *at) sig() string {
	switch t.k {
	case aUint:
		return fmt.Sprintf("uint%d", t.n)
	case aInt:
		return fmt.Sprintf("int%d", t.n)
	case aBool:
		return "bool"
	case aAddr:
		return "address"
	case aFixed:
		return fmt.Sprintf("bytes%d", t.n)
	case aFunc:
		return "function"
	case aBytes:
		return "bytes"
	case aString:
		return "string"
	case aSlice:
		return t.elem.sig() + "[]"
	case aArray:
		return fmt.Sprintf("%s[%d]", t.elem.sig(), t.n)
	}
	s := make([]string, len(t.fs))
	for i, f := range t.fs {
		s[i] = f.sig()
	}
	return "(" + strings.Join(s, ",") + ")"
}

// decl is the type as written in a JSON declaration, with the tuple components.
func (t *at) decl() (string, []any) {
	switch t.k {
	case aSlice:
		s, c := t.elem.decl()
		return s + "[]", c
	case aArray:
		s, c := t.elem.decl()
		return fmt.Sprintf("%s[%d]", s, t.n), c
	case aTuple:
		var cs []any
		for i, f := range t.fs {
			cs = append(cs, f.jsonArg(fieldName(i), false))
		}
		return "tuple", cs
	}
	return t.sig(), nil
}

func fieldName(i int) string { return []string{"a", "b_c", "_d", "eF"}[i] }
func goField(i int) string   { return []string{"A", "BC", "D", "EF"}[i] }

func (t *at) jsonArg(name string, indexed bool) map[string]any {
	s, c := t.decl()
	m := map[string]any{"name": name, "type": s}
	if c != nil {
		m["components"] = c
	}
	if indexed {
		m["indexed"] = true
	}
	return m
}

func (t *at) dynamic() bool {
	switch t.k {
	case aBytes, aString, aSlice:
		return true
	case aArray:
		return t.elem.dynamic()
	case aTuple:
		for _, f := range t.fs {
			if f.dynamic() {
				return true
			}
		}
	}
	return false
}

// head is the number of bytes the type takes in the head of its enclosing tuple.
func (t *at) head() int {
	if t.dynamic() {
		return 32
	}
	switch t.k {
	case aArray:
		return t.n * t.elem.head()
	case aTuple:
		n := 0
		for _, f := range t.fs {
			n += f.head()
		}
		return n
	}
	return 32
}

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

func word(x *big.Int) []byte {
	y := new(big.Int).Mod(x, two256)
	return y.FillBytes(make([]byte, 32))
}

func wordInt(n int) []byte { return word(big.NewInt(int64(n))) }

func padRight(b []byte) []byte {
	r := append([]byte{}, b...)
	for len(r)%32 != 0 {
		r = append(r, 0)
	}
	return r
}

func refAbiSeq(ts []*at, vs []av) []byte {
	off := 0
	for _, t := range ts {
		off += t.head()
	}
	var head, tail []byte
	for i, t := range ts {
		e := refAbi(t, vs[i])
		if t.dynamic() {
			head = append(head, wordInt(off+len(tail))...)
			tail = append(tail, e...)
		} else {
			head = append(head, e...)
		}
	}
	return append(head, tail...)
}

func repeatT(t *at, n int) []*at {
	r := make([]*at, n)
	for i := range r {
		r[i] = t
	}
	return r
}

func refAbi(t *at, v av) []byte {
	switch t.k {
	case aUint, aInt:
		return word(v.(*big.Int))
	case aBool:
		if v.(bool) {
			return wordInt(1)
		}
		return wordInt(0)
	case aAddr:
		return append(make([]byte, 12), v.([]byte)...)
	case aFixed, aFunc:
		return padRight(v.([]byte))
	case aBytes:
		b := v.([]byte)
		return append(wordInt(len(b)), padRight(b)...)
	case aString:
		b := v.(string)
		return append(wordInt(len(b)), padRight([]byte(b))...)
	case aSlice:
		l := v.([]any)
		return append(wordInt(len(l)), refAbiSeq(repeatT(t.elem, len(l)), l)...)
	case aArray:
		return refAbiSeq(repeatT(t.elem, t.n), v.([]any))
	}
	return refAbiSeq(t.fs, v.([]any))
}

// adec is the result of decoding: ok means every offset, length and boolean is inside its bounds;
// strict additionally that all padding is as the specification wants it.
type adec struct{ strict bool }

func refAbiInt(b []byte) (int, bool) {
	x := new(big.Int).SetBytes(b)
	if !x.IsInt64() || x.Int64() > 1<<40 {
		return 0, false
	}
	return int(x.Int64()), true
}

func (d *adec) seq(ts []*at, base []byte) ([]any, bool) {
	pos := 0
	vs := []any{}
	for _, t := range ts {
		if pos+t.head() > len(base) {
			return nil, false
		}
		var v av
		var ok bool
		if t.dynamic() {
			off, good := refAbiInt(base[pos : pos+32])
			if !good || off > len(base) {
				return nil, false
			}
			v, ok = d.one(t, base[off:])
		} else {
			v, ok = d.one(t, base[pos:])
		}
		if !ok {
			return nil, false
		}
		vs = append(vs, v)
		pos += t.head()
	}
	return vs, true
}

// one decodes a value of type t whose encoding starts at b.
func (d *adec) one(t *at, b []byte) (av, bool) {
	switch t.k {
	case aArray:
		return d.seqAny(repeatT(t.elem, t.n), b)
	case aTuple:
		return d.seqAny(t.fs, b)
	}
	if len(b) < 32 {
		return nil, false
	}
	w := b[:32]
	zero := func(p []byte) {
		for _, x := range p {
			if x != 0 {
				d.strict = false
			}
		}
	}
	switch t.k {
	case aUint:
		x := new(big.Int).SetBytes(w)
		if x.BitLen() > t.n {
			d.strict = false
			if t.n <= 64 {
				switch t.n {
				case 8, 16, 32, 64:
					x.Mod(x, new(big.Int).Lsh(big.NewInt(1), uint(t.n)))
				}
			}
		}
		return x, true
	case aInt:
		x := new(big.Int).SetBytes(w)
		if x.Bit(255) == 1 {
			x.Sub(x, two256)
		}
		lim := new(big.Int).Lsh(big.NewInt(1), uint(t.n-1))
		if x.Cmp(lim) >= 0 || x.Cmp(new(big.Int).Neg(lim)) < 0 {
			d.strict = false
			switch t.n {
			case 8, 16, 32, 64:
				m := new(big.Int).Lsh(lim, 1)
				x.Mod(x, m)
				if x.Cmp(lim) >= 0 {
					x.Sub(x, m)
				}
			}
		}
		return x, true
	case aBool:
		zero(w[:31])
		if !d.strictBool(w) {
			return nil, false
		}
		return w[31] == 1, true
	case aAddr:
		zero(w[:12])
		return append([]byte{}, w[12:]...), true
	case aFixed:
		zero(w[t.n:])
		return append([]byte{}, w[:t.n]...), true
	case aFunc:
		zero(w[24:])
		return append([]byte{}, w[:24]...), true
	case aBytes, aString:
		n, ok := refAbiInt(w)
		if !ok || 32+n > len(b) {
			return nil, false
		}
		p := (n + 31) / 32 * 32
		if 32+p > len(b) {
			d.strict = false
		} else {
			zero(b[32+n : 32+p])
		}
		if t.k == aString {
			return string(b[32 : 32+n]), true
		}
		return append([]byte{}, b[32:32+n]...), true
	}
	n, ok := refAbiInt(w)
	if !ok || t.elem.head() > 0 && n > len(b)/t.elem.head() {
		return nil, false
	}
	return d.seqAny(repeatT(t.elem, n), b[32:])
}

func (d *adec) strictBool(w []byte) bool {
	for _, x := range w[:31] {
		if x != 0 {
			return false
		}
	}
	return w[31] <= 1
}

func (d *adec) seqAny(ts []*at, b []byte) (av, bool) {
	vs, ok := d.seq(ts, b)
	if !ok {
		return nil, false
	}
	return vs, true
}

// ---- Go values

func (t *at) goType() reflect.Type {
	switch t.k {
	case aUint:
		switch t.n {
		case 8:
			return reflect.TypeOf(uint8(0))
		case 16:
			return reflect.TypeOf(uint16(0))
		case 32:
			return reflect.TypeOf(uint32(0))
		case 64:
			return reflect.TypeOf(uint64(0))
		}
		return reflect.TypeOf((*big.Int)(nil))
	case aInt:
		switch t.n {
		case 8:
			return reflect.TypeOf(int8(0))
		case 16:
			return reflect.TypeOf(int16(0))
		case 32:
			return reflect.TypeOf(int32(0))
		case 64:
			return reflect.TypeOf(int64(0))
		}
		return reflect.TypeOf((*big.Int)(nil))
	case aBool:
		return reflect.TypeOf(false)
	case aAddr:
		return reflect.TypeOf(common.Address{})
	case aFixed:
		return reflect.ArrayOf(t.n, reflect.TypeOf(byte(0)))
	case aFunc:
		return reflect.TypeOf([24]byte{})
	case aBytes:
		return reflect.TypeOf([]byte{})
	case aString:
		return reflect.TypeOf("")
	case aSlice:
		return reflect.SliceOf(t.elem.goType())
	case aArray:
		return reflect.ArrayOf(t.n, t.elem.goType())
	}
	fs := make([]reflect.StructField, len(t.fs))
	for i, f := range t.fs {
		fs[i] = reflect.StructField{Name: goField(i), Type: f.goType()}
	}
	return reflect.StructOf(fs)
}

// toGo builds the Go value of v, fresh.
func (t *at) toGo(v av) reflect.Value {
	r := reflect.New(t.goType()).Elem()
	t.fill(r, v)
	return r
}

func (t *at) fill(r reflect.Value, v av) {
	switch t.k {
	case aUint, aInt:
		x := v.(*big.Int)
		switch r.Kind() {
		case reflect.Ptr:
			r.Set(reflect.ValueOf(new(big.Int).Set(x)))
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			r.SetUint(x.Uint64())
		default:
			r.SetInt(x.Int64())
		}
	case aBool:
		r.SetBool(v.(bool))
	case aAddr, aFixed, aFunc:
		reflect.Copy(r, reflect.ValueOf(v.([]byte)))
	case aBytes:
		r.SetBytes(append([]byte{}, v.([]byte)...))
	case aString:
		r.SetString(v.(string))
	case aSlice:
		l := v.([]any)
		r.Set(reflect.MakeSlice(r.Type(), len(l), len(l)))
		for i := range l {
			t.elem.fill(r.Index(i), l[i])
		}
	case aArray:
		for i, x := range v.([]any) {
			t.elem.fill(r.Index(i), x)
		}
	case aTuple:
		for i, x := range v.([]any) {
			t.fs[i].fill(r.Field(i), x)
		}
	}
}

// fromGo reads a Go value as a value of type t. exact demands the documented Go type of t, otherwise
// any Go value that has an obvious reading as a t is read. ok is false when there is none.
func (t *at) fromGo(r reflect.Value, exact bool) (av, bool) {
	bigT := reflect.TypeOf(big.Int{})
	for !exact && r.IsValid() && r.Kind() == reflect.Ptr && !r.IsNil() && r.Type().Elem() != bigT {
		r = r.Elem()
	}
	if !r.IsValid() {
		return nil, false
	}
	want := t.goType()
	if exact && t.k < aSlice && r.Type() != want {
		return nil, false
	}
	byteArray := func(n int) ([]byte, bool) {
		if r.Kind() != reflect.Array || r.Len() != n || r.Type().Elem().Kind() != reflect.Uint8 {
			return nil, false
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.Index(i).Uint())
		}
		return b, true
	}
	switch t.k {
	case aUint, aInt:
		if r.Kind() != want.Kind() {
			return nil, false
		}
		switch r.Kind() {
		case reflect.Ptr:
			if r.IsNil() {
				return nil, false
			}
			x, ok := r.Interface().(*big.Int)
			if !ok {
				return nil, false
			}
			return new(big.Int).Set(x), true
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return new(big.Int).SetUint64(r.Uint()), true
		}
		return big.NewInt(r.Int()), true
	case aBool:
		if r.Kind() != reflect.Bool {
			return nil, false
		}
		return r.Bool(), true
	case aAddr:
		b, ok := byteArray(20)
		return b, ok
	case aFixed:
		b, ok := byteArray(t.n)
		return b, ok
	case aFunc:
		b, ok := byteArray(24)
		return b, ok
	case aBytes:
		if r.Kind() != reflect.Slice || r.Type().Elem().Kind() != reflect.Uint8 {
			return nil, false
		}
		return append([]byte{}, r.Bytes()...), true
	case aString:
		if r.Kind() != reflect.String {
			return nil, false
		}
		return r.String(), true
	case aSlice, aArray:
		if r.Kind() != reflect.Slice && r.Kind() != reflect.Array {
			return nil, false
		}
		if exact && r.Kind() != want.Kind() || t.k == aArray && r.Len() != t.n {
			return nil, false
		}
		if r.Type().Elem().Kind() == reflect.Interface {
			return nil, false
		}
		l := []any{}
		for i := 0; i < r.Len(); i++ {
			x, ok := t.elem.fromGo(r.Index(i), exact)
			if !ok {
				return nil, false
			}
			l = append(l, x)
		}
		return l, true
	}
	if r.Kind() != reflect.Struct || exact && r.NumField() != len(t.fs) {
		return nil, false
	}
	l := []any{}
	for i, f := range t.fs {
		fv := r.FieldByName(goField(i))
		if exact {
			if r.Type().Field(i).Name != goField(i) {
				return nil, false
			}
		}
		if !fv.IsValid() {
			return nil, false
		}
		x, ok := f.fromGo(fv, exact)
		if !ok {
			return nil, false
		}
		l = append(l, x)
	}
	return l, true
}

func avEq(a, b av) bool {
	switch x := a.(type) {
	case *big.Int:
		y, ok := b.(*big.Int)
		return ok && x.Cmp(y) == 0
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !avEq(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

func avStr(a av) string {
	switch x := a.(type) {
	case []byte:
		return fmt.Sprintf("0x%x", x)
	case []any:
		s := make([]string, len(x))
		for i := range x {
			s[i] = avStr(x[i])
		}
		return "[" + strings.Join(s, " ") + "]"
	case string:
		return fmt.Sprintf("%q", x)
	}
	return fmt.Sprint(a)
}

func sigs(ts []*at) string {
	s := make([]string, len(ts))
	for i, t := range ts {
		s[i] = t.sig()
	}
	return "(" + strings.Join(s, ",") + ")"
}

func mustJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// ---- universes

func uintT(n int) *at       { return &at{k: aUint, n: n} }
func intT(n int) *at        { return &at{k: aInt, n: n} }
func fixedT(n int) *at      { return &at{k: aFixed, n: n} }
func sliceT(e *at) *at      { return &at{k: aSlice, elem: e} }
func arrT(e *at, n int) *at { return &at{k: aArray, elem: e, n: n} }
func tupleT(fs ...*at) *at  { return &at{k: aTuple, fs: fs} }
func kindT(k akind) *at     { return &at{k: k} }
func seqBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i + 1)
	}
	return b
}

func elemTypes() []*at {
	var r []*at
	for _, n := range []int{8, 16, 24, 32, 40, 64, 72, 128, 256} {
		r = append(r, uintT(n), intT(n))
	}
	r = append(r, kindT(aBool), kindT(aAddr), fixedT(1), fixedT(4), fixedT(20), fixedT(24), fixedT(31), fixedT(32), kindT(aFunc), kindT(aBytes), kindT(aString))
	return r
}

func coreTypes() []*at {
	return []*at{uintT(8), uintT(256), intT(64), intT(256), kindT(aBool), kindT(aAddr), fixedT(4), fixedT(32), kindT(aBytes), kindT(aString)}
}

func wrapAll(in []*at) []*at {
	var r []*at
	u, y := uintT(256), kindT(aBytes)
	for _, t := range in {
		r = append(r, sliceT(t), arrT(t, 1), arrT(t, 2), arrT(t, 3), tupleT(t), tupleT(t, y), tupleT(y, t), tupleT(t, u, t))
	}
	return r
}

// avals are boundary values of t, at most about six.
func avals(t *at) []av {
	switch t.k {
	case aUint:
		m := new(big.Int).Lsh(big.NewInt(1), uint(t.n))
		return []av{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(m, big.NewInt(1)), new(big.Int).Rsh(m, 1), big.NewInt(0x7f), big.NewInt(0x80)}
	case aInt:
		m := new(big.Int).Lsh(big.NewInt(1), uint(t.n-1))
		return []av{big.NewInt(0), big.NewInt(-1), new(big.Int).Sub(m, big.NewInt(1)), new(big.Int).Neg(m), big.NewInt(1), big.NewInt(-128)}
	case aBool:
		return []av{true, false}
	case aAddr, aFixed, aFunc:
		n := t.n
		if t.k == aAddr {
			n = 20
		} else if t.k == aFunc {
			n = 24
		}
		return []av{seqBytes(n), make([]byte, n), bytes.Repeat([]byte{0xff}, n)}
	case aBytes:
		return []av{seqBytes(1), []byte{}, seqBytes(31), seqBytes(32), seqBytes(33), seqBytes(70)}
	case aString:
		return []av{"a", "", strings.Repeat("b", 32), strings.Repeat("é", 17), "\x00\xff"}
	}
	mk := func(ts []*at, rot int) av {
		l := []any{}
		for i, e := range ts {
			vs := avals(e)
			l = append(l, vs[(rot+i)%len(vs)])
		}
		return l
	}
	var r []av
	switch t.k {
	case aSlice:
		r = append(r, mk(repeatT(t.elem, 2), 0), mk(nil, 0), mk(repeatT(t.elem, 1), 1), mk(repeatT(t.elem, 3), 2))
		if t.elem.k < aSlice {
			r = append(r, mk(repeatT(t.elem, 33), 3))
		}
	case aArray:
		for i := 0; i < 4; i++ {
			r = append(r, mk(repeatT(t.elem, t.n), i))
		}
	case aTuple:
		for i := 0; i < 4; i++ {
			r = append(r, mk(t.fs, i))
		}
	}
	return r
}
