package seq

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"strings"
	"testing/iotest"

	"github.com/ThinkiumGroup/go-common/rlp"
	"github.com/holiman/uint256"

	"verif/harness/fw"
)

// ---------------------------------------------------------------------------------------------
// An independent reference of RLP: items, canonical parsing, encoding, and the typed rules.

type item struct {
	list  bool
	str   []byte
	elems []*item
	raw   []byte // the bytes it was parsed from
}

func refHead(small, large byte, n int) []byte {
	if n < 56 {
		return []byte{small + byte(n)}
	}
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(n))
	s := bytes.TrimLeft(b[:], "\x00")
	return append([]byte{large + byte(len(s))}, s...)
}

func refStr(s []byte) []byte {
	if len(s) == 1 && s[0] < 0x80 {
		return []byte{s[0]}
	}
	return append(refHead(0x80, 0xB7, len(s)), s...)
}

func refList(content []byte) []byte { return append(refHead(0xC0, 0xF7, len(content)), content...) }

// refSplit reads the header of the first item: kind (0 byte, 1 string, 2 list), where its content
// is, and whether it is canonical as far as the header (and a single byte content) tells.
func refSplit(b []byte) (kind, start, end int, ok bool) {
	if len(b) == 0 {
		return
	}
	t := b[0]
	long := func(lenlen int) (int, bool) {
		if len(b) < 1+lenlen || b[1] == 0 {
			return 0, false
		}
		n := new(big.Int).SetBytes(b[1 : 1+lenlen])
		if n.Cmp(big.NewInt(55)) <= 0 || n.Cmp(big.NewInt(int64(len(b)))) > 0 {
			return 0, false
		}
		return int(n.Int64()), true
	}
	var n int
	switch {
	case t < 0x80:
		return 0, 0, 1, true
	case t <= 0xB7:
		kind, start, n, ok = 1, 1, int(t-0x80), true
	case t <= 0xBF:
		kind, start = 1, 1+int(t-0xB7)
		n, ok = long(int(t - 0xB7))
	case t <= 0xF7:
		kind, start, n, ok = 2, 1, int(t-0xC0), true
	default:
		kind, start = 2, 1+int(t-0xF7)
		n, ok = long(int(t - 0xF7))
	}
	if !ok || start+n > len(b) {
		return kind, 0, 0, false
	}
	if kind == 1 && n == 1 && b[start] < 0x80 {
		return kind, 0, 0, false
	}
	return kind, start, start + n, true
}

// refParse parses one item at the start of b, all the way down.
func refParse(b []byte) (*item, []byte, bool) {
	kind, s, e, ok := refSplit(b)
	if !ok {
		return nil, nil, false
	}
	it := &item{raw: b[:e]}
	if kind < 2 {
		it.str = b[s:e]
		return it, b[e:], true
	}
	it.list = true
	c := b[s:e]
	for len(c) > 0 {
		var x *item
		if x, c, ok = refParse(c); !ok {
			return nil, nil, false
		}
		it.elems = append(it.elems, x)
	}
	return it, b[e:], true
}

func refParseAll(b []byte) (*item, bool) {
	it, rest, ok := refParse(b)
	return it, ok && len(rest) == 0
}

type rtags struct {
	nilOK, nilList  bool
	optional, tail  bool
	ignored, nilStr bool
}

func tagsOf(f reflect.StructField) (t rtags) {
	for _, s := range strings.Split(f.Tag.Get("rlp"), ",") {
		switch s {
		case "nil":
			t.nilOK = true
		case "nilList":
			t.nilOK, t.nilList = true, true
		case "nilString":
			t.nilOK, t.nilStr = true, true
		case "optional":
			t.optional = true
		case "tail":
			t.tail = true
		case "-":
			t.ignored = true
		}
	}
	return
}

func refFields(t reflect.Type) (fs []int, ts []rtags) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tg := tagsOf(f)
		if f.PkgPath != "" || tg.ignored {
			continue
		}
		fs = append(fs, i)
		ts = append(ts, tg)
	}
	return
}

var (
	tBig  = reflect.TypeOf(big.Int{})
	tU256 = reflect.TypeOf(uint256.Int{})
	tRaw  = reflect.TypeOf(rlp.RawValue{})
	tCust = reflect.TypeOf(custVal{})
)

// custVal has its own encoding: a list of its two numbers in reverse order.
type custVal struct{ a, b uint64 }

func (v *custVal) EncodeRLP(w io.Writer) error {
	return rlp.Encode(w, []uint64{v.b, v.a})
}
func (v *custVal) DecodeRLP(s *rlp.Stream) error {
	if _, err := s.List(); err != nil {
		return err
	}
	var err error
	if v.b, err = s.Uint64(); err != nil {
		if err == rlp.EOL {
			return errors.New("too few")
		}
		return err
	}
	if v.a, err = s.Uint64(); err != nil {
		if err == rlp.EOL {
			return errors.New("too few")
		}
		return err
	}
	return s.ListEnd()
}

func isByteSeq(t reflect.Type) bool {
	return (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) && t.Elem().Kind() == reflect.Uint8
}

// nilIsString: a nil pointer to this type is an empty string (otherwise an empty list).
func nilIsString(t reflect.Type, tg rtags) bool {
	if tg.nilList {
		return false
	}
	if tg.nilStr {
		return true
	}
	switch t.Kind() {
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.String, reflect.Bool:
		return true
	}
	return isByteSeq(t)
}

func refInt(s []byte, max int) bool {
	return len(s) <= max && !(len(s) > 0 && s[0] == 0)
}

// refAccepts: does the canonical item decode into type t.
func refAccepts(t reflect.Type, tg rtags, it *item) bool {
	switch {
	case t == tRaw:
		return true
	case t == tBig:
		return !it.list && refInt(it.str, 1<<30)
	case t == tU256:
		return !it.list && refInt(it.str, 32)
	case t == tCust:
		return it.list && len(it.elems) == 2 && refAccepts(reflect.TypeOf(uint64(0)), rtags{}, it.elems[0]) && refAccepts(reflect.TypeOf(uint64(0)), rtags{}, it.elems[1])
	}
	switch t.Kind() {
	case reflect.Ptr:
		if tg.nilOK && t.Elem() != tBig && t.Elem() != tU256 {
			if !it.list && len(it.str) == 0 || it.list && len(it.elems) == 0 {
				return nilIsString(t.Elem(), tg) == !it.list
			}
		}
		return refAccepts(t.Elem(), rtags{}, it)
	case reflect.Bool:
		return !it.list && (len(it.str) == 0 || len(it.str) == 1 && it.str[0] == 1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return !it.list && refInt(it.str, t.Bits()/8)
	case reflect.String:
		return !it.list
	case reflect.Interface:
		return true
	case reflect.Slice:
		if isByteSeq(t) {
			return !it.list
		}
		if !it.list {
			return false
		}
		for _, e := range it.elems {
			if !refAccepts(t.Elem(), rtags{}, e) {
				return false
			}
		}
		return true
	case reflect.Array:
		if isByteSeq(t) {
			return !it.list && len(it.str) == t.Len()
		}
		if !it.list || len(it.elems) != t.Len() {
			return false
		}
		for _, e := range it.elems {
			if !refAccepts(t.Elem(), rtags{}, e) {
				return false
			}
		}
		return true
	case reflect.Struct:
		if !it.list {
			return false
		}
		fs, ts := refFields(t)
		for i, f := range fs {
			if ts[i].tail {
				for ; i < len(it.elems); i++ {
					if !refAccepts(t.Field(f).Type.Elem(), rtags{}, it.elems[i]) {
						return false
					}
				}
				return true
			}
			if i >= len(it.elems) {
				return ts[i].optional
			}
			if !refAccepts(t.Field(f).Type, ts[i], it.elems[i]) {
				return false
			}
		}
		return len(it.elems) == len(fs)
	}
	panic("no rule for " + t.String())
}

// refEncode is the canonical encoding of v.
func refEncode(v reflect.Value, tg rtags) []byte {
	t := v.Type()
	uintBytes := func(u uint64) []byte { return refStr(new(big.Int).SetUint64(u).Bytes()) }
	switch t {
	case tRaw:
		return v.Bytes()
	case tBig:
		b := v.Interface().(big.Int)
		return refStr(b.Bytes())
	case tU256:
		u := v.Interface().(uint256.Int)
		return refStr(u.Bytes())
	case tCust:
		c := v.Interface().(custVal)
		return refList(append(uintBytes(c.b), uintBytes(c.a)...))
	}
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			if t.Elem() == tBig || t.Elem() == tU256 || nilIsString(t.Elem(), tg) {
				return []byte{0x80}
			}
			return []byte{0xC0}
		}
		return refEncode(v.Elem(), rtags{})
	case reflect.Interface:
		if v.IsNil() {
			return []byte{0xC0}
		}
		return refEncode(v.Elem(), rtags{})
	case reflect.Bool:
		if v.Bool() {
			return []byte{1}
		}
		return []byte{0x80}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return uintBytes(v.Uint())
	case reflect.String:
		return refStr([]byte(v.String()))
	case reflect.Slice, reflect.Array:
		if isByteSeq(t) {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return refStr(b)
		}
		var c []byte
		for i := 0; i < v.Len(); i++ {
			c = append(c, refEncode(v.Index(i), rtags{})...)
		}
		if tg.tail {
			return c
		}
		return refList(c)
	case reflect.Struct:
		fs, ts := refFields(t)
		last := len(fs)
		for last > 0 && ts[last-1].optional && v.Field(fs[last-1]).IsZero() {
			last--
		}
		var c []byte
		for i := 0; i < last; i++ {
			c = append(c, refEncode(v.Field(fs[i]), ts[i])...)
		}
		return refList(c)
	}
	panic("no rule for " + t.String())
}

// dump renders a value for comparison; nil pointers and slices that decode as empty values are
// rendered like these.
func dump(v reflect.Value, tg rtags) string {
	t := v.Type()
	switch t {
	case tBig, tU256, tCust:
		return fmt.Sprintf("%x", refEncode(v, tg))
	}
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			if tg.nilOK && t.Elem() != tBig && t.Elem() != tU256 {
				return "nil"
			}
			return dump(reflect.Zero(t.Elem()), rtags{})
		}
		if tg.nilOK && t.Elem() != tBig && t.Elem() != tU256 {
			e := refEncode(v.Elem(), rtags{})
			if len(e) == 1 && (e[0] == 0x80 || e[0] == 0xC0) {
				return "nil" // an empty value is read back as nil
			}
		}
		return dump(v.Elem(), rtags{})
	case reflect.Interface:
		if v.IsNil() {
			return "[]"
		}
		return dump(v.Elem(), rtags{})
	case reflect.Slice, reflect.Array:
		if isByteSeq(t) {
			return fmt.Sprintf("%x", refEncode(v, tg))
		}
		var sb strings.Builder
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			sb.WriteString(dump(v.Index(i), rtags{}) + " ")
		}
		return sb.String() + "]"
	case reflect.Struct:
		fs, ts := refFields(t)
		var sb strings.Builder
		sb.WriteString("{")
		for i, f := range fs {
			sb.WriteString(dump(v.Field(f), ts[i]) + " ")
		}
		return sb.String() + "}"
	}
	return fmt.Sprintf("%v", v.Interface())
}

// ---------------------------------------------------------------------------------------------
// the universe of types

type (
	rMyByte   byte
	rMyBytes  []byte
	rMyUint   uint16
	rPair     struct{ A, B uint64 }
	rOneField struct{ A []byte }
	rEmpty    struct{}
	rUnexp    struct{ a uint }
	rMixed    struct {
		U uint8
		x int
		S string
		I int `rlp:"-"`
		B bool
	}
	rOpt struct {
		A uint
		B uint   `rlp:"optional"`
		C []byte `rlp:"optional"`
		D *rPair `rlp:"optional"`
	}
	rOptNil struct {
		A uint
		B *uint8 `rlp:"optional,nil"`
	}
	rTail struct {
		A uint
		T []uint16 `rlp:"tail"`
	}
	rTailStruct struct {
		T []rPair `rlp:"tail"`
	}
	rNil struct {
		A *uint      `rlp:"nil"`
		B *[]uint    `rlp:"nil"`
		C *[2]byte   `rlp:"nil"`
		D *rPair     `rlp:"nil"`
		E *uint      `rlp:"nilList"`
		F *rOneField `rlp:"nilString"`
	}
	rNil1 struct {
		A *uint `rlp:"nil"`
	}
	rRec struct {
		V uint8
		N *rRec `rlp:"nil"`
	}
	rRecS struct {
		V uint8
		C []rRecS
	}
	rNest struct {
		P rPair
		L [][]byte
		I interface{}
	}
	rPtrs struct {
		A *uint
		B *big.Int
		C *uint256.Int
		D *string
	}
	rBigs struct {
		A big.Int
		B uint256.Int
	}
	rRawS struct {
		A rlp.RawValue
		B uint
	}
	rCust struct {
		C custVal
		P *custVal
	}
	rArr0 struct {
		A [0]byte
		B [1]byte
		C uint
	}
	rOpts struct {
		A []uint  `rlp:"optional"`
		B [2]byte `rlp:"optional"`
		C []rPair `rlp:"optional"`
		D *[]uint `rlp:"optional,nil"`
		E []byte  `rlp:"optional"`
	}
)

func typesOf(vs ...interface{}) []reflect.Type {
	var ts []reflect.Type
	for _, v := range vs {
		ts = append(ts, reflect.TypeOf(v).Elem())
	}
	return ts
}

var rlpTypes = typesOf(
	new(uint8), new(uint16), new(uint32), new(uint64), new(uint), new(bool), new(string), new([]byte),
	new([0]byte), new([1]byte), new([2]byte), new([3]byte), new([32]byte), new(rMyBytes), new([]rMyByte), new([2]rMyByte), new(rMyUint),
	new(big.Int), new(*big.Int), new(uint256.Int), new(*uint256.Int), new(*uint16), new(**uint8), new(*[]byte), new(*string),
	new(interface{}), new([]interface{}), new([]uint), new([]uint8), new([][]byte), new([]string), new([0]uint), new([1]uint), new([2]uint16), new([2][]byte), new([][2]byte),
	new([][]uint), new([]*uint), new([]bool), new([]big.Int), new([]*big.Int), new([]uint256.Int),
	new(rPair), new(*rPair), new([]rPair), new([]*rPair), new(rOneField), new(rEmpty), new(rUnexp), new(rMixed), new(rOpt), new(rOptNil), new(rTail), new(rTailStruct), new(rNil), new(rNil1), new(rRec), new(rRecS),
	new(rNest), new(rPtrs), new(rBigs), new(rRawS), new(rlp.RawValue), new([]rlp.RawValue), new(custVal), new(*custVal), new([]custVal), new(rCust), new(rArr0), new([][0]byte), new([][1]byte), new([2][0]byte), new(rOpts),
)

// hasRaw: contents of raw values are taken as they are, so acceptance is not decided by parsing
func hasRaw(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Slice:
		return t == tRaw || hasRaw(t.Elem())
	case reflect.Struct:
		return t == reflect.TypeOf(rRawS{})
	}
	return false
}

func hasOptional(t reflect.Type) bool {
	return t == reflect.TypeOf(rOpt{}) || t == reflect.TypeOf(rOptNil{}) || t == reflect.TypeOf(rOpts{})
}

// refAcceptsBytes decides acceptance for types with raw values, where only what is around a raw
// value has to be canonical.
func refAcceptsBytes(t reflect.Type, b []byte) bool {
	shallow := func(b []byte) (rest []byte, ok bool) {
		// a raw item: the single byte rule is not checked inside raw values
		if len(b) >= 2 && b[0] == 0x81 {
			return b[2:], true
		}
		_, _, e, ok := refSplit(b)
		if !ok {
			return nil, false
		}
		return b[e:], true
	}
	switch {
	case t == tRaw:
		rest, ok := shallow(b)
		return ok && len(rest) == 0
	case t.Kind() == reflect.Slice:
		k, s, e, ok := refSplit(b)
		if !ok || k != 2 || e != len(b) {
			return false
		}
		c := b[s:e]
		for len(c) > 0 {
			if c, ok = shallow(c); !ok {
				return false
			}
		}
		return true
	default: // rRawS
		k, s, e, ok := refSplit(b)
		if !ok || k != 2 || e != len(b) {
			return false
		}
		c := b[s:e]
		if c, ok = shallow(c); !ok {
			return false
		}
		it, ok := refParseAll(c)
		return ok && refAccepts(reflect.TypeOf(uint(0)), rtags{}, it)
	}
}

// ---------------------------------------------------------------------------------------------
// R02

// walk reads a whole item through the stream operations and returns its canonical re-encoding.
func walk(s *rlp.Stream) ([]byte, error) {
	k, _, err := s.Kind()
	if err != nil {
		return nil, err
	}
	if k2, _, err2 := s.Kind(); k2 != k || err2 != nil {
		return nil, fmt.Errorf("kind changed: %v %v", k2, err2)
	}
	if k != rlp.List {
		b, err := s.Bytes()
		if err != nil {
			return nil, err
		}
		return refStr(b), nil
	}
	if _, err := s.List(); err != nil {
		return nil, err
	}
	var c []byte
	for {
		more := s.MoreDataInList()
		x, err := walk(s)
		if err == rlp.EOL {
			if more {
				return nil, errors.New("end of list although there is more data")
			}
			break
		}
		if !more && err == nil {
			return nil, errors.New("element read although there is no more data")
		}
		if err != nil {
			return nil, err
		}
		c = append(c, x...)
	}
	if err := s.ListEnd(); err != nil {
		return nil, err
	}
	return refList(c), nil
}

func checkRlpInput(c *fw.Ctx, b []byte, full bool) (accepted bool) {
	keep := string(b)
	it, valid := refParseAll(b)
	desc := func() string {
		if len(b) > 80 {
			return fmt.Sprintf("input %x... (%d bytes)", b[:80], len(b))
		}
		return fmt.Sprintf("input %x", b)
	}
	for _, t := range rlpTypes {
		want := valid && !hasRaw(t) && refAccepts(t, rtags{}, it)
		if hasRaw(t) {
			want = refAcceptsBytes(t, b)
		}
		p := reflect.New(t)
		err := rlp.DecodeBytes(b, p.Interface())
		if (err == nil) != want {
			c.Fail("rlp-accept", "%s into %v: error %v, want acceptance %v", desc(), t, err, want)
		}
		if err == nil {
			accepted = true
			if !hasOptional(t) {
				e, err := rlp.EncodeToBytes(p.Interface())
				if err != nil || !bytes.Equal(e, b) {
					c.Fail("rlp-canonical", "%s into %v gives %s, which encodes to %x (%v)", desc(), t, dump(p.Elem(), rtags{}), e, err)
				}
			}
		}
		c.Evals.Add(1)
	}
	if string(b) != keep {
		c.Fail("rlp-input", "%s: the input was changed", desc())
	}
	// one item with something after it: the readers stop exactly behind it
	first, rest, okFirst := refParse(b)
	_ = first
	readers := []struct {
		name string
		mk   func() (*rlp.Stream, func() int)
	}{
		{"stream on bytes", func() (*rlp.Stream, func() int) {
			r := bytes.NewReader(b)
			return rlp.NewStream(r, 0), r.Len
		}},
		{"stream on a plain reader with limit", func() (*rlp.Stream, func() int) {
			r := bytes.NewReader(b)
			return rlp.NewStream(oneByteByteReader{iotest.OneByteReader(r), r}, uint64(len(b))), r.Len
		}},
		{"stream on a reader that gives data with EOF", func() (*rlp.Stream, func() int) {
			r := bytes.NewReader(b)
			return rlp.NewStream(eofByteReader{r}, uint64(len(b))), r.Len
		}},
	}
	for i, rd := range readers {
		if i > 0 && !full {
			break
		}
		if len(b) == 0 && i > 0 {
			continue
		}
		s, left := rd.mk()
		e, err := walk(s)
		if (err == nil) != okFirst {
			c.Fail("rlp-walk", "%s, %s: error %v, the first item is canonical: %v", desc(), rd.name, err, okFirst)
		}
		if err == nil {
			if left() != len(rest) {
				c.Fail("rlp-walk", "%s, %s: %d bytes left, want %d", desc(), rd.name, left(), len(rest))
			}
			if !bytes.Equal(e, b[:len(b)-len(rest)]) {
				c.Fail("rlp-walk", "%s, %s: read as %x", desc(), rd.name, e)
			}
		}
		c.Evals.Add(1)
	}
	// raw splitting
	k, st, en, ok := refSplit(b)
	rk, content, rrest, err := rlp.Split(b)
	if (err == nil) != ok {
		c.Fail("rlp-split", "%s: Split error %v, want ok %v", desc(), err, ok)
	}
	if err == nil && (int(rk) != k || !bytes.Equal(content, b[st:en]) || !bytes.Equal(rrest, b[en:])) {
		c.Fail("rlp-split", "%s: Split = %v,%x,%x", desc(), rk, content, rrest)
	}
	sc, srest, err := rlp.SplitString(b)
	if (err == nil) != (ok && k < 2) || err == nil && (!bytes.Equal(sc, b[st:en]) || !bytes.Equal(srest, b[en:])) || err != nil && !bytes.Equal(srest, b) {
		c.Fail("rlp-split", "%s: SplitString = %x,%x,%v", desc(), sc, srest, err)
	}
	lc, lrest, err := rlp.SplitList(b)
	if (err == nil) != (ok && k == 2) || err == nil && (!bytes.Equal(lc, b[st:en]) || !bytes.Equal(lrest, b[en:])) || err != nil && !bytes.Equal(lrest, b) {
		c.Fail("rlp-split", "%s: SplitList = %x,%x,%v", desc(), lc, lrest, err)
	}
	u, urest, err := rlp.SplitUint64(b)
	wantU := ok && k < 2 && refInt(b[st:en], 8)
	if (err == nil) != wantU || err == nil && (new(big.Int).SetBytes(b[st:en]).Cmp(new(big.Int).SetUint64(u)) != 0 || !bytes.Equal(urest, b[en:])) || err != nil && !bytes.Equal(urest, b) {
		c.Fail("rlp-split", "%s: SplitUint64 = %d,%x,%v", desc(), u, urest, err)
	}
	// counting and iterating: a sequence of items, canonical at their own level
	n, cok := 0, true
	var ends []int
	for p := 0; p < len(b); n++ {
		_, _, e, ok := refSplit(b[p:])
		if !ok {
			cok = false
			break
		}
		p += e
		ends = append(ends, p)
	}
	cn, err := rlp.CountValues(b)
	if (err == nil) != cok || err == nil && cn != n {
		c.Fail("rlp-count", "%s: CountValues = %d,%v, want %d,%v", desc(), cn, err, n, cok)
	}
	iter, err := rlp.NewListIterator(b)
	if (err == nil) != (ok && k == 2) {
		c.Fail("rlp-iterator", "%s: NewListIterator: %v", desc(), err)
	}
	if err == nil {
		cont := b[st:en]
		var p, steps int
		bad := false
		for iter.Next() {
			if steps++; steps > len(cont)+2 {
				c.Fail("rlp-iterator", "%s: the iterator does not end", desc())
			}
			_, _, e, ok := refSplit(cont[p:])
			if iter.Err() != nil {
				if ok {
					c.Fail("rlp-iterator", "%s: iterator error %v at %d", desc(), iter.Err(), p)
				}
				bad = true
				break
			}
			if !ok || !bytes.Equal(iter.Value(), cont[p:p+e]) {
				c.Fail("rlp-iterator", "%s: iterator value %x at %d", desc(), iter.Value(), p)
			}
			p += e
		}
		if iter.Err() != nil {
			if _, _, _, ok := refSplit(cont[p:]); ok || p == len(cont) {
				c.Fail("rlp-iterator", "%s: iterator error %v at %d", desc(), iter.Err(), p)
			}
			bad = true
		}
		if !bad && p != len(cont) {
			c.Fail("rlp-iterator", "%s: iterator stopped at %d of %d without an error", desc(), p, len(cont))
		}
	}
	// a stream positioned inside a list: elements must be read against the list, not the input
	if full {
		for cut := 0; cut <= len(b); cut++ {
			s := rlp.NewListStream(bytes.NewReader(b), uint64(cut))
			_, err := walk(s)
			_, okc := refParseSeq(b[:cut])
			if (err == nil) != okc {
				c.Fail("rlp-liststream", "%s as a list of length %d: %v, want ok %v", desc(), cut, err, okc)
			}
			c.Evals.Add(1)
		}
	}
	return
}

func refParseSeq(b []byte) (n int, ok bool) {
	ok = true
	for len(b) > 0 && ok {
		_, b, ok = refParse(b)
		n++
	}
	return
}

type oneByteByteReader struct {
	io.Reader
	r *bytes.Reader
}

func (r oneByteByteReader) ReadByte() (byte, error) { return r.r.ReadByte() }

// eofByteReader returns the last data together with io.EOF
type eofByteReader struct{ r *bytes.Reader }

func (r eofByteReader) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	if err == nil && r.r.Len() == 0 {
		err = io.EOF
	}
	return n, err
}
func (r eofByteReader) ReadByte() (byte, error) { return r.r.ReadByte() }

// streamOps: every scalar reading operation of the stream on the same input.
func checkStreamOps(c *fw.Ctx, b []byte) {
	it, rest, ok := refParse(b)
	desc := func() string { return fmt.Sprintf("input %x", b) }
	scalar := ok && !it.list
	check := func(name string, wantOK bool, f func(s *rlp.Stream) (*big.Int, error)) {
		r := bytes.NewReader(b)
		v, err := f(rlp.NewStream(r, 0))
		if (err == nil) != wantOK {
			c.Fail("rlp-stream-op", "%s: %s: %v, want ok %v", desc(), name, err, wantOK)
		}
		if err == nil {
			if v.Cmp(new(big.Int).SetBytes(it.str)) != 0 {
				c.Fail("rlp-stream-op", "%s: %s = %v", desc(), name, v)
			}
			if r.Len() != len(rest) {
				c.Fail("rlp-stream-op", "%s: %s left %d bytes, want %d", desc(), name, r.Len(), len(rest))
			}
		}
		c.Evals.Add(1)
	}
	u := func(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
	check("Uint64", scalar && refInt(it.str, 8), func(s *rlp.Stream) (*big.Int, error) { v, e := s.Uint64(); return u(v), e })
	check("Uint", scalar && refInt(it.str, 8), func(s *rlp.Stream) (*big.Int, error) { v, e := s.Uint(); return u(v), e })
	check("Uint32", scalar && refInt(it.str, 4), func(s *rlp.Stream) (*big.Int, error) { v, e := s.Uint32(); return u(uint64(v)), e })
	check("Uint16", scalar && refInt(it.str, 2), func(s *rlp.Stream) (*big.Int, error) { v, e := s.Uint16(); return u(uint64(v)), e })
	check("Uint8", scalar && refInt(it.str, 1), func(s *rlp.Stream) (*big.Int, error) { v, e := s.Uint8(); return u(uint64(v)), e })
	check("BigInt", scalar && refInt(it.str, 1<<30), func(s *rlp.Stream) (*big.Int, error) { return s.BigInt() })
	check("ReadUint256", scalar && refInt(it.str, 32), func(s *rlp.Stream) (*big.Int, error) {
		x := new(uint256.Int)
		e := s.ReadUint256(x)
		return x.ToBig(), e
	})
	check("Bool", scalar && (len(it.str) == 0 || len(it.str) == 1 && it.str[0] == 1), func(s *rlp.Stream) (*big.Int, error) {
		v, e := s.Bool()
		if v {
			return u(1), e
		}
		return u(0), e
	})
	for n := 0; n < 4; n++ {
		n := n
		check("ReadBytes", scalar && len(it.str) == n, func(s *rlp.Stream) (*big.Int, error) {
			x := make([]byte, n)
			e := s.ReadBytes(x)
			return new(big.Int).SetBytes(x), e
		})
	}
}

func runR02(c *fw.Ctx) {
	alpha := []byte{0x00, 0x01, 0x02, 0x37, 0x38, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0xb7, 0xb8, 0xb9, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xf7, 0xf8, 0xf9, 0xff}
	small := []byte{0x00, 0x01, 0x05, 0x80, 0x81, 0x82, 0xb8, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xf8}
	maxA, maxS := c.Pick(4, 5), c.Pick(5, 6)
	gen := func(a []byte, n int, first byte, f func(b []byte)) {
		idx := make([]int, n)
		b := make([]byte, n)
		for {
			b[0] = first
			for i := 1; i < n; i++ {
				b[i] = a[idx[i]]
			}
			f(b)
			i := n - 1
			for i > 0 {
				idx[i]++
				if idx[i] < len(a) {
					break
				}
				idx[i] = 0
				i--
			}
			if i == 0 {
				return
			}
		}
	}
	checkRlpInput(c, nil, true)
	checkRlpInput(c, []byte{}, true)
	run := func(a []byte, n, sub int, s *fw.Slot) {
		first := a[sub%len(a)]
		gen(a, n, first, func(b []byte) {
			if c.Expired() {
				return
			}
			s.Begin(func() string { return fmt.Sprintf("input %x", b) })
			if checkRlpInput(c, b, n <= 3) {
				c.Nontriv.Add(1)
			}
			checkStreamOps(c, b)
		})
	}
	for n := 1; n <= maxA; n++ {
		n := n
		c.Parallel(len(alpha), func(i int, s *fw.Slot) { run(alpha, n, i, s) })
	}
	for n := maxA + 1; n <= maxS; n++ {
		n := n
		c.Parallel(len(small)*len(small), func(i int, s *fw.Slot) {
			// the first two symbols are fixed per job
			x, y := small[i/len(small)], small[i%len(small)]
			idx := 0
			gen(small, n-1, y, func(b []byte) {
				if c.Expired() {
					return
				}
				bb := append([]byte{x}, b...)
				s.Begin(func() string { return fmt.Sprintf("input %x", bb) })
				if checkRlpInput(c, bb, false) {
					c.Nontriv.Add(1)
				}
				idx++
			})
		})
	}
	// every two-byte input
	c.Parallel(256, func(i int, s *fw.Slot) {
		for j := 0; j < 256; j++ {
			b := []byte{byte(i), byte(j)}
			s.Begin(func() string { return fmt.Sprintf("input %x", b) })
			checkRlpInput(c, b[:1], true)
			checkRlpInput(c, b, true)
			checkStreamOps(c, b)
		}
	})
	// long inputs: every size around the header boundaries, every way to write the header (right,
	// long form, leading zeros, wrong length), truncated and extended, alone and inside lists
	sizes := []int{0, 1, 2, 8, 9, 31, 32, 33, 54, 55, 56, 57, 254, 255, 256, 257, 1000, 65534, 65535, 65536, 65537}
	c.Parallel(len(sizes), func(i int, s *fw.Slot) {
		n := sizes[i]
		for _, fill := range []byte{0x00, 0x01, 0x7f, 0x80, 0xff} {
			body := bytes.Repeat([]byte{fill}, n)
			for _, list := range []bool{false, true} {
				smallTag, largeTag := byte(0x80), byte(0xB7)
				if list {
					smallTag, largeTag = 0xC0, 0xF7
				}
				var heads [][]byte
				for _, d := range []int{-1, 0, 1} {
					m := n + d
					if m < 0 {
						continue
					}
					if m < 56 {
						heads = append(heads, []byte{smallTag + byte(m)})
					}
					for ll := 1; ll <= 8; ll++ {
						var lb [8]byte
						binary.BigEndian.PutUint64(lb[:], uint64(m))
						if ll < 8 && m>>(8*ll) != 0 {
							continue
						}
						heads = append(heads, append([]byte{largeTag + byte(ll)}, lb[8-ll:]...))
					}
				}
				// sizes which overflow when added to something
				for _, m := range []uint64{1 << 62, 1 << 63, ^uint64(0), ^uint64(0) - 8, ^uint64(0) - uint64(n)} {
					var lb [8]byte
					binary.BigEndian.PutUint64(lb[:], m)
					heads = append(heads, append([]byte{largeTag + 8}, lb[:]...))
				}
				for _, h := range heads {
					in := append(append([]byte{}, h...), body...)
					for _, w := range []int{0, 1, 2, 3} {
						x := in
						switch w {
						case 1: // in a list of exactly this
							x = refList(in)
						case 2: // in a list which ends one byte too early
							if len(in) == 0 {
								continue
							}
							x = append(refHead(0xC0, 0xF7, len(in)-1), in...)
						case 3:
							x = append(append([]byte{}, in...), 0x01)
						}
						s.Begin(func() string { return fmt.Sprintf("header %x before %d bytes %x, way %d", h, n, fill, w) })
						if checkRlpInput(c, x, false) {
							c.Nontriv.Add(1)
						}
						checkStreamOps(c, x)
					}
				}
				if c.Expired() {
					return
				}
			}
		}
	})
	c.Extra("target_types", len(rlpTypes))
	c.Sample(fmt.Sprintf("%x into %v", []byte{0xc2, 0x81, 0x80}, rlpTypes[30]))
}

// ---------------------------------------------------------------------------------------------
// R01

func patBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + 1)
	}
	return b
}

// rvals lists values of a type; small bounds how many for use inside other types.
func rvals(t reflect.Type, small bool, depth int) []reflect.Value {
	var out []reflect.Value
	add := func(x interface{}) { out = append(out, reflect.ValueOf(x).Convert(t)) }
	addV := func(v reflect.Value) { out = append(out, v) }
	bigs := []string{"0", "1", "127", "128", "255", "256", "18446744073709551615", "18446744073709551616"}
	for _, n := range []uint{71, 72, 127, 128, 191, 192, 247, 248, 255} {
		bigs = append(bigs, new(big.Int).Lsh(big.NewInt(1), n).String())
	}
	bigs = append(bigs, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)).String())
	if small {
		bigs = []string{"0", "200", "18446744073709551616"}
	}
	switch t {
	case tBig:
		if !small {
			for _, n := range []uint{256, 439, 440, 447, 448, 2048} {
				bigs = append(bigs, new(big.Int).Lsh(big.NewInt(1), n).String())
			}
		}
		for _, s := range bigs {
			x, _ := new(big.Int).SetString(s, 10)
			addV(reflect.ValueOf(*x))
		}
		return out
	case tU256:
		for _, s := range bigs {
			x, _ := new(big.Int).SetString(s, 10)
			u, _ := uint256.FromBig(x)
			addV(reflect.ValueOf(*u))
		}
		return out
	case tRaw:
		for _, b := range [][]byte{{0x80}, {0x05}, {0xc0}, {0xc2, 0x01, 0x02}, refStr(patBytes(60))} {
			add(rlp.RawValue(b))
		}
		return out
	case tCust:
		addV(reflect.ValueOf(custVal{}))
		addV(reflect.ValueOf(custVal{300, 1}))
		return out
	}
	switch t.Kind() {
	case reflect.Bool:
		add(true)
		add(false)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		us := []uint64{0, 1, 127, 128, 255}
		for k := uint(8); k < 64; k += 8 {
			us = append(us, 1<<k-1, 1<<k, 1<<k+1)
		}
		us = append(us, 1<<63, ^uint64(0))
		if small {
			us = []uint64{0, 1, 128, 1 << 16, ^uint64(0)}
		}
		seen := map[uint64]bool{}
		for _, u := range us {
			if t.Bits() < 64 && u>>t.Bits() != 0 {
				continue
			}
			if !seen[u] {
				seen[u] = true
				add(u)
			}
		}
	case reflect.String:
		for _, b := range byteVals(small) {
			add(string(b))
		}
	case reflect.Interface:
		// a nil interface is written as an empty list and read back as one
		addV(reflect.Zero(t))
		for _, x := range []interface{}{[]byte{}, []byte{5}, []byte{0x80}, patBytes(56), []interface{}{}, []interface{}{[]byte{1}, []interface{}{[]byte("x")}}} {
			v := reflect.New(t).Elem()
			v.Set(reflect.ValueOf(x))
			addV(v)
		}
	case reflect.Ptr:
		e := t.Elem()
		if e == tBig || e == tU256 || nilIsString(e, rtags{}) && e.Kind() != reflect.Array || e.Kind() == reflect.Slice {
			addV(reflect.Zero(t))
		}
		for _, x := range rvals(e, small, depth) {
			p := reflect.New(e)
			p.Elem().Set(x)
			addV(p)
		}
	case reflect.Slice:
		if isByteSeq(t) {
			for _, b := range byteVals(small) {
				v := reflect.MakeSlice(t, len(b), len(b))
				for i := range b {
					v.Index(i).SetUint(uint64(b[i]))
				}
				addV(v)
			}
			addV(reflect.Zero(t))
			return out
		}
		addV(reflect.Zero(t))
		addV(reflect.MakeSlice(t, 0, 0))
		if depth <= 0 {
			return out
		}
		es := rvals(t.Elem(), true, depth-1)
		for _, a := range es {
			addV(reflect.Append(reflect.Zero(t), a))
			for i, b := range es {
				if small && i > 2 {
					break
				}
				addV(reflect.Append(reflect.Zero(t), a, b))
			}
		}
		if !small {
			// enough elements to reach every header boundary of the list
			e := es[len(es)-1]
			one := len(refEncode(e, rtags{}))
			for _, target := range []int{54, 55, 56, 57, 255, 256, 257, 65535, 65536} {
				for d := -1; d <= 1; d++ {
					n := target/one + d
					if n > 0 {
						v := reflect.MakeSlice(t, n, n)
						for i := 0; i < n; i++ {
							v.Index(i).Set(e)
						}
						addV(v)
					}
				}
			}
		}
	case reflect.Array:
		if t.Len() == 0 {
			addV(reflect.Zero(t))
			return out
		}
		var es []reflect.Value
		if isByteSeq(t) {
			for _, b := range []byte{0, 1, 0x7f, 0x80, 0xff} {
				es = append(es, reflect.ValueOf(b).Convert(t.Elem()))
			}
		} else {
			es = rvals(t.Elem(), true, depth-1)
		}
		for i, a := range es {
			v := reflect.New(t).Elem()
			for k := 0; k < t.Len(); k++ {
				v.Index(k).Set(es[(i+k)%len(es)])
			}
			addV(v)
			w := reflect.New(t).Elem()
			for k := 0; k < t.Len(); k++ {
				w.Index(k).Set(a)
			}
			addV(w)
		}
	case reflect.Struct:
		if depth < -1 {
			addV(reflect.Zero(t))
			return out
		}
		fs, ts := refFields(t)
		// the product over the fields, bounded per field
		vals := make([][]reflect.Value, len(fs))
		for i, f := range fs {
			ft := t.Field(f).Type
			vs := rvals(ft, true, depth-1)
			if ts[i].nilOK {
				// an empty value of the kind which does not stand for nil is refused by design
				var keep []reflect.Value
				for _, x := range vs {
					e := refEncode(x, rtags{})
					if !x.IsNil() && len(e) == 1 && (e[0] == 0x80) != nilIsString(ft.Elem(), ts[i]) && (e[0] == 0x80 || e[0] == 0xC0) {
						continue
					}
					keep = append(keep, x)
				}
				vs = keep
			}
			if ts[i].nilOK || ft.Kind() == reflect.Ptr && ts[i].optional {
				vs = append([]reflect.Value{reflect.Zero(ft)}, vs...)
			}
			max := 6
			if len(fs) > 3 {
				max = 4
			}
			if small {
				max = 2
			}
			if len(vs) > max {
				vs = append(vs[:max-1:max-1], vs[len(vs)-1])
			}
			vals[i] = vs
		}
		idx := make([]int, len(fs))
		for {
			v := reflect.New(t).Elem()
			for i, f := range fs {
				v.Field(f).Set(vals[i][idx[i]])
			}
			addV(v)
			i := len(fs) - 1
			for i >= 0 {
				idx[i]++
				if idx[i] < len(vals[i]) {
					break
				}
				idx[i] = 0
				i--
			}
			if i < 0 {
				break
			}
		}
	default:
		panic("no values for " + t.String())
	}
	return out
}

func byteVals(small bool) [][]byte {
	bs := [][]byte{{}, {0}, {1}, {0x7f}, {0x80}, {0xff}, {0, 0}, {1, 2}}
	sizes := []int{54, 55, 56, 57, 254, 255, 256, 257, 65534, 65535, 65536, 65537}
	if small {
		bs = [][]byte{{}, {0}, {0x80}, {1, 2}}
		sizes = []int{55, 56}
	}
	for _, n := range sizes {
		bs = append(bs, patBytes(n))
	}
	return bs
}

// chunkReader reads from r in chunks of n bytes with a fresh buffer each time
func readChunks(r io.Reader, n int) ([]byte, error) {
	var out []byte
	buf := make([]byte, n)
	for {
		k, err := r.Read(buf)
		out = append(out, buf[:k]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

// failWriter fails the n-th write
type failWriter struct {
	n   int
	out []byte
	hit bool
}

func (w *failWriter) Write(b []byte) (int, error) {
	if w.n == 0 {
		w.n--
		w.hit = true
		return 0, errInjected
	}
	w.n--
	w.out = append(w.out, b...)
	return len(b), nil
}

func runR01(c *fw.Ctx) {
	c.Parallel(len(rlpTypes), func(ti int, s *fw.Slot) {
		t := rlpTypes[ti]
		vs := rvals(t, false, c.Pick(2, 3))
		for _, v := range vs {
			if c.Expired() {
				return
			}
			v := v
			desc := func() string {
				d := dump(v, rtags{})
				if len(d) > 200 {
					d = d[:200] + "..."
				}
				return fmt.Sprintf("%v value %s", t, d)
			}
			s.Begin(desc)
			p := reflect.New(t)
			p.Elem().Set(v)
			want := refEncode(v, rtags{})
			check := func(name string, got []byte, err error) {
				if err != nil || !bytes.Equal(got, want) {
					g := got
					if len(g) > 100 {
						g = g[:100]
					}
					c.Fail("rlp-encode", "%s: %s gives %x.. (%d bytes) %v, want %d bytes", desc(), name, g, len(got), err, len(want))
				}
			}
			got, err := rlp.EncodeToBytes(p.Interface())
			check("EncodeToBytes of a pointer", got, err)
			if t.Kind() != reflect.Interface && !strings.Contains(t.String(), "cust") && !strings.Contains(t.String(), "rCust") {
				got, err = rlp.EncodeToBytes(v.Interface())
				check("EncodeToBytes of the value", got, err)
			}
			var w bytes.Buffer
			err = rlp.Encode(&w, p.Interface())
			check("Encode", w.Bytes(), err)
			chunks := []int{1, 2, 3, 7, 64, 1 << 17}
			if len(want) > 2000 {
				chunks = []int{999, 1 << 17}
			}
			for _, n := range chunks {
				size, r, err := rlp.EncodeToReader(p.Interface())
				if err != nil || size != len(want) {
					c.Fail("rlp-encode", "%s: EncodeToReader size %d %v, want %d", desc(), size, err, len(want))
				}
				// something else is encoded while the reader is still being read
				rlp.EncodeToBytes([]uint{1, 2, 3})
				got, err := readChunks(r, n)
				check(fmt.Sprintf("EncodeToReader read by %d", n), got, err)
				if k, err := r.Read(make([]byte, 1)); k != 0 || err != io.EOF {
					c.Fail("rlp-encode", "%s: read after the end: %d %v", desc(), k, err)
				}
			}
			// through an incremental buffer, alone and inside a list of its own
			eb := rlp.NewEncoderBuffer(nil)
			err = rlp.Encode(eb, p.Interface())
			check("Encode into an EncoderBuffer", eb.ToBytes(), err)
			pre := []byte{9, 9}
			if a := eb.AppendToBytes(pre[:1:1]); a[0] != 9 || !bytes.Equal(a[1:], want) {
				c.Fail("rlp-encode", "%s: AppendToBytes", desc())
			}
			eb.Reset(nil)
			l := eb.List()
			eb.WriteUint64(7)
			err = rlp.Encode(&eb, p.Interface())
			eb.ListEnd(l)
			if wl := refList(append([]byte{7}, want...)); err != nil || !bytes.Equal(eb.ToBytes(), wl) {
				c.Fail("rlp-encode", "%s: inside a list of an EncoderBuffer: %v", desc(), err)
			}
			eb.Flush()
			// failing writers: an error, never a wrong success
			for n := 0; n < 3; n++ {
				fw := &failWriter{n: n}
				err := rlp.Encode(fw, p.Interface())
				if fw.hit != (err != nil) {
					c.Fail("rlp-encode-error", "%s: write %d failing: error %v", desc(), n, err)
				}
				if err == nil && !bytes.Equal(fw.out, want) {
					c.Fail("rlp-encode", "%s: Encode wrote something else", desc())
				}
			}
			// decoding: into a fresh value, into one that holds something else, from a stream
			wantDump := dump(v, rtags{})
			dec := func(name string, p2 reflect.Value, err error, left int, wantLeft int) {
				if err != nil {
					c.Fail("rlp-roundtrip", "%s: %s: %v", desc(), name, err)
				}
				if d := dump(p2.Elem(), rtags{}); d != wantDump {
					if len(d) > 300 {
						d = d[:300]
					}
					c.Fail("rlp-roundtrip", "%s: %s gives %s", desc(), name, d)
				}
				if left != wantLeft {
					c.Fail("rlp-roundtrip", "%s: %s left %d bytes, want %d", desc(), name, left, wantLeft)
				}
				c.Evals.Add(1)
			}
			p2 := reflect.New(t)
			err = rlp.DecodeBytes(want, p2.Interface())
			dec("DecodeBytes", p2, err, 0, 0)
			in := append(append([]byte{}, want...), 0x01, 0x02)
			r := bytes.NewReader(in)
			p3 := reflect.New(t)
			err = rlp.Decode(r, p3.Interface())
			dec("Decode followed by other data", p3, err, r.Len(), 2)
			if err := rlp.DecodeBytes(in, reflect.New(t).Interface()); err == nil {
				c.Fail("rlp-roundtrip", "%s: DecodeBytes accepted trailing data", desc())
			}
			p4 := reflect.New(t)
			err = rlp.Decode(iotest.OneByteReader(bytes.NewReader(want)), p4.Interface())
			dec("Decode from a one byte reader", p4, err, 0, 0)
			if len(want) < 300 {
				// a decoded value must not depend on what the target held before, nor share memory with the input
				fresh, err := rlp.EncodeToBytes(p2.Interface())
				if err != nil {
					c.Fail("rlp-roundtrip", "%s: the decoded value does not encode: %v", desc(), err)
				}
				stride := 1 + len(vs)/c.Pick(12, 60)
				for oi := 0; oi < len(vs); oi += stride {
					o := vs[oi]
					p5 := reflect.New(t)
					if e, err := rlp.EncodeToBytes(ptrTo(o)); err != nil || len(e) > 300 || rlp.DecodeBytes(e, p5.Interface()) != nil {
						continue
					}
					buf := append([]byte{}, want...)
					err = rlp.DecodeBytes(buf, p5.Interface())
					scribble(buf)
					dec("DecodeBytes over "+dump(o, rtags{}), p5, err, 0, 0)
					if e5, err := rlp.EncodeToBytes(p5.Interface()); err != nil || !bytes.Equal(e5, fresh) {
						c.Fail("rlp-roundtrip", "%s: decoded over %s it encodes to %x (%v), decoded into a new value to %x", desc(), dump(o, rtags{}), e5, err, fresh)
					}
				}
			}
			c.Nontriv.Add(1)
		}
	})
	// size helpers
	for _, b := range byteVals(false) {
		want := uint64(len(refStr(b)))
		if rlp.BytesSize(b) != want || rlp.StringSize(string(b)) != want {
			c.Fail("rlp-size", "BytesSize/StringSize of %d bytes: %d, %d, want %d", len(b), rlp.BytesSize(b), rlp.StringSize(string(b)), want)
		}
		if rlp.ListSize(uint64(len(b))) != uint64(len(refList(b))) {
			c.Fail("rlp-size", "ListSize(%d)", len(b))
		}
		c.Evals.Add(1)
	}
	for k := uint(0); k < 64; k++ {
		for _, d := range []int{-1, 0, 1} {
			u := uint64(1)<<k + uint64(d)
			want := refStr(new(big.Int).SetUint64(u).Bytes())
			if rlp.IntSize(u) != len(want) {
				c.Fail("rlp-size", "IntSize(%d) = %d", u, rlp.IntSize(u))
			}
			if got := rlp.AppendUint64([]byte{7}, u); !bytes.Equal(got, append([]byte{7}, want...)) {
				c.Fail("rlp-append", "AppendUint64(%d) = %x", u, got)
			}
			eb := rlp.NewEncoderBuffer(nil)
			eb.WriteUint64(u)
			if !bytes.Equal(eb.ToBytes(), want) {
				c.Fail("rlp-encode", "WriteUint64(%d) = %x", u, eb.ToBytes())
			}
			c.Evals.Add(1)
		}
	}
	runEncPrograms(c)
	// errors leave nothing behind: a failing encoding between two good ones
	neg := big.NewInt(-1)
	for _, bad := range []interface{}{neg, []*big.Int{big.NewInt(1), neg}, struct{ A, B *big.Int }{big.NewInt(5), neg}, []interface{}{uint(1), []interface{}{neg}}, []interface{}{uint(3), int(1)}} {
		for i := 0; i < 3; i++ {
			if b, err := rlp.EncodeToBytes(bad); err == nil {
				c.Fail("rlp-encode-error", "encoding %v succeeded: %x", bad, b)
			}
			if _, _, err := rlp.EncodeToReader(bad); err == nil {
				c.Fail("rlp-encode-error", "EncodeToReader of %v succeeded", bad)
			}
			var w bytes.Buffer
			if err := rlp.Encode(&w, bad); err == nil || w.Len() > 0 {
				c.Fail("rlp-encode-error", "Encode of %v: %v, wrote %x", bad, err, w.Bytes())
			}
			good, err := rlp.EncodeToBytes([]uint{1, 300})
			if err != nil || !bytes.Equal(good, []byte{0xc4, 0x01, 0x82, 0x01, 0x2c}) {
				c.Fail("rlp-encode-error", "after a failing encoding: %x %v", good, err)
			}
			c.Evals.Add(1)
		}
	}
	c.Extra("types", len(rlpTypes))
	c.Sample("rNil{A:nil,B:&[]uint{},C:&{1,2},...}")
}

func ptrTo(v reflect.Value) interface{} {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p.Interface()
}

// runEncPrograms: every program of EncoderBuffer calls up to a length, with nested lists.
func runEncPrograms(c *fw.Ctx) {
	type step struct {
		name string
		do   func(rlp.EncoderBuffer)
		enc  []byte
	}
	u256, _ := uint256.FromBig(new(big.Int).Lsh(big.NewInt(1), 100))
	steps := []step{
		{"uint0", func(e rlp.EncoderBuffer) { e.WriteUint64(0) }, []byte{0x80}},
		{"uint300", func(e rlp.EncoderBuffer) { e.WriteUint64(300) }, []byte{0x82, 1, 0x2c}},
		{"true", func(e rlp.EncoderBuffer) { e.WriteBool(true) }, []byte{1}},
		{"str54", func(e rlp.EncoderBuffer) { e.WriteString(string(patBytes(54))) }, refStr(patBytes(54))},
		{"bytes256", func(e rlp.EncoderBuffer) { e.WriteBytes(patBytes(256)) }, refStr(patBytes(256))},
		{"big", func(e rlp.EncoderBuffer) { e.WriteBigInt(new(big.Int).Lsh(big.NewInt(1), 64)) }, refStr(new(big.Int).Lsh(big.NewInt(1), 64).Bytes())},
		{"u256", func(e rlp.EncoderBuffer) { e.WriteUint256(u256) }, refStr(u256.Bytes())},
		{"raw", func(e rlp.EncoderBuffer) { e.Write([]byte{0xc1, 0x05}) }, []byte{0xc1, 0x05}},
		{"Encode", func(e rlp.EncoderBuffer) { rlp.Encode(e, []uint{1, 2}) }, []byte{0xc2, 1, 2}},
		{"derived", func(e rlp.EncoderBuffer) {
			d := rlp.NewEncoderBuffer(e)
			l := d.List()
			d.WriteUint64(4)
			d.ListEnd(l)
			d.Flush()
		}, []byte{0xc1, 4}},
	}
	open, close := len(steps), len(steps)+1
	n := c.Pick(5, 6)
	c.Parallel(len(steps)+1, func(first int, s *fw.Slot) {
		for d := 1; d <= n; d++ {
			sequences(len(steps)+2, d, first, func(idx []int) bool {
				// the reference: a stack of contents
				depth := 0
				for _, i := range idx {
					if i == open {
						depth++
					} else if i == close {
						if depth--; depth < 0 {
							return true
						}
					}
				}
				if depth != 0 {
					return true
				}
				desc := func() string {
					var sb strings.Builder
					for _, i := range idx {
						switch i {
						case open:
							sb.WriteString("( ")
						case close:
							sb.WriteString(") ")
						default:
							sb.WriteString(steps[i].name + " ")
						}
					}
					return sb.String()
				}
				s.Begin(desc)
				stack := [][]byte{nil}
				var out bytes.Buffer
				e := rlp.NewEncoderBuffer(&out)
				var ls []int
				for _, i := range idx {
					top := len(stack) - 1
					switch i {
					case open:
						stack = append(stack, nil)
						ls = append(ls, e.List())
					case close:
						in := stack[top]
						stack = stack[:top]
						stack[top-1] = append(stack[top-1], refList(in)...)
						e.ListEnd(ls[len(ls)-1])
						ls = ls[:len(ls)-1]
					default:
						stack[top] = append(stack[top], steps[i].enc...)
						steps[i].do(e)
					}
				}
				want := stack[0]
				if got := e.ToBytes(); !bytes.Equal(got, want) {
					c.Fail("rlp-encbuffer", "%s: ToBytes %x, want %x", desc(), got, want)
				}
				if got := e.AppendToBytes([]byte("x")); !bytes.Equal(got[1:], want) {
					c.Fail("rlp-encbuffer", "%s: AppendToBytes %x", desc(), got)
				}
				if err := e.Flush(); err != nil || !bytes.Equal(out.Bytes(), want) {
					c.Fail("rlp-encbuffer", "%s: Flush %v wrote %x, want %x", desc(), err, out.Bytes(), want)
				}
				c.Evals.Add(1)
				c.Nontriv.Add(1)
				return !c.Expired()
			})
		}
	})
}

func init() {
	fw.Register(fw.Check{ID: "R01", Level: fw.Exploration, Run: runR01,
		Rule: "every value of the enumerated universe (all header boundaries, products over struct fields, nested lists) for 68 types, through every encoding entry point against an independent canonical encoder and decoded back into fresh and used targets; every program of EncoderBuffer calls up to the length"})
	fw.Register(fw.Check{ID: "R02", Level: fw.Exploration, Run: runR02,
		Rule: "every byte string up to the length over alphabets holding every header class boundary, every two-byte string, and long inputs with every header variant, into 68 target types and through every reading interface, against an independent canonical parser; non-trivial: accepted by at least one type"})
}
