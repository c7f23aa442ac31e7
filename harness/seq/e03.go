package seq

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/abi"

	"verif/harness/fw"
)

// hashed says that an indexed argument of the type is stored as a hash.
func (t *at) hashed() bool { return t.k >= aBytes }

// topicOf is what the EVM log has as the topic of an indexed argument.
func topicOf(t *at, v av) common.Hash {
	switch t.k {
	case aBytes:
		return bytesToHash(refHash(v.([]byte)))
	case aString:
		return bytesToHash(refHash([]byte(v.(string))))
	}
	if t.hashed() {
		// arrays and structs: the hash of an encoding without lengths; any 32 bytes will do
		return bytesToHash(refHash(refAbiSeq([]*at{t}, []av{v})))
	}
	return bytesToHash(refAbi(t, v))
}

type evShape struct {
	ts      []*at
	indexed []bool
}

func (e evShape) String() string {
	s := make([]string, len(e.ts))
	for i, t := range e.ts {
		s[i] = t.sig()
		if e.indexed[i] {
			s[i] += " indexed"
		}
	}
	return "E(" + strings.Join(s, ", ") + ")"
}

// seen is the type an argument is handed out as: hashes for hashed kinds.
func (e evShape) seen() []*at {
	r := append([]*at{}, e.ts...)
	for i, t := range r {
		if e.indexed[i] && t.hashed() {
			r[i] = nil
		}
	}
	return r
}

func checkEvent(c *fw.Ctx, e evShape) {
	in := []any{}
	for i, t := range e.ts {
		in = append(in, t.jsonArg(fieldName(i), e.indexed[i]))
	}
	decoy := []any{uintT(8).jsonArg("a", true), uintT(8).jsonArg("b_c", true), uintT(8).jsonArg("_d", true), uintT(8).jsonArg("eF", false)}
	js := mustJSON([]any{
		map[string]any{"type": "event", "name": "D", "inputs": decoy},
		map[string]any{"type": "event", "name": "E", "inputs": in},
		map[string]any{"type": "event", "name": "E", "inputs": decoy},
	})
	a, err := abi.JSON(strings.NewReader(js))
	if err != nil {
		c.Fail("event-declare", "declaration %s refused: %v", js, err)
	}
	id := bytesToHash(refHash([]byte("E" + sigs(e.ts))))
	ev, err := a.EventByID(id)
	if err != nil || ev.Name != "E" || ev.ID != id || a.Events["E"].ID != id {
		c.Fail("event-id", "%s: EventByID(%x) gives %v, %v", e, id[:], ev, err)
	}
	var idxT, datT []*at
	var idxArgs abi.Arguments
	for i, t := range e.ts {
		if e.indexed[i] {
			idxT = append(idxT, t)
			idxArgs = append(idxArgs, ev.Inputs[i])
		} else {
			datT = append(datT, t)
		}
	}
	for _, vs := range vectors(e.ts, 6) {
		vs := vs
		c.Evals.Add(1)
		if len(idxT) > 0 {
			c.Nontriv.Add(1)
		}
		fail := func(f string, x ...any) {
			c.Fail("event", "event %s, values %s: %s", e, avStr([]any(vs)), fmt.Sprintf(f, x...))
		}
		topics := []common.Hash{id}
		var datV []av
		want := make([]interface{}, len(vs)) // as read: av, or common.Hash
		for i, t := range e.ts {
			want[i] = vs[i]
			if e.indexed[i] {
				h := topicOf(t, vs[i])
				topics = append(topics, h)
				if t.hashed() {
					want[i] = h
				}
			} else {
				datV = append(datV, vs[i])
			}
		}
		data := refAbiSeq(datT, datV)
		same := func(what string, got []interface{}, err error) {
			if err != nil {
				fail("%s of topics %x data %x: %v", what, topics, data, err)
			}
			for i, t := range e.ts {
				ok := false
				if h, isHash := want[i].(common.Hash); isHash {
					ok = i < len(got) && reflect.DeepEqual(got[i], h)
				} else if i < len(got) {
					var v av
					if v, ok = t.fromGo(reflect.ValueOf(got[i]), true); ok {
						ok = avEq(v, vs[i])
					}
				}
				if !ok {
					fail("%s of topics %x data %x: argument %d is wrong in %v", what, topics, data, i, got)
				}
			}
		}
		if p := fw.Try(func() {
			if b, err := a.PackEventArgs("E", goArgs(datT, datV)...); len(datT) > 0 && (err != nil || !bytes.Equal(b, data)) {
				fail("PackEventArgs gives %x, %v; want %x", b, err, data)
			}
			// topics from values, and back
			var query [][]interface{}
			var qt []common.Hash
			var qv []av
			var qa abi.Arguments
			n := 0
			for i, t := range e.ts {
				if !e.indexed[i] {
					continue
				}
				if t.k <= aFixed || t.k == aBytes || t.k == aString {
					query = append(query, []interface{}{t.toGo(vs[i]).Interface()})
					qt = append(qt, topics[1+n])
					qv = append(qv, want[i])
					qa = append(qa, idxArgs[n])
				}
				n++
			}
			mt, err := abi.MakeTopics(query...)
			if err != nil || len(mt) != len(qt) {
				fail("MakeTopics(%v): %v, %v", query, mt, err)
			}
			for i := range qt {
				if len(mt[i]) != 1 || mt[i][0] != qt[i] {
					fail("MakeTopics(%v) gives %x, want %x", query[i], mt[i], qt[i])
				}
			}
			parse := func(what string, m map[string]interface{}, args abi.Arguments, wants []av, err error) {
				if err != nil || len(m) != len(args) {
					fail("%s of %x: %v, %v", what, topics[1:], m, err)
				}
				for i, arg := range args {
					got := m[arg.Name]
					if h, ok := wants[i].(common.Hash); ok {
						if got != h {
							fail("%s of %x: %v", what, topics[1:], m)
						}
						continue
					}
					k := 0
					for fieldName(k) != arg.Name {
						k++
					}
					if v, ok := e.ts[k].fromGo(reflect.ValueOf(got), true); !ok || !avEq(v, wants[i]) {
						fail("%s of %x: %v", what, topics[1:], m)
					}
				}
			}
			m := map[string]interface{}{}
			err = abi.ParseTopicsIntoMap(m, qa, qt)
			parse("ParseTopicsIntoMap", m, qa, qv, err)
			fs := []reflect.StructField{}
			for i, t := range e.ts {
				ft := t.goType()
				if _, ok := want[i].(common.Hash); ok {
					ft = reflect.TypeOf(common.Hash{})
				}
				fs = append(fs, reflect.StructField{Name: goField(i), Type: ft})
			}
			st := reflect.New(reflect.StructOf(fs))
			err = abi.ParseTopics(st.Interface(), qa, qt)
			m = map[string]interface{}{}
			for _, arg := range qa {
				for k := range e.ts {
					if fieldName(k) == arg.Name {
						m[arg.Name] = st.Elem().Field(k).Interface()
					}
				}
			}
			parse("ParseTopics", m, qa, qv, err)
			if len(qt) > 0 {
				if abi.ParseTopicsIntoMap(map[string]interface{}{}, qa, qt[1:]) == nil || abi.ParseTopicsIntoMap(map[string]interface{}{}, qa, append(qt[:len(qt):len(qt)], id)) == nil {
					fail("ParseTopicsIntoMap accepts a topic too few or too many")
				}
			}
			// the log
			if len(e.ts) > 1 {
				st = reflect.New(reflect.StructOf(fs))
				err = a.UnpackEvent(st.Interface(), topics, append([]byte{}, data...))
				l := []interface{}{}
				for i := range e.ts {
					l = append(l, st.Elem().Field(i).Interface())
				}
				same("UnpackEvent into a struct", l, err)
				l = make([]interface{}, len(e.ts))
				err = a.UnpackEvent(&l, topics, append([]byte{}, data...))
				same("UnpackEvent into a list", l, err)
			} else if len(e.ts) == 1 {
				st = reflect.New(reflect.StructOf(fs))
				err = a.UnpackEvent(st.Interface(), topics, append([]byte{}, data...))
				same("UnpackEvent into a struct", []interface{}{st.Elem().Field(0).Interface()}, err)
			}
			s, err := a.EventString(topics, append([]byte{}, data...))
			if err != nil {
				fail("EventString of %x, %x: %v", topics, data, err)
			}
			wantS := "E("
			for i, t := range e.ts {
				if i > 0 {
					wantS += ", "
				}
				var x interface{} = want[i]
				if h, ok := x.(common.Hash); ok {
					x = [32]byte(h)
				} else {
					x = t.toGo(vs[i]).Interface()
				}
				rt := reflect.TypeOf(x)
				if (rt.Kind() == reflect.Slice || rt.Kind() == reflect.Array) && rt.Elem().Kind() == reflect.Uint8 {
					wantS += fmt.Sprintf("%s:0x", fieldName(i))
					for k := 0; k < reflect.ValueOf(x).Len(); k++ {
						wantS += fmt.Sprintf("%02x", reflect.ValueOf(x).Index(k).Uint())
					}
				} else if t.k < aBytes || t.k == aString {
					wantS += fmt.Sprintf("%s:%v", fieldName(i), x)
				} else {
					wantS = ""
					break
				}
			}
			if wantS != "" && s != wantS+")" {
				fail("EventString of %x, %x: %s, want %s)", topics, data, s, wantS)
			}
			// missing or wrong pieces
			refuse := func(what string, tp []common.Hash, d []byte) {
				l := make([]interface{}, len(e.ts)+1)
				var dst interface{} = &l
				if len(e.ts) < 2 {
					dst = reflect.New(reflect.StructOf(fs)).Interface()
				}
				if p := fw.Try(func() { err = a.UnpackEvent(dst, tp, d) }); p != nil || err == nil {
					fail("UnpackEvent with %s: %v, %v %v", what, l, err, p)
				}
				var s string
				if p := fw.Try(func() { s, err = a.EventString(tp, d) }); p != nil || err == nil {
					fail("EventString with %s: %v, %v %v", what, s, err, p)
				}
			}
			refuse("no topics", nil, data)
			other := append([]common.Hash{bytesToHash(refHash([]byte("E(none)")))}, topics[1:]...)
			refuse("an unknown event id", other, data)
			for n := 1; n < len(topics); n++ {
				refuse(fmt.Sprintf("only %d topics", n), topics[:n], data)
			}
			refuse("one topic too many", append(topics[:len(topics):len(topics)], id), data)
			if len(datT) > 0 {
				refuse("no data", topics, nil)
				min := 0
				for _, t := range datT {
					min += t.head()
				}
				for _, n := range []int{1, 31, min - 32, min - 1} {
					if n > 0 && n < min {
						refuse(fmt.Sprintf("only %d bytes of data", n), topics, append([]byte{}, data[:n]...))
					}
				}
			}
			n = 0
			for i, t := range e.ts {
				if !e.indexed[i] {
					continue
				}
				n++
				if t.k == aBool {
					bad := append([]common.Hash{}, topics...)
					bad[n][31] = 2
					refuse("a boolean topic of 2", bad, data)
					bad[n][31], bad[n][0] = 1, 1
					refuse("a boolean topic with junk", bad, data)
				}
			}
		}); p != nil {
			fail("panic: %v", p)
		}
	}
}

// checkMakeTopics: values MakeTopics takes give the word the ABI has for them, others are refused.
func checkMakeTopics(c *fw.Ctx) {
	var xs []*big.Int
	for _, e := range []uint{0, 1, 7, 8, 63, 64, 127, 128, 254, 255, 256, 257, 264, 300} {
		for d := int64(-1); d <= 1; d++ {
			x := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), e), big.NewInt(d))
			xs = append(xs, x, new(big.Int).Neg(x))
		}
	}
	lo := new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 255))
	for _, x := range xs {
		var got [][]common.Hash
		var err error
		c.Evals.Add(1)
		keep := new(big.Int).Set(x)
		if p := fw.Try(func() { got, err = abi.MakeTopics([]interface{}{x}) }); p != nil {
			c.Fail("topics-int", "MakeTopics of the integer %v panics: %v", x, p)
		}
		if x.Cmp(keep) != 0 {
			c.Fail("topics-int", "MakeTopics changes its argument %v to %v", keep, x)
		}
		fits := x.Cmp(two256) < 0 && x.Cmp(lo) >= 0
		if fits != (err == nil) || fits && !bytes.Equal(got[0][0][:], word(x)) {
			c.Fail("topics-int", "MakeTopics of the integer %v gives %x, %v; want %x", x, got, err, word(x))
		}
	}
	// every native integer type: the word of the number, at every bit length
	for _, t := range []reflect.Type{reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0))} {
		for e := 0; e < t.Bits(); e++ {
			for _, pat := range []uint64{1, 3, ^uint64(0), 0x8000000000000001, 0x0102030405060708, 0xf0e0d0c0b0a09080} {
				v, want := reflect.New(t).Elem(), new(big.Int)
				if pat = pat << uint(e) & (^uint64(0) >> uint(64-t.Bits())); t.Kind() >= reflect.Uint {
					v.SetUint(pat)
					want.SetUint64(pat)
				} else {
					v.SetInt(int64(pat<<uint(64-t.Bits())) >> uint(64-t.Bits()))
					want.SetInt64(v.Int())
				}
				c.Evals.Add(1)
				got, err := abi.MakeTopics([]interface{}{v.Interface()})
				if err != nil || !bytes.Equal(got[0][0][:], word(want)) {
					c.Fail("topics-int", "MakeTopics of the %v %v gives %x, %v; want %x", t, want, got, err, word(want))
				}
			}
		}
	}
	for n := 0; n < 70; n++ {
		v := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(byte(0)))).Elem()
		reflect.Copy(v, reflect.ValueOf(seqBytes(n)))
		var got [][]common.Hash
		var err error
		c.Evals.Add(1)
		if p := fw.Try(func() { got, err = abi.MakeTopics([]interface{}{v.Interface()}) }); p != nil {
			c.Fail("topics-bytes", "MakeTopics of a %d byte array panics: %v", n, p)
		}
		if (n <= 32) != (err == nil) || n <= 32 && n > 0 && !bytes.Equal(got[0][0][:], padRight(seqBytes(n))) {
			c.Fail("topics-bytes", "MakeTopics of a %d byte array gives %x, %v", n, got, err)
		}
	}
	var nb *big.Int
	for _, x := range []interface{}{nil, nb, struct{}{}, []string{}, [2]string{}, 1.5, []interface{}{}, &struct{}{}} {
		var err error
		if p := fw.Try(func() { _, err = abi.MakeTopics([]interface{}{x}) }); p != nil || err == nil {
			c.Fail("topics-foreign", "MakeTopics of %T %v: %v %v", x, x, err, p)
		}
	}
	// several rules for several positions stay apart and in order
	for n := 0; n < 4; n++ {
		var q [][]interface{}
		for i := 0; i < n; i++ {
			var r []interface{}
			for j := 0; j < (i+n)%4; j++ {
				r = append(r, uint64(16*i+j+1))
			}
			q = append(q, r)
		}
		got, err := abi.MakeTopics(q...)
		ok := err == nil && len(got) == n
		for i := 0; ok && i < n; i++ {
			ok = len(got[i]) == (i+n)%4
			for j := 0; ok && j < len(got[i]); j++ {
				ok = bytes.Equal(got[i][j][:], wordInt(16*i+j+1))
			}
		}
		if !ok {
			c.Fail("topics-rules", "MakeTopics(%v) gives %x, %v", q, got, err)
		}
	}
}

// ---- textual selectors

func refSelector(s string) bool {
	alpha := func(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }
	digit := func(b byte) bool { return b >= '0' && b <= '9' }
	p := 0
	at := func() byte {
		if p < len(s) {
			return s[p]
		}
		return 0
	}
	sym := func(b byte) bool { return b == '$' || b == '_' }
	if !alpha(at()) && !sym(at()) {
		return false
	}
	for alpha(at()) || digit(at()) || sym(at()) {
		p++
	}
	var list func() bool
	typ := func() bool {
		if at() == '(' {
			if !list() {
				return false
			}
			if strings.HasPrefix(s[p:], "[]") {
				p += 2
			}
			return true
		}
		if !alpha(at()) {
			return false
		}
		for alpha(at()) || digit(at()) {
			p++
		}
		for at() == '[' {
			p++
			for digit(at()) {
				p++
			}
			if at() != ']' {
				return false
			}
			p++
		}
		return true
	}
	list = func() bool { // at '('
		p++
		if !typ() {
			return false
		}
		for at() == ',' {
			p++
			if !typ() {
				return false
			}
		}
		if at() != ')' {
			return false
		}
		p++
		return true
	}
	if strings.HasPrefix(s[p:], "()") {
		p += 2
	} else if at() != '(' || !list() {
		return false
	}
	return p == len(s)
}

func spellArgs(as []abi.ArgumentMarshaling) string {
	r := []string{}
	for _, a := range as {
		if a.Type == "tuple" || a.Type == "tuple[]" {
			r = append(r, spellArgs(a.Components)+strings.TrimPrefix(a.Type, "tuple"))
		} else {
			r = append(r, a.Type)
		}
	}
	return "(" + strings.Join(r, ",") + ")"
}

func checkSelector(c *fw.Ctx, s string) {
	c.Evals.Add(1)
	var m abi.SelectorMarshaling
	var err error
	if p := fw.Try(func() { m, err = abi.ParseSelector(s) }); p != nil {
		c.Fail("selector", "ParseSelector(%q) panics: %v", s, p)
	}
	ok := refSelector(s)
	// "f((t)[])" with a list after it is read the same; a list that ends in () is not a tuple
	if ok != (err == nil) {
		c.Fail("selector", "ParseSelector(%q): %+v, %v; well-formed: %v", s, m, err, ok)
	}
	if ok {
		if got := m.Name + spellArgs(m.Inputs); got != s || m.Type != "function" {
			c.Fail("selector", "ParseSelector(%q) spells %s", s, got)
		}
		if strings.Count(s, "uint8") > 0 && !strings.Contains(s, "bad") {
			a, err := abi.JSON(strings.NewReader("[" + mustJSON(m) + "]"))
			if err == nil && a.Methods[m.Name].Sig != s {
				c.Fail("selector", "ParseSelector(%q) declares %s", s, a.Methods[m.Name].Sig)
			}
		}
		c.AddExtra("selectors_accepted", 1)
	}
}

func runE03(c *fw.Ctx) {
	kinds := []*at{uintT(8), intT(8), uintT(64), intT(64), uintT(256), intT(256), intT(16), uintT(128), intT(40), kindT(aBool), kindT(aAddr), fixedT(1), fixedT(4), fixedT(20), fixedT(32), kindT(aString), kindT(aBytes), sliceT(uintT(256)), arrT(uintT(256), 2), arrT(uintT(8), 3), tupleT(uintT(8), kindT(aBytes))}
	few := []*at{uintT(256), intT(8), kindT(aBool), kindT(aAddr), fixedT(4), kindT(aString), kindT(aBytes), arrT(uintT(256), 2), sliceT(uintT(8)), tupleT(uintT(8), kindT(aBool))}
	if c.Thorough {
		few = append(few, intT(256), fixedT(32), uintT(64))
	}
	var shapes []evShape
	add := func(ts ...*at) {
		for m := 0; m < 1<<len(ts); m++ {
			ix := make([]bool, len(ts))
			n := 0
			for i := range ix {
				if ix[i] = m>>i&1 == 1; ix[i] {
					n++
				}
			}
			if n <= 3 {
				shapes = append(shapes, evShape{ts, ix})
			}
		}
	}
	add()
	for _, a := range kinds {
		add(a)
		for _, b := range kinds {
			add(a, b)
		}
	}
	for _, a := range few {
		for _, b := range few {
			for _, d := range few {
				add(a, b, d)
			}
		}
	}
	four := few[:c.Pick(4, 6)]
	for _, a := range four {
		for _, b := range four {
			for _, d := range four {
				for _, e := range four {
					add(a, b, d, e)
				}
			}
		}
	}
	c.Parallel(len(shapes), func(i int, s *fw.Slot) {
		if c.Expired() {
			return
		}
		s.Begin(func() string { return shapes[i].String() })
		checkEvent(c, shapes[i])
		s.End()
	})
	c.Extra("event_shapes", len(shapes))
	checkMakeTopics(c)
	tokens := []string{"f", "(", ")", ",", "uint8", "[]", "[2]", "[", "1", " ", "$"}
	depth := c.Pick(6, 7)
	c.Parallel(len(tokens), func(i int, s *fw.Slot) {
		var rec func(p string, n int)
		rec = func(p string, n int) {
			s.Begin(func() string { return "selector " + p })
			checkSelector(c, p)
			if n < depth {
				for _, t := range tokens {
					rec(p+t, n+1)
				}
			}
		}
		rec(tokens[i], 1)
		// longer ones behind the usual beginning
		if !c.Expired() {
			rec("f(uint8"+tokens[i], 1)
			rec("f((uint8"+tokens[i], 1)
		}
		s.End()
	})
	checkSelector(c, "")
}
