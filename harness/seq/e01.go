package seq

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/abi"

	"verif/harness/fw"
)

func jsonArgs(ts []*at) []any {
	r := []any{}
	for i, t := range ts {
		r = append(r, t.jsonArg(fieldName(i), false))
	}
	return r
}

// abiFor declares a method f and an error Bad that take ts, a method g that takes nothing and
// returns ts, and a constructor that takes ts.
func abiFor(ts []*at) (abi.ABI, string, error) {
	args := jsonArgs(ts)
	js := mustJSON([]any{
		map[string]any{"type": "function", "name": "f", "inputs": args, "outputs": args},
		map[string]any{"type": "function", "name": "g", "inputs": []any{}, "outputs": args},
		map[string]any{"type": "constructor", "inputs": args},
		map[string]any{"type": "error", "name": "Bad", "inputs": args},
	})
	a, err := abi.JSON(strings.NewReader(js))
	return a, js, err
}

func readAll(ts []*at, got []interface{}) ([]any, bool) {
	if len(got) != len(ts) {
		return nil, false
	}
	r := []any{}
	for i, t := range ts {
		v, ok := t.fromGo(reflect.ValueOf(got[i]), true)
		if !ok {
			return nil, false
		}
		r = append(r, v)
	}
	return r, true
}

func goArgs(ts []*at, vs []av) []interface{} {
	r := make([]interface{}, len(ts))
	for i, t := range ts {
		r[i] = t.toGo(vs[i]).Interface()
	}
	return r
}

func vectors(ts []*at, max int) [][]av {
	n := 1
	all := make([][]av, len(ts))
	for i, t := range ts {
		all[i] = avals(t)
		if len(all[i]) > n {
			n = len(all[i])
		}
	}
	var r [][]av
	for s := 0; s < 2; s++ {
		if s == 1 && len(ts) < 2 {
			break
		}
		for j := 0; j < n && j < max; j++ {
			v := make([]av, len(ts))
			for i := range ts {
				v[i] = all[i][(j+s*i)%len(all[i])]
			}
			r = append(r, v)
		}
	}
	return r
}

func checkAbiList(c *fw.Ctx, ts []*at, max int) {
	sig := sigs(ts)
	fail := func(vs []av, f string, a ...any) {
		c.Fail("abi", "arguments %s, values %s: %s", sig, avStr([]any(vs)), fmt.Sprintf(f, a...))
	}
	a, js, err := abiFor(ts)
	if err != nil {
		c.Fail("abi-declare", "declaration %s refused: %v", js, err)
	}
	f, g := a.Methods["f"], a.Methods["g"]
	sel := refHash([]byte("f" + sig))[:4]
	if f.Sig != "f"+sig || !bytes.Equal(f.ID, sel) || g.Sig != "g()" {
		c.Fail("abi-selector", "f%s: signature %q selector %x, want %x", sig, f.Sig, f.ID, sel)
	}
	if e := a.Errors["Bad"]; e.Sig != "Bad"+sig || !bytes.Equal(e.ID[:], refHash([]byte("Bad"+sig))) {
		c.Fail("abi-selector", "Bad%s: signature %q id %x", sig, e.Sig, e.ID)
	}
	for i, t := range ts {
		if f.Inputs[i].Type.String() != t.sig() || f.Inputs[i].Type.GetType().Kind() != t.goType().Kind() {
			c.Fail("abi-type", "type %s became %s, a %s", t.sig(), f.Inputs[i].Type, f.Inputs[i].Type.GetType())
		}
	}
	for _, vs := range vectors(ts, max) {
		vs := vs
		c.Evals.Add(1)
		if len(ts) > 1 || len(ts) == 1 && ts[0].k >= aBytes {
			c.Nontriv.Add(1)
		}
		want := refAbiSeq(ts, vs)
		same := func(what string, got []interface{}, err error) {
			if err != nil {
				fail(vs, "%s of %x: %v", what, want, err)
			}
			if r, ok := readAll(ts, got); !ok || !avEq([]any(r), []any(vs)) {
				fail(vs, "%s of %x gives %v", what, want, got)
			}
		}
		if p := fw.Try(func() {
			enc := func(what string, b []byte, err error, prefix []byte) {
				if err != nil {
					fail(vs, "%s: %v", what, err)
				}
				if w := append(append([]byte{}, prefix...), want...); !bytes.Equal(b, w) {
					fail(vs, "%s gives\n%x, want\n%x", what, b, w)
				}
				// the caller owns the result
				scribble(b[:cap(b)])
			}
			for k := 0; k < 2; k++ {
				b, err := a.Pack("f", goArgs(ts, vs)...)
				enc("ABI.Pack", b, err, sel)
			}
			b, err := a.Pack("", goArgs(ts, vs)...)
			enc("ABI.Pack of the constructor", b, err, nil)
			b, err = a.PackInputWithoutID("f", goArgs(ts, vs)...)
			enc("PackInputWithoutID", b, err, nil)
			b, err = a.PackReturns("f", goArgs(ts, vs)...)
			enc("PackReturns", b, err, nil)
			b, err = f.Inputs.PackValues(goArgs(ts, vs))
			enc("PackValues", b, err, nil)
			b, err = f.Inputs.Pack(goArgs(ts, vs)...)
			enc("Arguments.Pack", b, err, nil)
			// pointers to the values are the values
			ptrs := goArgs(ts, vs)
			for i := range ptrs {
				p := reflect.New(reflect.TypeOf(ptrs[i]))
				p.Elem().Set(reflect.ValueOf(ptrs[i]))
				ptrs[i] = p.Interface()
			}
			b, err = a.Pack("f", ptrs...)
			enc("ABI.Pack of pointers", b, err, sel)

			call := append(append([]byte{}, sel...), want...)
			if m, err := a.MethodById(call); err != nil || m.Name != "f" || m.Sig != f.Sig {
				fail(vs, "MethodById(%x): %v, %v", call[:4], m, err)
			}
			in := func() []byte { return append([]byte{}, want...) }
			l, err := f.Inputs.Unpack(in())
			same("Arguments.Unpack", l, err)
			l, err = f.Inputs.UnpackValues(in())
			same("UnpackValues", l, err)
			if len(want)%32 == 0 {
				l, err = a.Unpack("f", in())
				same("ABI.Unpack", l, err)
			}
			e := a.Errors["Bad"]
			x, err := e.Unpack(append(append([]byte{}, e.ID[:4]...), want...))
			l, _ = x.([]interface{})
			same("Error.Unpack", l, err)
			intoMap := func(what string, f func(m map[string]interface{}) error) {
				m := map[string]interface{}{}
				err := f(m)
				l := make([]interface{}, len(ts))
				for i := range ts {
					l[i] = m[fieldName(i)]
				}
				if len(m) != len(ts) {
					fail(vs, "%s has %d entries: %v", what, len(m), err)
				}
				same(what, l, err)
			}
			intoMap("UnpackIntoMap", func(m map[string]interface{}) error { return f.Inputs.UnpackIntoMap(m, in()) })
			intoMap("ABI.UnpackIntoMap", func(m map[string]interface{}) error { return a.UnpackIntoMap(m, "g", in()) })
			if len(want) > 0 {
				intoMap("InputUnpack", func(m map[string]interface{}) error { return a.InputUnpack(m, "f", in()) })
				intoMap("UnpackReturnsMap", func(m map[string]interface{}) error { return a.UnpackReturnsMap(m, "g", in()) })
			}
			// into a struct, into a list of values, into a list of pointers, into a variable
			targets := func(what string, f func(v interface{}) error) {
				if len(ts) == 0 {
					if err := f(&struct{}{}); err != nil {
						fail(vs, "%s of nothing: %v", what, err)
					}
					return
				}
				st := reflect.New(tupleT(ts...).goType())
				err := f(st.Interface())
				l := make([]interface{}, len(ts))
				for i := range ts {
					l[i] = st.Elem().Field(i).Interface()
				}
				same(what+" into a struct", l, err)
				if len(ts) == 1 {
					if ts[0].k != aTuple {
						v := reflect.New(ts[0].goType())
						err := f(v.Interface())
						same(what+" into a variable", []interface{}{v.Elem().Interface()}, err)
					}
					return
				}
				l = make([]interface{}, len(ts))
				err = f(&l)
				same(what+" into a list", l, err)
				l = make([]interface{}, len(ts))
				for i, t := range ts {
					l[i] = reflect.New(t.goType()).Interface()
				}
				err = f(&l)
				for i := range l {
					l[i] = reflect.ValueOf(l[i]).Elem().Interface()
				}
				same(what+" into a list of pointers", l, err)
			}
			targets("UnpackIntoInterface", func(v interface{}) error { return f.Inputs.UnpackIntoInterface(v, in()) })
			targets("UnpackInput", func(v interface{}) error { return a.UnpackInput(v, "f", in()) })
			targets("ABI.UnpackIntoInterface", func(v interface{}) error { return a.UnpackIntoInterface(v, "g", in()) })
			targets("UnpackInputObject", func(v interface{}) error { return a.UnpackInputObject(v, "f", call) })
			if len(want) > 0 {
				targets("UnpackReturns", func(v interface{}) error { return a.UnpackReturns(v, "g", in()) })
			}
			// rendering
			if s, err := a.MethodString(call); err != nil || !strings.HasPrefix(s, "f(") {
				fail(vs, "MethodString: %q %v", s, err)
			}
			if s, err := a.ReturnsString(call[:4], in()); err != nil || !strings.HasPrefix(s, "returns (") {
				fail(vs, "ReturnsString: %q %v", s, err)
			}
			// a wrong selector, arity, or missing bytes
			var dummy struct{}
			bad := append([]byte{}, call...)
			bad[3] ^= 1
			if a.UnpackInputObject(&dummy, "f", bad) == nil || a.UnpackInputObject(&dummy, "f", call[:3]) == nil || a.UnpackInputObject(&dummy, "none", call) == nil {
				fail(vs, "a call with another selector is unpacked")
			}
			if m, err := a.MethodById(bad); err == nil {
				fail(vs, "MethodById of an unknown selector gives %v", m)
			}
			if _, err := e.Unpack(append(bad[:4:4], want...)); err == nil {
				fail(vs, "Error.Unpack accepts another selector")
			}
			if _, err := a.Pack("f", append(goArgs(ts, vs), uint8(1))...); err == nil {
				fail(vs, "one argument too many is packed")
			}
			if len(ts) > 0 {
				if _, err := a.Pack("f", goArgs(ts, vs)[1:]...); err == nil {
					fail(vs, "one argument too few is packed")
				}
			}
			if _, err := a.Pack("none", goArgs(ts, vs)...); err == nil {
				fail(vs, "an unknown method is packed")
			}
		}); p != nil {
			fail(vs, "panic: %v", p)
		}
	}
}

// foreign are Go values to offer for every type.
func foreign(thorough bool) []interface{} {
	type myU8 uint8
	type myB []byte
	type my4 [4]byte
	type myS string
	one := uint8(1)
	var nilBig *big.Int
	var nilU8 *uint8
	var nilArr *[4]byte
	pnb := &nilBig
	r := []interface{}{
		nil, nilBig, nilU8, nilArr, pnb, &one, struct{}{}, struct{ A uint8 }{1}, struct{ a uint8 }{1}, struct{ X uint8 }{1},
		struct {
			A  *big.Int
			BC []byte
		}{nil, nil}, struct {
			A  *big.Int
			BC []byte
			D  *big.Int
		}{big.NewInt(3), []byte{1}, nil},
		struct{ A interface{} }{uint8(1)}, (*struct{ A uint8 })(nil),
		int(1), uint(1), uintptr(1), float64(1), complex(1, 1), "s", []byte{}, []byte{1}, []byte(nil), myU8(1), myB{1}, my4{1}, myS("x"),
		[]interface{}{}, []interface{}{uint8(1)}, []interface{}{nil}, []string{}, []string{"a", ""}, []*big.Int{nil}, []*big.Int{}, []*big.Int{big.NewInt(1), nil}, [2]*big.Int{}, [1]*big.Int{big.NewInt(5)},
		[]*uint8{&one}, []*uint8{nil}, [1]*uint8{nil}, map[string]int{}, func() {}, make(chan int), *big.NewInt(1), []big.Int{*big.NewInt(1)},
		[]int8{1, 2}, [4]int8{}, [20]int8{}, [20]uint16{}, [20]interface{}{}, [20]struct{}{}, [20]string{}, [20]bool{}, [24]int8{}, [24]uint16{}, [32]int8{}, [32]bool{}, [32]uint16{}, [1]int8{}, [4]bool{},
		[][]byte{{1}, {2}}, [][]byte{}, [][]byte{nil}, [][2]uint8{{1, 2}}, [][3]uint8{{1, 2, 3}}, [2][2]uint8{}, [][]uint8{{1}, {1, 2}}, [][]*big.Int{{}, {nil}}, [][]*big.Int{{big.NewInt(1)}, nil}, [2][]*big.Int{},
		[]common.Address{{}}, [][20]byte{{}}, [][21]byte{{}}, [][19]byte{{}}, [][20]int8{{}}, []bool{true}, [3]bool{}, []struct{ A uint8 }{{1}}, [2]struct{ A uint8 }{}, []*common.Address{nil}, []error{nil}, []*struct{ A uint8 }{nil},
		common.Hash{}, [2]common.Hash{}, []common.Hash{{}},
	}
	for n := 0; n <= 65; n++ {
		if n < 6 || n > 17 && n < 34 || n >= 63 {
			r = append(r, reflect.New(reflect.ArrayOf(n, reflect.TypeOf(byte(0)))).Elem().Interface())
			r = append(r, reflect.New(reflect.SliceOf(reflect.ArrayOf(n, reflect.TypeOf(byte(0))))).Elem().Interface())
			s := reflect.MakeSlice(reflect.SliceOf(reflect.ArrayOf(n, reflect.TypeOf(byte(0)))), 2, 2)
			r = append(r, s.Interface())
		}
	}
	us := append(elemTypes(), wrapAll(coreTypes()[:7])...)
	for _, u := range us {
		vs := avals(u)
		r = append(r, u.toGo(vs[0]).Interface(), u.toGo(vs[1]).Interface())
	}
	if thorough {
		for _, u := range wrapAll(wrapAll(coreTypes()[:5])) {
			r = append(r, u.toGo(avals(u)[0]).Interface())
		}
	}
	return r
}

// checkForeign offers every Go value for type t: one that has no reading as a t is refused, one that
// has is packed as such or refused, and nothing panics.
func checkForeign(c *fw.Ctx, t *at, vals []interface{}) {
	a, js, err := abiFor([]*at{t})
	if err != nil {
		c.Fail("abi-declare", "declaration %s refused: %v", js, err)
	}
	args := a.Methods["f"].Inputs
	for _, v := range vals {
		c.Evals.Add(1)
		var b []byte
		var err error
		p := fw.Try(func() { b, err = args.Pack(v) })
		if p != nil {
			c.Fail("abi-foreign", "packing %T %v as %s panics: %v", v, v, t.sig(), p)
		}
		if err != nil {
			continue
		}
		r, ok := t.fromGo(reflect.ValueOf(v), false)
		if !ok {
			c.Fail("abi-foreign", "packing %T %v as %s is accepted and gives %x", v, v, t.sig(), b)
		}
		c.Nontriv.Add(1)
		if w := refAbiSeq([]*at{t}, []av{r}); !bytes.Equal(b, w) {
			c.Fail("abi-foreign", "packing %T %v as %s gives\n%x, want\n%x", v, v, t.sig(), b, w)
		}
	}
}

// checkForeignDst unpacks a t into variables of every Go type: an error or success, but never a crash.
func checkForeignDst(c *fw.Ctx, t *at, vals []interface{}) {
	a, _, _ := abiFor([]*at{t})
	want := refAbiSeq([]*at{t}, []av{avals(t)[0]})
	seen := map[reflect.Type]bool{}
	for _, v := range vals {
		d := reflect.TypeOf(v)
		if d == nil || seen[d] || strings.Contains(d.String(), "*") || d.Kind() == reflect.Struct && d.NumField() == 0 {
			continue
		}
		seen[d] = true
		c.Evals.Add(1)
		dst := reflect.New(d)
		var err error
		if p := fw.Try(func() { err = a.UnpackIntoInterface(dst.Interface(), "g", append([]byte{}, want...)) }); p != nil {
			c.Fail("abi-foreign-dst", "unpacking a %s into a %v panics: %v", t.sig(), d, p)
		}
		if d == t.goType() && t.k < aTuple {
			if r, ok := t.fromGo(dst.Elem(), true); err != nil || !ok || !avEq(r, avals(t)[0]) {
				c.Fail("abi-foreign-dst", "unpacking a %s into a %v: %v, %v", t.sig(), d, dst.Elem(), err)
			}
		}
	}
}

// checkNames declares methods and events with colliding names: each is there under a name of its own
// and found by its selector.
func checkNames(c *fw.Ctx, names []string) {
	var ds []any
	for i, n := range names {
		in := jsonArgs([]*at{uintT(8 * (i + 1))})
		ds = append(ds, map[string]any{"type": "function", "name": n, "inputs": in, "outputs": in}, map[string]any{"type": "event", "name": n, "inputs": in})
	}
	a, err := abi.JSON(strings.NewReader(mustJSON(ds)))
	if err != nil {
		c.Fail("abi-names", "names %v refused: %v", names, err)
	}
	c.Evals.Add(1)
	if len(a.Methods) != len(names) || len(a.Events) != len(names) {
		c.Fail("abi-names", "names %v: %d methods and %d events", names, len(a.Methods), len(a.Events))
	}
	for i, n := range names {
		sig := fmt.Sprintf("%s(uint%d)", n, 8*(i+1))
		h := refHash([]byte(sig))
		m, err := a.MethodById(h[:4])
		if err != nil || m.Sig != sig || m.RawName != n || a.Methods[m.Name].Sig != sig {
			c.Fail("abi-names", "names %v: %s found as %v, %v", names, sig, m, err)
		}
		if i == 0 && m.Name != n {
			c.Fail("abi-names", "names %v: the first declaration is called %s", names, m.Name)
		}
		v := big.NewInt(int64(i))
		args := goArgs([]*at{uintT(8 * (i + 1))}, []av{v})
		if b, err := a.Pack(m.Name, args...); err != nil || !bytes.Equal(b, append(append([]byte{}, h[:4]...), wordInt(i)...)) {
			c.Fail("abi-names", "names %v: Pack(%s) gives %x, %v", names, m.Name, b, err)
		}
		e, err := a.EventByID(common.BytesToHash(h))
		if err != nil || e.Sig != sig || e.RawName != n || a.Events[e.Name].Sig != sig {
			c.Fail("abi-names", "names %v: event %s found as %v, %v", names, sig, e, err)
		}
	}
}

// checkTypeString: a type string is refused or is a type that keeps to its rules.
func checkTypeString(c *fw.Ctx, s string) {
	var t abi.Type
	var err error
	c.Evals.Add(1)
	if p := fw.Try(func() {
		t, err = abi.NewType(s, "", nil)
		if err == nil {
			z := reflect.New(t.GetType()).Elem()
			args := abi.Arguments{{Name: "a", Type: t}}
			if z.Kind() == reflect.Ptr {
				z = reflect.ValueOf(big.NewInt(3))
			}
			b, err := args.Pack(z.Interface())
			if err != nil {
				return
			}
			c.Nontriv.Add(1)
			if len(b)%32 != 0 {
				c.Fail("abi-typestring", "type %q: the zero value packs to %d bytes", s, len(b))
			}
			if len(b) == 0 {
				return
			}
			l, err := args.Unpack(b)
			if err != nil {
				c.Fail("abi-typestring", "type %q: the zero value packs to %x, which does not unpack: %v", s, b, err)
			}
			if b2, err := args.Pack(l...); err != nil || !bytes.Equal(b, b2) {
				c.Fail("abi-typestring", "type %q: %v packs to %x and unpacks to %v, which packs to %x, %v", s, z.Interface(), b, l[0], b2, err)
			}
		}
	}); p != nil {
		c.Fail("abi-typestring", "type %q: panic: %v", s, p)
	}
}

func runE01(c *fw.Ctx) {
	var lists [][]*at
	elem, core := elemTypes(), coreTypes()
	l1 := wrapAll(elem)
	l2 := wrapAll(wrapAll(core))
	all := append(append(append([]*at{}, elem...), l1...), l2...)
	if c.Thorough {
		all = append(all, wrapAll(wrapAll(wrapAll(core)))...)
	} else {
		all = append(all, wrapAll(wrapAll(wrapAll([]*at{uintT(256), kindT(aString)})))...)
	}
	lists = append(lists, nil)
	for _, t := range all {
		lists = append(lists, []*at{t})
	}
	rep := append(append([]*at{}, core...), kindT(aFunc), sliceT(uintT(8)), sliceT(uintT(256)), arrT(uintT(256), 2), arrT(kindT(aString), 2), tupleT(uintT(8), kindT(aBool)), tupleT(kindT(aBytes), uintT(64)),
		sliceT(tupleT(uintT(256), fixedT(4))), sliceT(tupleT(kindT(aString))), arrT(arrT(intT(64), 2), 3), sliceT(arrT(uintT(16), 3)), arrT(sliceT(kindT(aAddr)), 2), tupleT(arrT(uintT(8), 3), tupleT(kindT(aBytes), fixedT(32))), arrT(tupleT(uintT(8), intT(256)), 2))
	for _, a := range rep {
		for _, b := range rep {
			lists = append(lists, []*at{a, b})
		}
	}
	small := []*at{uintT(8), kindT(aAddr), kindT(aBytes), kindT(aString), arrT(uintT(256), 2), sliceT(uintT(256)), arrT(kindT(aBytes), 2), tupleT(uintT(8), kindT(aBool)), tupleT(kindT(aString), uintT(8)), sliceT(tupleT(uintT(256), kindT(aBytes)))}
	if c.Thorough {
		small = rep
	}
	for _, a := range small {
		for _, b := range small {
			for _, d := range small {
				lists = append(lists, []*at{a, b, d})
			}
		}
	}
	var trunc bool
	c.Parallel(len(lists), func(i int, s *fw.Slot) {
		if trunc || c.Expired() {
			trunc = true
			return
		}
		s.Begin(func() string { return "arguments " + sigs(lists[i]) })
		checkAbiList(c, lists[i], c.Pick(6, 6))
		s.End()
	})
	c.Extra("argument_lists", len(lists))
	f := foreign(c.Thorough)
	types := append(append([]*at{}, elem...), append(wrapAll(core), wrapAll(wrapAll([]*at{uintT(8), kindT(aAddr), kindT(aBytes)}))...)...)
	c.Parallel(len(types), func(i int, s *fw.Slot) {
		if c.Expired() {
			return
		}
		s.Begin(func() string { return "foreign values for " + types[i].sig() })
		checkForeign(c, types[i], f)
		checkForeignDst(c, types[i], f)
		s.End()
	})
	c.Extra("foreign_values_x_types", len(f)*len(types))
	names := []string{"f", "f0", "f1", "f00", "g"}
	for n := 1; n <= c.Pick(4, 5); n++ {
		idx := make([]int, n)
		for {
			ns := make([]string, n)
			for i := range ns {
				ns[i] = names[idx[i]]
			}
			if p := fw.Try(func() { checkNames(c, ns) }); p != nil {
				c.Fail("abi-names", "names %v: panic %v", ns, p)
			}
			i := 0
			for i < n {
				if idx[i]++; idx[i] < len(names) {
					break
				}
				idx[i] = 0
				i++
			}
			if i == n {
				break
			}
		}
	}
	bases := []string{"", "u", "uint", "int", "bool", "address", "bytes", "string", "tuple", "function", "fixed", "hash", "ufixed", "u int8", " uint8", "uint8 "}
	sizes := []string{"", "0", "1", "7", "8", "9", "16", "20", "24", "31", "32", "33", "64", "65", "128", "255", "256", "257", "264", "512", "08", "8x", "128x18", "99999999999999999999", "-8"}
	sfx := []string{"", "[]", "[1]", "[2]", "[", "]", "[][]", "[2][]", "[][2]", "[-1]", "[1x]", "[a]", "[1", "1]", "][", "[99999999999999999999]", "[1,2]", "[]x"}
	for _, b := range bases {
		for _, z := range sizes {
			for _, x := range sfx {
				checkTypeString(c, b+z+x)
			}
		}
	}
}
