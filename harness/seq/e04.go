package seq

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/abi"

	"verif/harness/fw"
)

// An entry of a contract declaration, and what it declares.
type declEntry struct {
	kind     string // the "type" of the entry
	name     string
	ins      []declArg
	outs     []declArg
	mut      string
	constant bool
	payable  bool
	anon     bool
	bad      bool // no declaration with it is valid
}

type declArg struct {
	name    string
	typ     string // as written
	sig     string // canonical
	comps   []declArg
	indexed bool
}

func (a declArg) json() map[string]any {
	m := map[string]any{"name": a.name, "type": a.typ}
	if a.indexed {
		m["indexed"] = true
	}
	if a.comps != nil {
		var cs []any
		for _, c := range a.comps {
			cs = append(cs, c.json())
		}
		m["components"] = cs
	}
	return m
}

func (e declEntry) json() map[string]any {
	m := map[string]any{"type": e.kind}
	if e.name != "" {
		m["name"] = e.name
	}
	list := func(as []declArg) []any {
		r := []any{}
		for _, a := range as {
			r = append(r, a.json())
		}
		return r
	}
	if e.kind != "fallback" && e.kind != "receive" {
		m["inputs"] = list(e.ins)
	}
	if e.kind == "function" {
		m["outputs"] = list(e.outs)
	}
	if e.mut != "" {
		m["stateMutability"] = e.mut
	}
	if e.constant {
		m["constant"] = true
	}
	if e.payable {
		m["payable"] = true
	}
	if e.anon {
		m["anonymous"] = true
	}
	return m
}

func (e declEntry) sig() string {
	var s []string
	for _, a := range e.ins {
		s = append(s, a.sig)
	}
	return e.name + "(" + strings.Join(s, ",") + ")"
}

func declAlphabet() []declEntry {
	p := func(name, typ string, sig ...string) declArg {
		s := typ
		if len(sig) > 0 {
			s = sig[0]
		}
		return declArg{name: name, typ: typ, sig: s}
	}
	ix := func(a declArg) declArg { a.indexed = true; return a }
	tup := declArg{name: "t", typ: "tuple[2]", sig: "(uint8,string)[2]", comps: []declArg{p("x", "uint8"), p("y", "string")}}
	return []declEntry{
		{kind: "function", name: "foo"},
		{kind: "function", name: "foo", ins: []declArg{p("a", "uint256")}, mut: "nonpayable"},
		{kind: "function", name: "foo", ins: []declArg{p("a", "uint256"), p("", "string")}, mut: "pure"},
		{kind: "function", name: "foo0", ins: []declArg{p("f", "bool")}, outs: []declArg{p("", "int256")}, mut: "view"},
		{kind: "function", name: "bar", ins: []declArg{p("who", "address")}, outs: []declArg{p("ok", "bool"), p("n", "uint8")}, mut: "payable"},
		{kind: "function", name: "bar", ins: []declArg{tup}, outs: []declArg{tup}, constant: true},
		{kind: "function", name: "baz", ins: []declArg{p("b", "bytes32[]")}, payable: true},
		{kind: "event", name: "foo"},
		{kind: "event", name: "foo", ins: []declArg{ix(p("i", "uint256")), p("", "string")}},
		{kind: "event", name: "Q", ins: []declArg{p("b", "bytes32")}, anon: true},
		{kind: "error", name: "Err", ins: []declArg{p("a", "uint256"), p("", "bool")}},
		{kind: "error", name: "Bad", ins: []declArg{p("s", "string")}},
		{kind: "constructor", ins: []declArg{p("c", "uint256"), p("d", "bytes")}, mut: "payable"},
		{kind: "fallback", mut: "payable"},
		{kind: "fallback"},
		{kind: "receive", mut: "payable"},
		{kind: "receive", mut: "nonpayable", bad: true},
		{kind: "receive", bad: true},
		{kind: "library", name: "foo", bad: true},
		{kind: "function", name: "foo", ins: []declArg{p("a", "uint256[")}, bad: true},
		{kind: "function", name: "foo", outs: []declArg{p("a", "")}, bad: true},
		{kind: "function", name: "foo", ins: []declArg{p("a", "uinteger8")}, bad: true},
		{kind: "event", name: "foo", ins: []declArg{p("a", "strin")}, bad: true},
		{kind: "error", name: "Err", ins: []declArg{p("a", "bytes33")}, bad: true},
		{kind: "constructor", ins: []declArg{p("a", "mapping")}, bad: true},
	}
}

func sameArgs(got abi.Arguments, want []declArg, named bool) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d arguments, not %d", len(got), len(want))
	}
	for i, w := range want {
		g := got[i]
		if g.Type.String() != w.sig || g.Indexed != w.indexed {
			return fmt.Sprintf("argument %d is %v (indexed %v), not %s (%v)", i, g.Type, g.Indexed, w.sig, w.indexed)
		}
		if g.Name != w.name && !(named && w.name == "" && g.Name != "") {
			return fmt.Sprintf("argument %d is called %q, not %q", i, g.Name, w.name)
		}
	}
	return ""
}

func declName(used map[string]bool, raw string) string {
	n := raw
	for i := 0; used[n]; i++ {
		n = fmt.Sprintf("%s%d", raw, i)
	}
	used[n] = true
	return n
}

// sameMethod compares a method with its declaration.
func sameMethod(m abi.Method, e declEntry, name string, typ abi.FunctionType) string {
	if m.Name != name || m.RawName != e.name || m.Type != typ {
		return fmt.Sprintf("is called %q (%q), of type %d", m.Name, m.RawName, m.Type)
	}
	if typ == abi.Function {
		if m.Sig != e.sig() || !bytes.Equal(m.ID, refHash([]byte(e.sig()))[:4]) {
			return fmt.Sprintf("has signature %s and id %x", m.Sig, m.ID)
		}
	}
	if typ == abi.Function || typ == abi.Constructor {
		if s := sameArgs(m.Inputs, e.ins, false); s != "" {
			return "inputs: " + s
		}
	}
	if typ == abi.Function {
		if s := sameArgs(m.Outputs, e.outs, false); s != "" {
			return "outputs: " + s
		}
	}
	if m.IsConstant() != (e.mut == "view" || e.mut == "pure" || e.constant) {
		return fmt.Sprintf("constant: %v", m.IsConstant())
	}
	if m.IsPayable() != (e.mut == "payable" || e.payable) {
		return fmt.Sprintf("payable: %v", m.IsPayable())
	}
	if m.StateMutability != e.mut {
		return fmt.Sprintf("mutability %q", m.StateMutability)
	}
	head := map[abi.FunctionType]string{abi.Function: "function " + e.name, abi.Fallback: "fallback", abi.Receive: "receive", abi.Constructor: "constructor"}[typ]
	if s := m.String(); !strings.HasPrefix(s, head+"(") {
		return fmt.Sprintf("prints as %q", s)
	} else {
		for _, a := range append(append([]declArg{}, e.ins...), e.outs...) {
			if !strings.Contains(s, a.sig) || !strings.Contains(s, a.name) {
				return fmt.Sprintf("prints as %q", s)
			}
		}
	}
	return ""
}

func checkDecl(c *fw.Ctx, es []declEntry) {
	c.Evals.Add(1)
	var list []any
	for _, e := range es {
		list = append(list, e.json())
	}
	js, _ := json.Marshal(list)
	if list == nil {
		js = []byte("[]")
	}
	a, err := abi.JSON(bytes.NewReader(js))
	valid := true
	fb, rc := 0, 0
	for _, e := range es {
		valid = valid && !e.bad
		if e.kind == "fallback" {
			fb++
		}
		if e.kind == "receive" {
			rc++
		}
	}
	valid = valid && fb <= 1 && rc <= 1
	fail := func(f string, v ...any) { c.Fail("abi-declaration", "%s: %s", js, fmt.Sprintf(f, v...)) }
	if !valid {
		if err == nil {
			fail("accepted")
		}
		return
	}
	if err != nil {
		fail("refused: %v", err)
		return
	}
	c.Nontriv.Add(1)
	usedM, usedE := map[string]bool{}, map[string]bool{}
	errs := map[string]declEntry{}
	var cons *declEntry
	hasF, hasR := false, false
	for _, e := range es {
		e := e
		switch e.kind {
		case "function":
			n := declName(usedM, e.name)
			m, ok := a.Methods[n]
			if !ok {
				fail("no method %s", n)
				return
			}
			if s := sameMethod(m, e, n, abi.Function); s != "" {
				fail("method %s %s", n, s)
			}
			for _, tail := range []int{0, 1, 32} {
				f, err := a.MethodById(append(append([]byte{}, m.ID...), make([]byte, tail)...))
				if err != nil || f == nil || f.Sig != m.Sig {
					fail("%s is not found by its id: %v, %v", n, f, err)
				}
			}
			for l := 0; l < 4; l++ {
				if _, err := a.MethodById(m.ID[:l]); err == nil {
					fail("a method is found by %x", m.ID[:l])
				}
			}
		case "event":
			n := declName(usedE, e.name)
			v, ok := a.Events[n]
			if !ok {
				fail("no event %s", n)
				return
			}
			id := common.BytesToHash(refHash([]byte(e.sig())))
			if v.Name != n || v.RawName != e.name || v.Anonymous != e.anon || v.Sig != e.sig() || v.ID != id {
				fail("event %s is %q %q %v %s %x", n, v.Name, v.RawName, v.Anonymous, v.Sig, v.ID)
			}
			if s := sameArgs(v.Inputs, e.ins, true); s != "" {
				fail("event %s: %s", n, s)
			}
			if f, err := a.EventByID(id); err != nil || f == nil || f.Sig != v.Sig {
				fail("event %s is not found by its id: %v %v", n, f, err)
			}
			if s := v.String(); !strings.HasPrefix(s, "event "+e.name+"(") {
				fail("event %s prints as %q", n, s)
			}
		case "error":
			errs[e.name] = e
		case "constructor":
			cons = &e
		case "fallback":
			hasF = true
			if s := sameMethod(a.Fallback, e, "", abi.Fallback); s != "" {
				fail("fallback %s", s)
			}
		case "receive":
			hasR = true
			if s := sameMethod(a.Receive, e, "", abi.Receive); s != "" {
				fail("receive %s", s)
			}
		}
	}
	if cons != nil {
		if s := sameMethod(a.Constructor, *cons, "", abi.Constructor); s != "" {
			fail("constructor %s", s)
		}
	} else if len(a.Constructor.Inputs) != 0 {
		fail("there is a constructor")
	}
	if a.HasFallback() != hasF || a.HasReceive() != hasR {
		fail("fallback %v, receive %v", a.HasFallback(), a.HasReceive())
	}
	if len(a.Methods) != len(usedM) || len(a.Events) != len(usedE) || len(a.Errors) != len(errs) {
		fail("%d methods, %d events, %d errors", len(a.Methods), len(a.Events), len(a.Errors))
	}
	for n, e := range errs {
		v, ok := a.Errors[n]
		id := common.BytesToHash(refHash([]byte(e.sig())))
		if !ok || v.Name != n || v.Sig != e.sig() || v.ID != id {
			fail("error %s is %q %s %x", n, v.Name, v.Sig, v.ID)
			continue
		}
		if s := sameArgs(v.Inputs, e.ins, true); s != "" {
			fail("error %s: %s", n, s)
		}
		if s := v.String(); !strings.HasPrefix(s, "error "+n+"(") {
			fail("error %s prints as %q", n, s)
		}
	}
	// identifiers of nothing
	for _, id := range [][]byte{{0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff, 1}} {
		if _, err := a.MethodById(id); err == nil {
			fail("a method is found by %x", id)
		}
		if _, err := a.EventByID(common.BytesToHash(id)); err == nil {
			fail("an event is found by %x", id)
		}
	}
}

// checkRevert: a revert reason is read from exactly the calls of Error(string).
func checkRevert(c *fw.Ctx, s string) {
	sel := refHash([]byte("Error(string)"))[:4]
	enc := append(append([]byte{}, sel...), refAbiSeq([]*at{kindT(aString)}, []av{s})...)
	got, err := abi.UnpackRevert(enc)
	c.Evals.Add(1)
	c.Nontriv.Add(1)
	if err != nil || got != s {
		c.Fail("abi-revert", "revert reason %q is read as %q, %v", s, got, err)
	}
	for n := 0; n < len(enc); n++ {
		got, err := abi.UnpackRevert(enc[:n:n])
		c.Evals.Add(1)
		// padding after the text may be missing
		if err == nil && got != s || err == nil && n < 4+64+len(s) {
			c.Fail("abi-revert", "the first %d of %d bytes of revert reason %q are read as %q", n, len(enc), s, got)
		}
	}
	for i := 0; i < 4; i++ {
		b := append([]byte{}, enc...)
		b[i] ^= 1
		if got, err := abi.UnpackRevert(b); err == nil {
			c.Fail("abi-revert", "%x is no revert reason but is read as %q", b, got)
		}
		c.Evals.Add(1)
	}
}

// checkConvert: a tuple of a run-time type converts to a declared type of the same fields.
func checkConvert(c *fw.Ctx, t *at, v av) {
	a, js, err := abiFor([]*at{t})
	if err != nil {
		c.Fail("abi-convert", "%s: %v", js, err)
		return
	}
	b, err := a.Methods["f"].Inputs.Pack(t.toGo(v).Interface())
	if err != nil {
		c.Fail("abi-convert", "%s: %v", js, err)
		return
	}
	out, err := a.Unpack("g", b)
	if err != nil || len(out) != 1 {
		c.Fail("abi-convert", "%s: %v", js, err)
		return
	}
	want := t.toGo(v).Interface()
	c.Evals.Add(1)
	c.Nontriv.Add(1)
	check := func(how string, proto interface{}, deref bool) {
		var got interface{}
		if p := fw.Try(func() { got = abi.ConvertType(out[0], proto) }); p != nil {
			c.Fail("abi-convert", "%s of %s: %s: panic %v", avStr(v), t.sig(), how, p)
			return
		}
		r := reflect.ValueOf(got)
		if deref {
			r = r.Elem()
		}
		back, ok := t.fromGo(r, false)
		if r.Type() != reflect.TypeOf(want) || !ok || !avEq(back, v) {
			c.Fail("abi-convert", "%s of %s: %s gives %#v of %T", avStr(v), t.sig(), how, r.Interface(), r.Interface())
		}
	}
	check("pointer", reflect.New(t.goType()).Interface(), true)
	if t.k == aTuple {
		check("value", reflect.Zero(t.goType()).Interface(), false)
	}
}

func runE04(c *fw.Ctx) {
	alpha := declAlphabet()
	depth := c.Pick(4, 5)
	checkDecl(c, nil)
	c.Parallel(len(alpha), func(i int, s *fw.Slot) {
		var rec func(es []declEntry)
		rec = func(es []declEntry) {
			if c.Expired() {
				c.Truncate()
				return
			}
			s.Begin(func() string { return fmt.Sprintf("declaration of %d entries starting with %d", len(es), i) })
			if p := fw.Try(func() { checkDecl(c, es) }); p != nil {
				var l []any
				for _, e := range es {
					l = append(l, e.json())
				}
				c.Fail("abi-declaration", "%s: panic %v", mustJSON(l), p)
			}
			s.End()
			if len(es) == depth {
				return
			}
			for _, e := range alpha {
				rec(append(es[:len(es):len(es)], e))
			}
		}
		rec([]declEntry{alpha[i]})
	})
	// malformed documents are refused
	for _, js := range []string{"", "{}", "[", `[{"type":"function"`, `[1]`, `["function"]`, `[{"type":1}]`, `[{"type":"function","name":"f","inputs":{}}]`, `[{"type":"event","name":"e","inputs":[1]}]`, `[{"type":"function","name":"f","inputs":[{"type":5}]}]`} {
		if _, err := abi.JSON(strings.NewReader(js)); err == nil {
			c.Fail("abi-declaration", "%q is accepted", js)
		}
		c.Evals.Add(1)
	}
	// the ways to start from a text
	good := mustJSON([]any{alpha[1].json(), alpha[8].json(), alpha[10].json()})
	dir, err := os.MkdirTemp(c.Tmp, "abi")
	if err != nil {
		c.Fail("abi-init", "%v", err)
		return
	}
	for _, js := range []string{good, "[]", "[", "", `[{"type":"nothing"}]`} {
		ref, err := abi.JSON(strings.NewReader(js))
		file := filepath.Join(dir, "x.json")
		os.WriteFile(file, []byte(js), 0o600)
		for n, f := range map[string]func() *abi.ABI{
			"text":  func() *abi.ABI { return abi.MustInitAbi("x", js) },
			"bytes": func() *abi.ABI { return abi.MustInitAbiBytes("x", []byte(js)) },
			"file":  func() *abi.ABI { return abi.MustInitAbiFile("x", file) },
		} {
			var got *abi.ABI
			p := fw.Try(func() { got = f() })
			c.Evals.Add(1)
			if (p == nil) != (err == nil) || p == nil && (got == nil || !reflect.DeepEqual(*got, ref)) {
				c.Fail("abi-init", "starting from the %s %q gives %v, panic %v", n, js, got, p)
			}
		}
	}
	if fw.Try(func() { abi.MustInitAbiFile("x", filepath.Join(dir, "none")) }) == nil {
		c.Fail("abi-init", "a missing file is accepted")
	}
	// revert reasons
	for n := 0; n <= c.Pick(100, 300); n++ {
		checkRevert(c, string(seqBytes(n)))
	}
	checkRevert(c, "no more \u00e4\x00 money")
	// conversions
	inner := []*at{uintT(8), uintT(256), kindT(aBool), kindT(aAddr), fixedT(4), kindT(aString), kindT(aBytes), sliceT(uintT(64)), arrT(kindT(aString), 2)}
	var ts []*at
	for _, a := range inner {
		ts = append(ts, tupleT(a))
		for _, b := range inner {
			ts = append(ts, tupleT(a, b))
		}
		ts = append(ts, tupleT(tupleT(a, uintT(8)), a), tupleT(a, sliceT(tupleT(a))))
	}
	for _, t := range append([]*at{}, ts...) {
		ts = append(ts, sliceT(t), arrT(t, 2), sliceT(sliceT(t)))
	}
	c.Parallel(len(ts), func(i int, s *fw.Slot) {
		if c.Expired() {
			c.Truncate()
			return
		}
		s.Begin(func() string { return "conversion to " + ts[i].sig() })
		for _, v := range avals(ts[i]) {
			checkConvert(c, ts[i], v)
		}
		s.End()
	})
	c.Sample(good)
}
