package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/log"
	"github.com/ThinkiumGroup/go-common/rlp"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/sirupsen/logrus"
	"verif/harness/fw"
	"verif/sched"
	"verif/sched/hist"
	shim "verif/sched/sync"
)

// --- encoding and decoding

type rlpWorld struct {
	inner, outer reflect.Type  // seen for the first time in this execution
	iv, ov       reflect.Value // values of them, only read
	ienc, oenc   []byte        // their encodings, only read
}

var freshTypes int

func newRlpWorld() any {
	freshTypes++
	w := &rlpWorld{}
	u, s := reflect.TypeOf(uint64(0)), reflect.TypeOf("")
	tag := reflect.StructTag(fmt.Sprintf(`n:"%d"`, freshTypes))
	w.inner = reflect.StructOf([]reflect.StructField{{Name: "A", Type: u, Tag: tag}, {Name: "S", Type: s}, {Name: "L", Type: reflect.TypeOf([]byte{})}})
	w.outer = reflect.StructOf([]reflect.StructField{{Name: "P", Type: reflect.PtrTo(w.inner), Tag: tag}, {Name: "L", Type: reflect.SliceOf(w.inner)}, {Name: "U", Type: u, Tag: `rlp:"optional"`}})
	w.iv = reflect.New(w.inner).Elem()
	w.iv.Field(0).SetUint(0x1234)
	w.iv.Field(1).SetString("some text")
	w.iv.Field(2).SetBytes(bytes.Repeat([]byte{9}, 60))
	w.ov = reflect.New(w.outer).Elem()
	p := reflect.New(w.inner)
	p.Elem().Field(0).SetUint(7)
	w.ov.Field(0).Set(p)
	w.ov.Field(1).Set(reflect.MakeSlice(reflect.SliceOf(w.inner), 2, 2))
	w.ov.Field(1).Index(1).Field(1).SetString("elem")
	w.ov.Field(2).SetUint(5)
	// by hand, so that the types stay unseen
	w.ienc = append([]byte{0xf8, 75, 0x82, 0x12, 0x34, 0x89}, append([]byte("some text"), append([]byte{0xb8, 60}, bytes.Repeat([]byte{9}, 60)...)...)...)
	w.oenc = []byte{0xd2, 0xc3, 0x07, 0x80, 0x80, 0xcc, 0xc3, 0x80, 0x80, 0x80, 0xc7, 0x80, 0x84, 'e', 'l', 'e', 'm', 0x80, 0x05}
	return w
}

func dump(v reflect.Value) string {
	for v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	if v.Kind() == reflect.Struct {
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += dump(v.Field(i)) + " "
		}
		return s + "}"
	}
	if v.Kind() == reflect.Slice && v.Type().Elem().Kind() != reflect.Uint8 {
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += dump(v.Index(i)) + " "
		}
		return s + "]"
	}
	return fmt.Sprintf("%v", v.Interface())
}

// pausing writes and reads give way in the middle
type pausingWriter struct{ b []byte }

func (p *pausingWriter) Write(b []byte) (int, error) {
	h := len(b) / 2
	p.b = append(p.b, b[:h]...)
	sched.Point(sched.KUser)
	p.b = append(p.b, b[h:]...)
	return len(b), nil
}

type pausingReader struct {
	b []byte
	n int
}

func (p *pausingReader) Read(b []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	if p.n++; p.n == 2 {
		sched.Point(sched.KUser)
	}
	n := len(p.b)
	if n > 20 {
		n = 20
	}
	n = copy(b, p.b[:n])
	p.b = p.b[n:]
	return n, nil
}

// rec is a type whose encoding and decoding use the package again.
type rec struct {
	A uint64
	B []byte
}

type selfCoded struct{ r rec }

func (s selfCoded) EncodeRLP(w io.Writer) error {
	b, err := rlp.EncodeToBytes(&s.r)
	if err != nil {
		return err
	}
	if err := rlp.Encode(w, b); err != nil {
		return err
	}
	return nil
}

func (s *selfCoded) DecodeRLP(st *rlp.Stream) error {
	b, err := st.Bytes()
	if err != nil {
		return err
	}
	return rlp.DecodeBytes(b, &s.r)
}

type halfWay struct {
	A, B []byte
	C    failing
}
type failing struct{ X uint64 }

var errEncode = errors.New("refuses")

func (failing) EncodeRLP(w io.Writer) error {
	rlp.Encode(w, []byte("before the failure"))
	return errEncode
}

func pauseRead(r io.Reader, size int, err error) string {
	if err != nil {
		return "error"
	}
	var out []byte
	b := make([]byte, 5)
	for i := 0; ; i++ {
		n, err := r.Read(b)
		out = append(out, b[:n]...)
		if err == io.EOF {
			n, err2 := r.Read(b)
			return fmt.Sprintf("%d %x %d %v", size, out, n, err2 == io.EOF)
		}
		if err != nil {
			return "error"
		}
		if i == 1 {
			sched.Point(sched.KUser)
		}
	}
}

func big1() *big.Int { return new(big.Int).Lsh(big.NewInt(0x77), 130) }

func rlpOps() (fresh, pooled []Op) {
	type W = *rlpWorld
	x := func(b []byte, err error) string { return fmt.Sprintf("%x%s", b, errs(err)) }
	fresh = []Op{
		op("encode new inner", func(w W) string { return x(rlp.EncodeToBytes(w.iv.Interface())) }),
		op("encode new outer", func(w W) string { return x(rlp.EncodeToBytes(w.ov.Interface())) }),
		op("decode new inner", func(w W) string {
			v := reflect.New(w.inner)
			err := rlp.DecodeBytes(w.ienc, v.Interface())
			return dump(v) + errs(err)
		}),
		op("decode new outer", func(w W) string {
			v := reflect.New(w.outer)
			err := rlp.DecodeBytes(w.oenc, v.Interface())
			return dump(v) + errs(err)
		}),
	}
	pooled = []Op{
		op("Encode", func(w W) string {
			p := &pausingWriter{}
			err := rlp.Encode(p, &rec{1, bytes.Repeat([]byte("e"), 70)})
			return x(p.b, err)
		}),
		op("EncodeToBytes", func(w W) string {
			b, err := rlp.EncodeToBytes([]interface{}{"text", uint(4), []string{"a", "b"}, big1()})
			s := x(b, err)
			for i := range b {
				b[i] = '%'
			}
			return s
		}),
		op("EncodeToReader", func(w W) string {
			n, r, err := rlp.EncodeToReader([]string{"first", "second", "third one"})
			return pauseRead(r, n, err)
		}),
		op("EncoderBuffer", func(w W) string {
			p := &pausingWriter{}
			e := rlp.NewEncoderBuffer(p)
			l := e.List()
			e.WriteString("in a list")
			sched.Point(sched.KUser)
			e.WriteUint64(99)
			e.ListEnd(l)
			b := e.ToBytes()
			err := e.Flush()
			return x(p.b, err) + fmt.Sprintf(" %x", b)
		}),
		op("encode, failing half way", func(w W) string {
			_, err := rlp.EncodeToBytes(&halfWay{A: []byte("aaaa"), B: bytes.Repeat([]byte("b"), 60)})
			p := &pausingWriter{}
			err2 := rlp.Encode(p, &halfWay{})
			return fmt.Sprint(err == errEncode, err2 == errEncode, len(p.b))
		}),
		op("encode self-coded", func(w W) string {
			return x(rlp.EncodeToBytes([]selfCoded{{rec{3, []byte("three")}}, {rec{4, nil}}}))
		}),
		op("DecodeBytes", func(w W) string {
			var v struct {
				S string
				U uint
				L []string
				B *big.Int
			}
			in := append([]byte{0xdb, 0x84, 't', 'e', 'x', 't', 4, 0xc2, 'a', 'b', 0x91}, big1().Bytes()...)
			in[0] = 0xc0 + byte(len(in)-1)
			err := rlp.DecodeBytes(in, &v)
			for i := range in {
				in[i] = '%'
			}
			return fmt.Sprint(v.S, v.U, v.L, v.B) + errs(err)
		}),
		op("Decode", func(w W) string {
			var v rec
			in := append([]byte{0xf8, 73, 1, 0xb8, 70}, bytes.Repeat([]byte("d"), 70)...)
			err := rlp.Decode(&pausingReader{b: in}, &v)
			return fmt.Sprint(v.A, string(v.B)) + errs(err)
		}),
		op("decode, failing half way", func(w W) string {
			var v []rec
			err := rlp.DecodeBytes([]byte{0xc9, 0xc3, 1, 0x81, 0x88, 0xc4, 1, 0x81, 0x05, 0}, &v)
			return str(len(v)) + fmt.Sprint(err)
		}),
		op("decode self-coded", func(w W) string {
			var v []selfCoded
			in := []byte{0xcf, 0x88, 0xc7, 3, 0x85, 't', 'h', 'r', 'e', 'e', 0x83, 0xc2, 4, 0x80}
			in[0] = 0xc0 + byte(len(in)-1)
			err := rlp.DecodeBytes(in, &v)
			s := ""
			for _, e := range v {
				s += fmt.Sprint(e.r.A, string(e.r.B), " ")
			}
			return s + errs(err)
		}),
	}
	return
}

// --- hashing and printing

type hpWorld struct {
	proofs *common.MerkleProofs
	tr     *trie.Trie
	tree   *trie.HistoryTree
}

func newHpWorld() any {
	w := &hpWorld{}
	var l [][]byte
	for i := byte(0); i < 5; i++ {
		h := common.Hash256([]byte{i})
		l = append(l, append([]byte{}, h[:]...))
	}
	w.proofs = common.NewMerkleProofs()
	if _, err := common.MerkleHashComplete(l, 2, w.proofs); err != nil {
		panic(err)
	}
	d := newKV()
	w.tr = openTrie(d, nil)
	w.tr.Put([]byte("a"), "0")
	w.tr.Put([]byte("ab"), "1")
	w.tr.Commit()
	w.tree = newHist(2, true).h
	return w
}

type hashed struct {
	A uint64
	B []byte
	C common.Hash
}

func hpOps() []Op {
	type W = *hpWorld
	return []Op{
		op("MerkleProofs.String", func(w W) string { return w.proofs.String() }),
		op("MerkleProofs.InfoString", func(w W) string { return w.proofs.InfoString(0) }),
		op("Hash256", func(w W) string { h := common.Hash256([]byte("ab"), []byte("c")); return fmt.Sprintf("%x", h[:6]) }),
		op("HashObject", func(w W) string { return hex4(common.HashObject(&hashed{1, []byte{2}, common.Hash{3}})) }),
		op("MerkleHash", func(w W) string {
			return hex4(common.MerkleHash([][]byte{bytes.Repeat([]byte{1}, 32), bytes.Repeat([]byte{2}, 32), bytes.Repeat([]byte{3}, 32)}, 1, nil))
		}),
		op("Proof", func(w W) string { h, err := w.proofs.Proof(common.Hash256([]byte{2})); return hex4(h, err) }),
		op("trie HashValue, fresh", func(w W) string {
			t := openTrie(newKV(), nil)
			t.Put([]byte("k"), "v")
			return hex4(t.CommitAndHash())
		}),
		op("ValueString", func(w W) string { return w.tr.ValueString() }),
		op("history proof", func(w W) string {
			v, p, ok := w.tree.GetProof(1)
			if !ok {
				return "none"
			}
			h, err := p.Proof(common.BytesToHash(v))
			return hex4(h, err)
		}),
		op("history String", func(w W) string { return w.tree.String() }),
	}
}

// --- logging

// sink is a file or console: it notices overlapping writes and keeps the lines.
type sink struct {
	name   string
	log    *hist.Log
	inside *hist.Cell
}

func (s *sink) Write(b []byte) (int, error) {
	s.inside.Add(1)
	if s.inside.Get() > 1 {
		s.log.Add(s.name + ": two writes at once")
	}
	sched.Point(sched.KUser)
	s.log.Add(s.name + ": " + string(b))
	s.inside.Add(-1)
	return len(b), nil
}

type logWorld struct{ log *hist.Log }

func newLogWorld() any {
	w := &logWorld{log: new(hist.Log)}
	l, ok := log.WithField().(*logrus.Logger)
	if !ok {
		panic("no logger")
	}
	mk := func(n string) *sink { return &sink{n, w.log, new(hist.Cell)} }
	l.Out = mk("out")
	l.Level = logrus.InfoLevel
	l.Formatter = &logrus.TextFormatter{DisableTimestamp: true, DisableColors: true}
	l.ReplaceHooks(make(logrus.LevelHooks))
	l.AddHook(log.NewFileAndConsoleHook(&logrus.TextFormatter{DisableTimestamp: true, DisableColors: true}, mk("file"), mk("console"), logrus.WarnLevel))
	log.SetFields(logrus.Fields{"who": "me"})
	return w
}

func logDigest(a any) string {
	w := a.(*logWorld)
	log.SetFields(logrus.Fields{"who": "end"})
	log.Warn("end")
	l := w.log.List()
	sort.Strings(l)
	return strings.Join(l, "")
}

func logOps() []Op {
	type W = *logWorld
	return []Op{
		op("Info", func(w W) string { log.Info("information"); return "" }),
		op("Warnf", func(w W) string { log.Warnf("warning %d", 1); return "" }),
		op("Debugf", func(w W) string { log.Debugf("hidden %d", 1); return "" }),
		op("WithField.Error", func(w W) string { log.WithField("a", 1, "b", 2).Error("with fields"); return "" }),
		op("MustWarnf own", func(w W) string { log.MustWarnf(log.WithFields(logrus.Fields{"x": "y"}), "must %s", "be"); return "" }),
		op("MustErrorf nil", func(w W) string { log.MustErrorf(nil, "must %s", "nil"); return "" }),
		op("SetFields", func(w W) string { log.SetFields(logrus.Fields{"who": "you"}); return "" }),
	}
}

// every function that logs, and what may change the logger meanwhile
func logAllOps() (uses, changes []Op) {
	type W = *logWorld
	u := func(n string, f func()) { uses = append(uses, op(n, func(W) string { f(); return "" })) }
	u("Debug", func() { log.Debug("one", 1) })
	u("Debugf", func() { log.Debugf("one %d", 1) })
	u("Info", func() { log.Info("one", 1) })
	u("Infof", func() { log.Infof("one %d", 1) })
	u("Warn", func() { log.Warn("one", 1) })
	u("Warnf", func() { log.Warnf("one %d", 1) })
	u("Error", func() { log.Error("one", 1) })
	u("Errorf", func() { log.Errorf("one %d", 1) })
	u("MustDebugf", func() { log.MustDebugf(nil, "one %d", 1) })
	u("MustInfof", func() { log.MustInfof(nil, "one %d", 1) })
	u("MustWarnf", func() { log.MustWarnf(nil, "one %d", 1) })
	u("MustErrorf", func() { log.MustErrorf(nil, "one %d", 1) })
	u("WithField", func() { log.WithField("a", 1).Info("one") })
	u("WithFields", func() { log.WithFields(logrus.Fields{"a": 1}).Info("one") })
	u("WithField()", func() { log.WithField().Info("one") })
	return uses, []Op{
		op("SetFields", func(W) string { log.SetFields(logrus.Fields{"who": "you"}); return "" }),
		op("InitLog", func(W) string {
			log.InitLog(filepath.Join(os.Getenv("VERIF_TMPDIR"), fmt.Sprint("log", os.Getpid())), []byte{1})
			return ""
		}),
	}
}

// newLogFileWorld leaves the logger as a process has it after InitLog.
func newLogFileWorld() any {
	log.InitLog(filepath.Join(os.Getenv("VERIF_TMPDIR"), fmt.Sprint("log", os.Getpid())), []byte{2})
	return new(logWorld)
}

func ccOps() (uses []Op, change Op) {
	type W = *logWorld
	u := func(n string, f func()) { uses = append(uses, op(n, func(W) string { f(); return "" })) }
	u("CCDebug", func() { log.CCDebug("one") })
	u("CCDebugf", func() { log.CCDebugf("one %d", 1) })
	u("CCInfo", func() { log.CCInfo("one") })
	u("CCInfof", func() { log.CCInfof("one %d", 1) })
	u("CCWarn", func() { log.CCWarn("one") })
	u("CCWarnf", func() { log.CCWarnf("one %d", 1) })
	u("CCError", func() { log.CCError("one") })
	u("CCErrorf", func() { log.CCErrorf("one %d", 1) })
	u("CCWithFields", func() { log.CCWithFields(logrus.Fields{"a": 1}).Warn("one") })
	return uses, op("InitCheckLog", func(W) string {
		log.InitCheckLog(filepath.Join(os.Getenv("VERIF_TMPDIR"), fmt.Sprint("cc", os.Getpid())), []byte{1})
		return ""
	})
}

// logHistories checks what is written, line by line.
func logHistories(c *fw.Ctx) {
	l, ok := log.WithField().(*logrus.Logger)
	if !ok {
		c.Fail("log", "WithField() is a %T", log.WithField())
		return
	}
	var buf bytes.Buffer
	l.Out, l.Level = &buf, logrus.DebugLevel
	l.Formatter = &logrus.TextFormatter{DisableTimestamp: true, DisableColors: true}
	defer func() { l.Level = logrus.FatalLevel }()
	// every list of up to seven names and values
	for n := 0; n <= 7; n++ {
		for mask := 0; mask < 1<<((n+1)/2); mask++ { // which names are no strings
			var vs []interface{}
			want := map[string]bool{}
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("name%d", i/2)
				switch {
				case i%2 == 1:
					vs = append(vs, i)
					if mask>>(i/2)&1 == 0 {
						want[fmt.Sprintf("%s=%d", k, i)] = true
					}
				case mask>>(i/2)&1 == 1:
					vs = append(vs, 77)
				default:
					vs = append(vs, k)
				}
			}
			buf.Reset()
			if p := fw.Try(func() { log.WithField(vs...).Info("the line") }); p != nil {
				c.Fail("WithField", "WithField(%v) panics: %v", vs, p)
				continue
			}
			got := buf.String()
			c.Evals.Add(1)
			bad := strings.Count(got, "\n") != 1 || !strings.Contains(got, "the line")
			for k := range want {
				bad = bad || !strings.Contains(got, k)
			}
			bad = bad || strings.Count(got, "name") != len(want)
			if bad {
				c.Fail("WithField", "WithField(%v) writes %q", vs, got)
			}
		}
	}
	// the check log: silent before it is initialized, to its file after
	if p := fw.Try(func() {
		log.CCDebug("early")
		log.CCInfof("early %d", 1)
		log.CCWarn("early")
		log.CCErrorf("early")
		log.CCWithFields(logrus.Fields{"a": 1}).Warn("early")
	}); p != nil {
		c.Fail("check log", "the check log panics before it is initialized: %v", p)
	}
	for _, nid := range [][]byte{{}, {1}, {1, 2, 3, 4, 5}, {1, 2, 3, 4, 5, 6}} {
		if len(nid) != 1 {
			continue // once per process
		}
		if p := fw.Try(func() { log.InitCheckLog(filepath.Join(c.Tmp, "cc"), nid) }); p != nil {
			c.Fail("check log", "InitCheckLog with a node id of %d bytes panics: %v", len(nid), p)
		}
	}
	readAll := func(pat string) string {
		s := ""
		fs, _ := filepath.Glob(filepath.Join(c.Tmp, pat))
		for _, f := range fs {
			if fi, err := os.Lstat(f); err == nil && fi.Mode().IsRegular() {
				b, _ := os.ReadFile(f)
				s += string(b)
			}
		}
		return s
	}
	ccs := []func(){func() { log.CCDebug("line0") }, func() { log.CCDebugf("line%d", 1) }, func() { log.CCInfo("line2") }, func() { log.CCInfof("line%d", 3) },
		func() { log.CCWarn("line4") }, func() { log.CCWarnf("line%d", 5) }, func() { log.CCError("line6") }, func() { log.CCErrorf("line%d", 7) },
		func() { log.CCWithFields(logrus.Fields{"k": 1}).Info("line8") }}
	for _, f := range ccs {
		if p := fw.Try(f); p != nil {
			c.Fail("check log", "the check log panics: %v", p)
		}
	}
	got := readAll("cc.check.*")
	for i := range ccs {
		if strings.Count(got, fmt.Sprintf("line%d", i)) != 1 {
			c.Fail("check log", "line %d is %d times in the file of the check log", i, strings.Count(got, fmt.Sprintf("line%d", i)))
		}
		c.Evals.Add(1)
	}
	// the log file takes every level
	stdout := os.Stdout
	defer func() { os.Stdout = stdout }()
	for i, nid := range [][]byte{nil, {1}, {1, 2, 3, 4, 5}, {1, 2, 3, 4, 5, 6, 7}} {
		con, err := os.CreateTemp(c.Tmp, "console")
		if err != nil {
			c.Fail("log", "%v", err)
			return
		}
		os.Stdout = con
		if p := fw.Try(func() { log.InitLog(filepath.Join(c.Tmp, fmt.Sprint("main", i)), nid) }); p != nil {
			os.Stdout = stdout
			c.Fail("InitLog", "InitLog with a node id of %d bytes panics: %v", len(nid), p)
			return
		}
		fs := []func(){func() { log.Debug("line0") }, func() { log.Debugf("line%d", 1) }, func() { log.Info("line2") }, func() { log.Infof("line%d", 3) },
			func() { log.Warn("line4") }, func() { log.Warnf("line%d", 5) }, func() { log.Error("line6") }, func() { log.Errorf("line%d", 7) },
			func() { log.WithField("k", 1).Debug("line8") }, func() { log.MustDebugf(nil, "line9") }, func() { log.MustInfof(nil, "lineA") }, func() { log.MustWarnf(nil, "lineB") }, func() { log.MustErrorf(nil, "lineC") }}
		for _, f := range fs {
			f()
		}
		os.Stdout = stdout
		b, _ := os.ReadFile(con.Name())
		con.Close()
		console := string(b)
		got := readAll(fmt.Sprintf("main%d.*", i))
		for j := range fs {
			s := fmt.Sprintf("line%X", j)
			wantCon := 1
			if j < 2 || j == 8 || j == 9 {
				wantCon = 0
			}
			c.Evals.Add(1)
			if strings.Count(got, s) != 1 || strings.Count(console, s) != wantCon {
				c.Fail("log file", "%s is %d times in the file and %d times on the console (expected 1 and %d)", s, strings.Count(got, s), strings.Count(console, s), wantCon)
			}
		}
	}
	runtime.KeepAlive(l)
}

// with is a scenario of one call on each thread.
func with(base Scenario, ops ...Op) *Scenario {
	s := base
	for _, o := range ops {
		s.Name += " | " + o.Name
		s.Threads = append(s.Threads, []Op{o})
	}
	return &s
}

func init() {
	suite(&Suite{ID: "C06", Retire: 4000,
		Rule: "every interleaving, at pool, cache, atomic and lock operations and in the middle of reads and writes, of two and three concurrent encodings, decodings, hashes, prints and log calls, with types seen for the first time; results compared with the one-at-a-time orders under the race detector",
		Pre:  logHistories,
		Scenarios: func(thorough bool) []*Scenario {
			var out []*Scenario
			b := func(quick, deep int) int {
				if thorough {
					return deep
				}
				return quick
			}
			fresh, pooled := rlpOps()
			{
				base := Scenario{Name: "types seen first", New: newRlpWorld, Bound: b(3, -1), Kinds: sched.KAtomic | sched.KLock | sched.KMap | sched.KPool}
				out = append(out, product(base, fresh, 1, 1)...)
				base.Bound = b(2, 4)
				base.Kinds &^= sched.KPool
				out = append(out, product(base, fresh, 2, 1)...)
				out = append(out, product(base, fresh, 1, 1, 1)...)
			}
			{
				base := Scenario{Name: "pooled buffers", New: func() any { return new(rlpWorld) }, Bound: -1, Kinds: sched.KPool}
				out = append(out, product(base, pooled, 1, 1)...)
				base.Bound = b(2, 4)
				out = append(out, product(base, pooled, 2, 1)...)
				base.Bound = b(1, 2)
				out = append(out, product(base, pooled, 1, 1, 1)...)
				base.Kinds = sched.KAtomic | sched.KLock | sched.KMap | sched.KPool
				base.Bound = b(2, 3)
				out = append(out, product(base, pooled, 1, 1)...)
			}
			{
				base := Scenario{Name: "hash and print", New: newHpWorld, Bound: b(3, -1), Kinds: sched.KPool | sched.KOnce | sched.KAtomic}
				out = append(out, product(base, hpOps(), 1, 1)...)
				base.Bound = b(2, 4)
				out = append(out, product(base, hpOps(), 2, 1)...)
				if thorough {
					out = append(out, product(base, hpOps(), 1, 1, 1)...)
				}
			}
			{
				base := Scenario{Name: "log", New: newLogWorld, Digest: logDigest, Bound: b(2, 3), Kinds: sched.KLock | sched.KPool}
				out = append(out, product(base, logOps(), 1, 1)...)
				base.Kinds = sched.KLock
				base.Bound = b(1, 2)
				out = append(out, product(base, logOps(), 2, 1)...)
				out = append(out, product(base, logOps(), 1, 1, 1)...)
				if thorough {
					out = append(out, product(base, logOps(), 2, 2)...)
				}
				base = Scenario{Name: "log functions", New: newLogFileWorld, Bound: b(1, 2), Kinds: sched.KLock}
				uses, changes := logAllOps()
				for _, ch := range changes {
					for _, u := range uses {
						out = append(out, with(base, u, ch))
					}
					out = append(out, with(base, ch, ch), with(base, changes[0], ch))
				}
				base = Scenario{Name: "check log", New: func() any { shim.ForgetOnces(); return new(logWorld) }, Bound: b(2, -1), Kinds: sched.KLock | sched.KOnce}
				uses, ch := ccOps()
				for _, u := range uses {
					out = append(out, with(base, u, ch))
				}
				out = append(out, with(base, ch, ch))
			}
			return out
		}})
}
