package seq

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"verif/harness/fw"
)

//go:embed rlpgen/overlay.go.txt
var rlpgenOverlay []byte

//go:embed rlpgen/driver.go.txt
var rlpgenDriver []byte

func init() {
	fw.Register(fw.Check{ID: "R03", Level: fw.Exploration, Run: runR03, CaseLimit: 900 * time.Second,
		Rule: "for every struct type of the universe (field types built from basic, named, byte-array, big integer, 256-bit integer, raw, struct and self-encoding types by pointer, slice and struct constructors, under every supported tag) the generated methods encode every listed value and decode every listed byte string exactly as the reflective codec does on a twin type without methods"})
}

const rlpgenDecls = `
type Flag bool
type U8 uint8
type U64 uint64
type Str string
type Bs []byte
type BSl []U8
type B4 [4]byte
type A2 [2]U8
type Us []uint16
type PU *uint16
type S struct {
	A uint64
	B string
}
type SE struct{}
type SO struct {
	A uint8
	B *S ` + "`rlp:\"nil,optional\"`" + `
	C []uint16 ` + "`rlp:\"optional\"`" + `
}
type SI struct {
	A uint8
	skipped uint16
	B string ` + "`rlp:\"-\"`" + `
	C *uint8 ` + "`rlp:\"nilList\"`" + `
}

// Enc writes itself as a string with a mark in front.
type Enc struct{ V uint8 }

func (e *Enc) EncodeRLP(w io.Writer) error {
	if e == nil {
		return errors.New("nil")
	}
	return rlp.Encode(w, []byte{'e', e.V})
}
func (e *Enc) DecodeRLP(s *rlp.Stream) error {
	b, err := s.Bytes()
	if err != nil {
		return err
	}
	if len(b) != 2 || b[0] != 'e' {
		return errors.New("not an Enc")
	}
	e.V = b[1]
	return nil
}

// EncU is a number written as a list of one number.
type EncU uint16

func (e *EncU) EncodeRLP(w io.Writer) error { return rlp.Encode(w, []uint16{uint16(*e)}) }
func (e *EncU) DecodeRLP(s *rlp.Stream) error {
	var x []uint16
	if err := s.Decode(&x); err != nil {
		return err
	}
	if len(x) != 1 {
		return errors.New("not an EncU")
	}
	*e = EncU(x[0])
	return nil
}

// EncB is a byte written as a string of two.
type EncB uint8

func (e EncB) EncodeRLP(w io.Writer) error { return rlp.Encode(w, []byte{uint8(e), uint8(e)}) }
func (e *EncB) DecodeRLP(s *rlp.Stream) error {
	b, err := s.Bytes()
	if err != nil {
		return err
	}
	if len(b) != 2 || b[0] != b[1] {
		return errors.New("not an EncB")
	}
	*e = EncB(b[0])
	return nil
}

// half implementations must be refused
type OnlyE struct{ A uint8 }

func (e OnlyE) EncodeRLP(w io.Writer) error { return rlp.Encode(w, "x") }

type OnlyD struct{ A uint8 }

func (e *OnlyD) DecodeRLP(s *rlp.Stream) error { return errors.New("no") }
`

// note: BSl, A2 and the like, of named bytes, are refused by the generator
type genType struct{ name, src, body string }

// rlpgenTypes lists the struct types of the universe.
func rlpgenTypes(thorough bool) []genType {
	base := []string{"bool", "uint8", "uint16", "uint32", "uint64", "string", "[]byte", "[4]byte", "[1]byte", "[0]byte",
		"Flag", "U8", "U64", "Str", "Bs", "BSl", "B4", "A2", "Us", "big.Int", "uint256.Int", "rlp.RawValue",
		"S", "SE", "SO", "SI0", "Enc", "EncU", "EncB", "struct{ P uint16 }"}
	for i, b := range base {
		if b == "SI0" {
			base[i] = "struct{ P, Q *uint8 }"
		}
	}
	var types []string
	seen := map[string]bool{}
	add := func(t string) {
		if !seen[t] {
			seen[t] = true
			types = append(types, t)
		}
	}
	for _, b := range base {
		add(b)
		add("*" + b)
		add("[]" + b)
		add("[]*" + b)
	}
	for _, b := range base {
		if thorough || strings.Contains(" uint64 []byte big.Int S Enc U8 uint256.Int [4]byte ", " "+b+" ") {
			add("**" + b)
			add("*[]" + b)
			add("[][]" + b)
			add("*struct{ Z " + b + " }")
			add("struct{ Y " + b + "; Z *" + b + " }")
		}
		if thorough {
			add("[]*[]" + b)
			add("[]struct{ Z " + b + " }")
			add("struct{ Y []" + b + " }")
		}
	}
	var out []genType
	put := func(body string) {
		src := strings.Join(strings.Fields(strings.NewReplacer("`rlp:", "`", "\n", "; ").Replace(body)), " ")
		out = append(out, genType{fmt.Sprintf("G%d", len(out)), src, body})
	}
	for _, t := range types {
		put("F " + t + "\nX uint8")
		put("X uint8\nF " + t + " `rlp:\"optional\"`\nY uint8 `rlp:\"optional\"`")
		if strings.HasPrefix(t, "*") {
			put("F " + t + " `rlp:\"nil\"`\nX uint8")
			put("F " + t + " `rlp:\"nilString\"`\nX uint8")
			put("F " + t + " `rlp:\"nilList\"`\nX uint8")
			put("X uint8\nF " + t + " `rlp:\"nil,optional\"`\nY " + t + " `rlp:\"optional,nilList\"`")
		}
	}
	for _, t := range []string{"uint64", "*S", "[]byte", "big.Int"} {
		put("F " + t + " `rlp:\"-\"`\nX uint8")
		put("X uint8\nF " + t + " `rlp:\"-\"`\nZ *" + strings.TrimPrefix(t, "*") + " `rlp:\"nil\"`\nY uint16 `rlp:\"optional\"`")
	}
	put("")
	put("X uint8 `rlp:\"optional\"`\nY *S `rlp:\"optional\"`\nZ []uint16 `rlp:\"optional\"`\nW [4]byte `rlp:\"optional\"`\nV big.Int `rlp:\"optional\"`")
	// types that are not supported, half implementations and tags that do not fit
	put("X uint8\nF [1]uint64")
	put("X uint8\nF any")
	put("X uint8\nF uint")
	put("X uint8\nF int8")
	put("X uint8\nF OnlyE")
	put("X uint8\nF *OnlyE")
	put("X uint8\nF OnlyD")
	put("X uint8\nF []*OnlyD")
	put("X uint8 `rlp:\"nil\"`")
	put("X uint8 `rlp:\"optional\"`\nY uint8")
	put("X uint8 `rlp:\"what\"`")
	return out
}

// rlpgenMayRefuse lists what the generator does not support by design.
func rlpgenMayRefuse(src, why string) bool {
	switch {
	case strings.Contains(why, "invalid struct tag"):
		return strings.Contains(src, `X uint8 `+"`"+`"nil"`) || strings.Contains(src, `"what"`) || strings.Contains(src, `"optional"`+"`; Y uint8") && strings.HasPrefix(src, "X")
	case strings.Contains(why, "unhandled"):
		for _, t := range []string{"[]U8", "BSl", "A2", "[1]uint64", "any", "uint ", "int8"} {
			if strings.Contains(src+" ", t) {
				return true
			}
		}
	case strings.Contains(why, "implements rlp."):
		return strings.Contains(src, "Only")
	}
	return false
}

func runR03(c *fw.Ctx) {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	dir := filepath.Join(c.Tmp, "rlpgen")
	must(os.MkdirAll(dir, 0755))
	types := rlpgenTypes(c.Thorough)
	src := "package main\n\nimport (\n\"errors\"\n\"io\"\n\"math/big\"\n\"github.com/ThinkiumGroup/go-common/rlp\"\n\"github.com/holiman/uint256\"\n)\n\nvar _ big.Int\nvar _ uint256.Int\n" + rlpgenDecls
	twins := "package main\n\nimport (\n\"math/big\"\n\"github.com/ThinkiumGroup/go-common/rlp\"\n\"github.com/holiman/uint256\"\n)\n\nvar _ big.Int\nvar _ uint256.Int\nvar _ rlp.RawValue\n"
	for _, t := range types {
		src += fmt.Sprintf("type %s struct {\n%s\n}\n", t.name, t.body)
		twins += fmt.Sprintf("type R%s struct {\n%s\n}\n", t.name[1:], t.body)
	}
	write := func(name string, b []byte) { must(os.WriteFile(filepath.Join(dir, name), b, 0644)) }
	write("types.go", []byte(src))
	write("twins.go", []byte(twins))

	// the generator, with an entry that handles many types at once
	gendir := filepath.Join(c.Tmp, "gen")
	must(os.MkdirAll(gendir, 0755))
	must(os.WriteFile(filepath.Join(gendir, "zz.go"), rlpgenOverlay, 0644))
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(repo, "rlp/rlpgen/zz_verif_driver.go"): filepath.Join(gendir, "zz.go")}})
	must(os.WriteFile(filepath.Join(gendir, "overlay.json"), ov, 0644))
	run := func(wd string, env []string, name string, arg ...string) (string, error) {
		cmd := exec.Command(name, arg...)
		cmd.Dir = wd
		cmd.Env = append(os.Environ(), env...)
		b, err := cmd.CombinedOutput()
		return string(b), err
	}
	if out, err := run(repo, nil, "go", "build", "-overlay", filepath.Join(gendir, "overlay.json"), "-o", filepath.Join(gendir, "rlpgen"), "./rlp/rlpgen"); err != nil {
		c.Abort("cannot build the generator: %s", out)
	}
	if out, err := run(filepath.Join(repo, "rlp", "rlpgen"), []string{"VERIF_GEN_DIR=" + dir}, filepath.Join(gendir, "rlpgen")); err != nil {
		c.Abort("the generator failed: %s", out)
	}
	refused := map[string]string{}
	b, err := os.ReadFile(filepath.Join(dir, "refused.json"))
	must(err)
	must(json.Unmarshal(b, &refused))

	// a program with the generated methods
	mod, err := os.ReadFile(filepath.Join(c.Root, "harness", "go.mod"))
	must(err)
	m := regexp.MustCompile(`(?m)^module .*$`).ReplaceAllString(string(mod), "module verif/rlpgen")
	m = regexp.MustCompile(`(?m)^(replace .*=>).*$`).ReplaceAllString(m, "$1 "+repo)
	write("go.mod", []byte(m))
	sum, err := os.ReadFile(filepath.Join(c.Root, "harness", "go.sum"))
	must(err)
	write("go.sum", sum)
	write("driver.go", rlpgenDriver)
	bySrc := map[string]string{}
	table := func(skip map[string]bool) {
		s := "package main\n\nimport \"reflect\"\n\nvar table = []twin{\n"
		for _, t := range types {
			bySrc[t.name] = t.src
			if refused[t.name] == "" && !skip[t.name] {
				s += fmt.Sprintf("{%q, %q, reflect.TypeOf(%s{}), reflect.TypeOf(R%s{})},\n", t.name, t.src, t.name, t.name[1:])
			}
		}
		write("table.go", []byte(s+"}\n"))
	}
	skip := map[string]bool{}
	prog := filepath.Join(dir, "prog")
	for try := 0; ; try++ {
		table(skip)
		out, err := run(dir, []string{"GOFLAGS=-mod=mod", "GOWORK=off"}, "go", "build", "-gcflags=-e", "-o", prog, ".")
		if err == nil {
			break
		}
		bad := regexp.MustCompile(`gen_(G\d+)\.go:(.*)`).FindAllStringSubmatch(out, -1)
		if len(bad) == 0 || try == 3 {
			c.Abort("cannot build the program with the generated methods: %s", out)
		}
		for _, x := range bad {
			if !skip[x[1]] {
				skip[x[1]] = true
				key := "does not compile: " + bySrc[x[1]]
				if strings.Contains(x[2], "as *rlp.RawValue value") {
					key = "pointer to rlp.RawValue: the generated decoder does not compile"
				}
				c.Fail(key, "the code generated for struct{ %s } does not compile: %s", bySrc[x[1]], x[2])
				os.Remove(filepath.Join(dir, "gen_"+x[1]+".go"))
			}
		}
	}
	for name, why := range refused {
		// types the reflective codec refuses must be refused, others accepted
		if !rlpgenMayRefuse(bySrc[name], why) {
			c.Fail("refused: "+bySrc[name], "the generator refuses struct{ %s }: %s", bySrc[name], why)
		}
	}
	for _, t := range types[len(types)-8:] {
		if refused[t.name] == "" {
			c.Fail("accepted: "+t.src, "the generator accepts struct{ %s }, which the reflective codec or the other half refuses", t.src)
		}
	}
	left := int(c.Left().Seconds()) - 10
	th := "0"
	if c.Thorough {
		th = "1"
	}
	out, err := run(dir, []string{fmt.Sprint("VERIF_SECS=", left), "VERIF_THOROUGH=" + th}, prog)
	if err != nil {
		c.Abort("the program with the generated methods failed: %s", out)
	}
	var res struct {
		Fails                          map[string]string
		Evals, Accepted, Types, Inputs int64
		Truncated                      bool
	}
	must(json.Unmarshal([]byte(out[strings.LastIndex(strings.TrimSpace(out), "\n")+1:]), &res))
	if res.Truncated {
		c.Truncate()
	}
	c.Evals.Add(res.Evals)
	c.States.Add(res.Types)
	c.Nontriv.Add(res.Accepted)
	c.Extra("struct types", res.Types)
	c.Extra("common inputs", res.Inputs)
	c.Extra("refused by the generator", len(refused))
	var keys []string
	for k := range res.Fails {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		c.Fail(k, "struct{ %s: %s", k, res.Fails[k])
	}
}
