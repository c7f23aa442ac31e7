package seq

import (
	"sync"

	"verif/harness/fw"
)

// canonRoots maps contents to the root of a trie freshly built from them in key order.
type canonRoots struct {
	c  *fw.Ctx
	mu sync.RWMutex
	m  map[string][]byte
}

func newCanon(c *fw.Ctx) *canonRoots { return &canonRoots{c: c, m: map[string][]byte{}} }

func (cr *canonRoots) root(m map[string]string) []byte {
	id := content(m)
	cr.mu.RLock()
	r, ok := cr.m[id]
	cr.mu.RUnlock()
	if ok {
		return r
	}
	t := openTrie(newFaultDB(), nil)
	for _, k := range sortedKeys(m) {
		t.Put([]byte(k), m[k])
	}
	h, err := t.HashValue()
	if err != nil {
		cr.c.Fail("canonical "+id, "HashValue of a fresh trie failed: %v (contents %s)", err, id)
	}
	r = append([]byte(nil), h...)
	cr.mu.Lock()
	cr.m[id] = r
	cr.mu.Unlock()
	return r
}

// distinct checks that different contents have different roots.
func (cr *canonRoots) distinct(c *fw.Ctx) {
	by := map[string]string{}
	for id, r := range cr.m {
		if o, dup := by[string(r)]; dup {
			c.Fail("collision", "contents\n  %s\nand\n  %s\nhave the same root %x", short(id), short(o), r)
		}
		by[string(r)] = id
	}
	c.Extra("distinct_contents", int64(len(cr.m)))
}
