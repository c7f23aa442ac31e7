package seq

import (
	"fmt"
	"sync"

	"github.com/ThinkiumGroup/go-common"
)

func bytesToHash(b []byte) common.Hash { return common.BytesToHash(b) }

// rootTable checks that roots and contents determine each other inside a group.
type rootTable struct {
	mu    sync.Mutex
	roots map[string]string // group+content -> root
	conts map[string]string // group+root -> content
}

func newRootTable() *rootTable {
	return &rootTable{roots: map[string]string{}, conts: map[string]string{}}
}

func (t *rootTable) add(group, content string, root []byte) string {
	t.mu.Lock()
	defer t.mu.Unlock()
	if r, ok := t.roots[group+"\x00"+content]; ok && r != string(root) {
		return fmt.Sprintf("contents %s had root %x before, now %x", content, r, root)
	}
	if o, ok := t.conts[group+"\x00"+string(root)]; ok && o != content {
		return fmt.Sprintf("contents %s and %s have the same root %x", content, o, root)
	}
	t.roots[group+"\x00"+content] = string(root)
	t.conts[group+"\x00"+string(root)] = content
	return ""
}
