From f3c01c90de738137d7c85d6b32d77704b5b776f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:02 +0000
Subject: [PATCH 01/77] fix: trie lookups, inserts and deletes matched a node
 whose remaining prefix is longer than the key

---
 trie/trie.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index f07b85d..3fa9987 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -266,7 +266,7 @@ func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]no
 		return nil, false
 	}
 
-	if offset >= len(prefixString) {
+	if offset >= len(prefixString) && !startNode.hasPrefix() {
 		if startNode.hasValue() {
 			return startNode.value, true
 		} else {
@@ -362,7 +362,7 @@ func (t *Trie) insert(startNode *node, prefixString []byte, offset int, value in
 	startNode.generation = t.gen
 
 	// set value to current node and return
-	if offset >= len(prefixString) {
+	if offset >= len(prefixString) && !startNode.hasPrefix() {
 		// no more prefix, no more actions
 		changed, _, delta := startNode.setValue(value)
 		t.valueCount = t.valueCount + delta
@@ -506,7 +506,7 @@ func (t *Trie) delete(startNode *node, prefixString []byte, offset int) (changed
 	startNode.generation = t.gen
 
 	// remove current node value, if no more prefix
-	if offset >= len(prefixString) {
+	if offset >= len(prefixString) && !startNode.hasPrefix() {
 		changed, shouldRemove, oldValue = t.removeValue(startNode)
 		return
 	}
-- 
2.43.0


From 6990fadd4be339dcba95d935ceedb769a0aad6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:21 +0000
Subject: [PATCH 02/77] fix: trie commit reported success when saving a child
 node failed

---
 trie/trie.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index 3fa9987..83b97c7 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -668,7 +668,9 @@ func (t *Trie) iterateSave(node *node) error {
 	// depth-first traversal
 	for i := 0; i < childrenLength; i++ {
 		if node.children[i] != nil {
-			_ = t.iterateSave(node.children[i])
+			if err := t.iterateSave(node.children[i]); err != nil {
+				return err
+			}
 		}
 	}
 	if node.isDirty() {
-- 
2.43.0


From d45609038227af5aa71951374841a890db6fc456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:21 +0000
Subject: [PATCH 03/77] fix: existence proof of a key ending at a node without
 value was reported as an error

---
 trie/proof.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trie/proof.go b/trie/proof.go
index 6ae0ba0..569f28f 100644
--- a/trie/proof.go
+++ b/trie/proof.go
@@ -467,6 +467,10 @@ func (n *NodeProof) ExistenceMatch(keyprefix []byte) (matched bool, valueHash *c
 				// current proof proves node value, there's no valueHash
 				return true, nil, nil, ErrMismatchProof
 			}
+			if !n.Header.NT.HasValue() {
+				// the key ends at a node without value, does not exist
+				return false, nil, nil, nil
+			}
 			if n.ValueHash == nil {
 				return true, nil, nil, ErrMissingValue
 			}
@@ -499,6 +503,10 @@ func (n *NodeProof) ExistenceMatch(keyprefix []byte) (matched bool, valueHash *c
 				// The current node proves value, and there is no ValueHash
 				return true, nil, nil, ErrMismatchProof
 			}
+			if !n.Header.NT.HasValue() {
+				// the key ends at a node without value, does not exist
+				return false, nil, nil, nil
+			}
 			if n.ValueHash == nil {
 				return true, nil, nil, ErrMissingValue
 			}
-- 
2.43.0


From b11f500dbef87769e77535fe397e3df8bd72d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:21 +0000
Subject: [PATCH 04/77] fix: reversed iteration skipped the value of a node
 whose first child exists

---
 trie/iterator.go | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/trie/iterator.go b/trie/iterator.go
index 7aee241..200f691 100644
--- a/trie/iterator.go
+++ b/trie/iterator.go
@@ -363,25 +363,20 @@ func (rt *reversedValueIterator) Next() bool {
 				_ = rt.trie.expandNodeValue(last.node)
 			}
 			last.index--
-			for last.index >= 0 {
-				if last.node.children[last.index] == nil {
-					// nil child, ignore
-					last.index--
-					if last.index < 0 {
-						// check value when the reversedTrace just before poping out
-						if last.node.hasValue() {
-							return true
-						} else {
-							// shortcut, pop node if there's no value
-							_ = last.node.collapse()
-							rt.stack = rt.stack[:len(rt.stack)-1]
-						}
-					}
-				} else {
-					// push child node to stack
-					rt.stack = append(rt.stack, &reversedTrace{node: last.node.children[last.index], index: childrenLength})
-					break
-				}
+			for last.index >= 0 && last.node.children[last.index] == nil {
+				// nil child, ignore
+				last.index--
+			}
+			if last.index >= 0 {
+				// push child node to stack
+				rt.stack = append(rt.stack, &reversedTrace{node: last.node.children[last.index], index: childrenLength})
+			} else if last.node.hasValue() {
+				// check value when the reversedTrace just before poping out
+				return true
+			} else {
+				// shortcut, pop node if there's no value
+				_ = last.node.collapse()
+				rt.stack = rt.stack[:len(rt.stack)-1]
 			}
 		}
 	}
-- 
2.43.0


From 8ef1d67ac9ecaf937866e0a7f37b32b4ef0009d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:02 +0000
Subject: [PATCH 05/77] fix: Dump reported the value of the empty key twice

---
 trie/trie.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 83b97c7..7db60b9 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -1032,9 +1032,6 @@ func (t *Trie) Dump(to db.Database, valueCallback func(key, value []byte)) error
 				if len(n.prefix) > 0 {
 					prefix = append(prefix, n.prefix...)
 				}
-				if len(prefix) == 0 {
-					valueCallback(nil, valuebytes)
-				}
 				if len(prefix)%2 != 0 {
 					return fmt.Errorf("odd length prefix(%s) found a (%d)bytes value",
 						string(prefixToHexstring(prefix)), len(valuebytes))
-- 
2.43.0


From c8d14d7d83e2fbc587762ed727125d0b9ec78acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:32 +0000
Subject: [PATCH 06/77] fix: Dump reported success when a stored node or value
 was missing

---
 trie/trie.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 7db60b9..57a9ace 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -1003,10 +1003,11 @@ func (t *Trie) Dump(to db.Database, valueCallback func(key, value []byte)) error
 		if err != nil {
 			return fmt.Errorf("load node bytes at:%x of root:%x failed: %v", n.hash, rootHash, err)
 		}
-		if len(nodebytes) > 0 {
-			if err = na.Save(n.hash, nodebytes); err != nil {
-				return fmt.Errorf("dump node bytes at:%x of root:%x failed: %v", n.hash, rootHash, err)
-			}
+		if len(nodebytes) == 0 {
+			return fmt.Errorf("node bytes at:%x of root:%x is missing", n.hash, rootHash)
+		}
+		if err = na.Save(n.hash, nodebytes); err != nil {
+			return fmt.Errorf("dump node bytes at:%x of root:%x failed: %v", n.hash, rootHash, err)
 		}
 
 		if err := t.expandNode(n); err != nil {
@@ -1020,6 +1021,9 @@ func (t *Trie) Dump(to db.Database, valueCallback func(key, value []byte)) error
 				return fmt.Errorf("load node value bytes at:%x of root:%x - %x failed: %v",
 					n.valuehash, rootHash, n.hash, err)
 			}
+			if valuebytes == nil {
+				return fmt.Errorf("value bytes at:%x of root:%x - %x is missing", n.valuehash, rootHash, n.hash)
+			}
 			if len(valuebytes) > 0 && va != nil {
 				if err = va.Save(n.valuehash, valuebytes); err != nil {
 					return fmt.Errorf("dump node value bytes at:%x of root:%x - %x failed: %v",
@@ -1027,7 +1031,7 @@ func (t *Trie) Dump(to db.Database, valueCallback func(key, value []byte)) error
 				}
 			}
 			if valueCallback != nil {
-				// value bytes could be nil
+				// value bytes could be empty
 				prefix := it.CurrentPrefix()
 				if len(n.prefix) > 0 {
 					prefix = append(prefix, n.prefix...)
-- 
2.43.0


From 58e690da76d6d5e1b640f893cea8d014e69373f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:46 +0000
Subject: [PATCH 07/77] fix: existence proof claimed absence when a node or
 value on the path could not be loaded

---
 trie/trie.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 57a9ace..bf1aaca 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -262,21 +262,31 @@ func (t *Trie) Get(key []byte) (interface{}, bool) {
 // 		nodePosition.nodeInPos: the node selected for the current lookup
 // 		nodePosition.pos: the index of current startNode.children[] which is the node selected
 func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]nodePosition) (interface{}, bool) {
-	if err := t.fullExpand(startNode); err != nil {
+	value, ok, err := t.find(startNode, prefixString, offset, trace)
+	if err != nil {
 		return nil, false
 	}
+	return value, ok
+}
+
+// same as get, err is not nil when a node or value in the path of the key cannot be loaded, in this
+// case it is unknown whether the value exists
+func (t *Trie) find(startNode *node, prefixString []byte, offset int, trace *[]nodePosition) (value interface{}, ok bool, err error) {
+	if err := t.fullExpand(startNode); err != nil {
+		return nil, false, err
+	}
 
 	if offset >= len(prefixString) && !startNode.hasPrefix() {
 		if startNode.hasValue() {
-			return startNode.value, true
+			return startNode.value, true, nil
 		} else {
-			return nil, false
+			return nil, false, nil
 		}
 	}
 
 	if startNode.isEmpty() {
 		// current node is empty or
-		return nil, false
+		return nil, false, nil
 	}
 
 	suffix := prefixString[offset:]
@@ -294,19 +304,19 @@ func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]no
 		// input prefix is starting with current node's prefix
 		if inRemains == 0 {
 			// if current node prefix matches with input prefix, return current node value
-			return startNode.value, startNode.value != nil
+			return startNode.value, startNode.value != nil, nil
 		}
 		// inRemains > 0, go down the path by child node
 		childIndex := int(suffix[matchLength])
 		if startNode.children[childIndex] == nil {
 			// no child in the path of prefix, return
-			return nil, false
+			return nil, false, nil
 		}
 		// expand child first
 		if startNode.children[childIndex].isCollapsed() {
 			if err := t.expandNode(startNode.children[childIndex]); err != nil {
 				log.Errorf("expand %s error: %s", startNode.children[childIndex], err)
-				return nil, false
+				return nil, false, err
 			}
 		}
 
@@ -314,10 +324,10 @@ func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]no
 		if trace != nil {
 			*trace = append(*trace, nodePosition{suffix[matchLength], startNode.children[childIndex]})
 		}
-		return t.get(startNode.children[childIndex], prefixString, offset+matchLength+1, trace)
+		return t.find(startNode.children[childIndex], prefixString, offset+matchLength+1, trace)
 	} else {
 		// there're remains in current node's prefix not match with input prefix, not found
-		return nil, false
+		return nil, false, nil
 	}
 }
 
@@ -865,7 +875,10 @@ func (t *Trie) getExistenceLocked(key []byte) (exist bool, proofs ProofChain, er
 	trace := make([]nodePosition, 1, 16)
 	trace[0] = nodePosition{pos: childrenLength + 1, nodeInPos: t.root}
 	prefix := keyToPrefix(key)
-	_, exist = t.get(t.root, prefix, 0, &trace)
+	_, exist, err = t.find(t.root, prefix, 0, &trace)
+	if err != nil {
+		return
+	}
 
 	nodeChild := nodePosition{16, nil}
 	l := len(trace)
-- 
2.43.0


From 9d993080025bf8977189c39611788589b52de122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:55 +0000
Subject: [PATCH 08/77] fix: a node whose stored data is damaged was left half
 decoded and then used as loaded

---
 trie/node.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/trie/node.go b/trie/node.go
index 986a406..459c1ff 100644
--- a/trie/node.go
+++ b/trie/node.go
@@ -657,19 +657,19 @@ func (n *node) Deserialization(r io.Reader) (shouldBeNil bool, err error) {
 	if _, err = header.Deserialization(r); err != nil {
 		return
 	}
-	// decode prefix
-	n.prefix = header.KeyToPrefix()
-
+	// the node must not be changed until all of its data is decoded, otherwise a node with damaged
+	// data would be regarded as expanded
 	// decode children
+	children := n.children
 	if header.NT.HasChildren() {
 		// read real child hashs
 		for i := 0; i < childrenLength; i++ {
-			n.children[i] = nil
+			children[i] = nil
 			if header.HasChild(i) {
 				buf := make([]byte, common.HashLength)
 				l, err := io.ReadFull(r, buf)
 				if l == common.HashLength {
-					n.children[i] = NewNodeWithFuncs(buf, n.generation, n.valueEncode, n.valueDecode, n.valueHasher)
+					children[i] = NewNodeWithFuncs(buf, n.generation, n.valueEncode, n.valueDecode, n.valueHasher)
 					if err != nil {
 						log.Warnf("ignored an error occurs when Deserialize node: %v", err)
 					}
@@ -680,11 +680,12 @@ func (n *node) Deserialization(r io.Reader) (shouldBeNil bool, err error) {
 		}
 	}
 	// decode value
+	valuehash := n.valuehash
 	if header.NT.HasValue() {
 		buf := make([]byte, common.HashLength)
 		l, err := io.ReadFull(r, buf)
 		if l == common.HashLength {
-			n.valuehash = buf
+			valuehash = buf
 			if err != nil {
 				log.Warnf("ignored an error occurs when Deserialize node: %v", err)
 			}
@@ -693,6 +694,11 @@ func (n *node) Deserialization(r io.Reader) (shouldBeNil bool, err error) {
 		}
 	}
 
+	// decode prefix
+	n.prefix = header.KeyToPrefix()
+	n.children = children
+	n.valuehash = valuehash
+
 	return false, nil
 }
 
-- 
2.43.0


From 144a215491cf1971f7fac7382df81c416a9e073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:09 +0000
Subject: [PATCH 09/77] fix: an empty combined trie could not be committed or
 reopened from its root

---
 trie/combinedtrie.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trie/combinedtrie.go b/trie/combinedtrie.go
index 14a0155..7b1836b 100644
--- a/trie/combinedtrie.go
+++ b/trie/combinedtrie.go
@@ -226,6 +226,10 @@ func (c *SmallCombinedTrie) saveRoot() error {
 		log.Warn("SmallCombinedTrie save root without DataAdapter")
 		return nil
 	}
+	if len(c.keys) == 0 {
+		// the root of an empty trie is NilHash, there is nothing to save
+		return nil
+	}
 	buf := new(bytes.Buffer)
 	for i := 0; i < len(c.keys); i++ {
 		t, ok := c.valueMap[c.keys[i]]
@@ -257,7 +261,7 @@ func (c *SmallCombinedTrie) saveRoot() error {
 // TODO optimization needed
 func (c *SmallCombinedTrie) loadRoot(rootHash []byte, nadapter db.DataAdapter, vadapter db.DataAdapter,
 	encode NodeValueEncode, decode NodeValueDecode, hasher NodeValueHasher) error {
-	if rootHash == nil {
+	if rootHash == nil || bytes.Equal(rootHash, common.NilHashSlice) {
 		return nil
 	}
 	value, err := c.adapter.Load(rootHash)
-- 
2.43.0


From 1939ddb2cb963ed083cb88a4443a7a62d66cfed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:13 +0000
Subject: [PATCH 10/77] fix: reverting to the first check point dropped the
 changes made before it

---
 trie/revertable.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/trie/revertable.go b/trie/revertable.go
index 5754d25..097a56d 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -314,12 +314,19 @@ func (r *RevertableTrie) RevertTo(checkPoint int, root []byte) error {
 	if h != r.chkpts[checkPoint] {
 		return ErrNotExist
 	}
+	if r.Origin == nil {
+		return common.ErrNil
+	}
+	origin, err := r.Origin.HashValue()
+	if err != nil {
+		return err
+	}
 	r.chkpts = r.chkpts[:checkPoint]
-	if len(r.chkpts) == 0 {
-		r.chkpts = nil
+	if common.BytesToHash(origin) == h {
 		r.Live = nil
 	} else {
-		r.Live = r.Live.Inherit(root)
+		// the trie at the checkpoint may already have had changes that are not in Origin
+		r.Live = r.Origin.Inherit(root)
 	}
 	return nil
 }
-- 
2.43.0


From a3c97979499b943e34c7e81e5b4c2fcc69dd1077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 11/77] fix: a revertable trie lost its base view when the base
 could not be committed before the first change

---
 trie/revertable.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trie/revertable.go b/trie/revertable.go
index 097a56d..830ebbd 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -89,6 +89,10 @@ func (r *RevertableTrie) checkLiveLocked() error {
 		if r.Origin == nil {
 			return common.ErrNil
 		}
+		// the clone is loaded from what has been committed
+		if err := r.Origin.Commit(); err != nil {
+			return err
+		}
 		r.Live = r.Origin
 		r.Origin = r.Live.Clone()
 	}
-- 
2.43.0


From cb11f5384e33f46831c91e35f76966c578667787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 12/77] fix: HistoryTree.Has locked itself out and never
 returned

---
 trie/historytree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index 18bde69..37ebc68 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -416,7 +416,7 @@ func (h *HistoryTree) Has(key uint64) bool {
 	h.lock.Lock()
 	defer h.lock.Unlock()
 
-	_, exist := h.Get(key)
+	_, exist := h._get(key)
 	return exist
 }
 
@@ -424,6 +424,10 @@ func (h *HistoryTree) Get(key uint64) (value []byte, exist bool) {
 	h.lock.Lock()
 	defer h.lock.Unlock()
 
+	return h._get(key)
+}
+
+func (h *HistoryTree) _get(key uint64) (value []byte, exist bool) {
 	prefix := heightToPrefix(key)
 	var err error
 	_, value, exist, err = h.root.traceDescendant(h.adapter, prefix, 0, false, nil)
-- 
2.43.0


From 4eaf463516d2279af774662f7fa675fb351ee601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 13/77] fix: CollapseBefore dereferenced a node that a partial
 history tree does not hold

---
 trie/historytree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trie/historytree.go b/trie/historytree.go
index 37ebc68..53fa98f 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -371,6 +371,10 @@ func (h *HistoryTree) CollapseBefore(key uint64) error {
 	if parentNode.IsLeaf() {
 		return common.ErrIllegalStatus
 	}
+	if parentNode.Children[index-1] == nil {
+		// a tree restored from proofs does not hold the preceding node, nothing to collapse
+		return nil
+	}
 	if parentNode.Children[index-1].isDirty {
 		return common.ErrIllegalStatus
 	}
-- 
2.43.0


From 8e05b953fc3a0a584983e471db8b49e124b3345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:45 +0000
Subject: [PATCH 14/77] fix: expanding a history tree node that is not stored
 or unreadable erased it, so proofs could not be merged next to it

---
 trie/historytree.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index 53fa98f..04f3c78 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -34,6 +34,9 @@ const (
 	ValueKeyLength   = 4  // The height of the tree in each node is 4 (to reach value after 4 nodes)
 )
 
+// the data of a node is not in the database, only its hash is known
+var errNodeNotStored = errors.New("history tree node not found in database")
+
 // An 8-byte unsigned integer (block height) is serialized into 8 bytes in
 // big-endian (high order first) order, and then create a complete binary
 // tree with one nibble one level of TreeNode
@@ -509,6 +512,12 @@ func (h *HistoryTree) MergeProof(key uint64, value []byte, proofs ProofChain) er
 	prefix := heightToPrefix(key)
 	tracers := make([]nodeTracer, 0)
 	_, _, leafvalue, exist, err := locateNode(h.root, prefix, h.adapter, &tracers)
+	if err == errNodeNotStored && len(tracers) > 0 {
+		// the last node on the path is known by its hash only (it came with the proof of another
+		// key), it will be created by the proof
+		tracers = tracers[:len(tracers)-1]
+		err = nil
+	}
 	if err != nil {
 		return fmt.Errorf("locateNode by %d -> (%x) failed: %v", key, prefix, err)
 	}
@@ -1038,8 +1047,8 @@ func (n *TreeNode) readFull(root []byte, adapter db.DataAdapter) error {
 		return common.ErrNil
 	}
 
-	n.Reset()
 	if len(root) == 0 || bytes.Compare(root, common.NilHashSlice) == 0 {
+		n.Reset()
 		return nil
 	}
 
@@ -1049,17 +1058,19 @@ func (n *TreeNode) readFull(root []byte, adapter db.DataAdapter) error {
 	}
 
 	if len(content) == 0 {
-		return nil
+		return errNodeNotStored
 	}
 
 	loadEntire := false
+	// decode to a new node first, a node that could not be loaded must remain collapsed
+	node := NewTreeNode()
 
 	// When the first byte is 0xff, it indicates that the content is the serialization of the
 	// *serialNode; otherwise, it indicates that the content is only the value
 	if content[0] == 0x1 {
-		n.isLeaf = true
+		node.isLeaf = true
 	} else if content[0] == 0x0 {
-		n.isLeaf = false
+		node.isLeaf = false
 	} else if content[0] == 0xff {
 		loadEntire = true
 	} else {
@@ -1073,11 +1084,14 @@ func (n *TreeNode) readFull(root []byte, adapter db.DataAdapter) error {
 		if err = rtl.Decode(vr, sn); err != nil {
 			return err
 		}
-		n.fromSerialNode(adapter, sn)
+		node.fromSerialNode(adapter, sn)
 	} else {
-		err = n.decodeDescendants(adapter, vr)
+		if err = node.decodeDescendants(adapter, vr); err != nil {
+			return err
+		}
 	}
-	return err
+	*n = *node
+	return nil
 }
 
 // Remove all ancestors on the path indicated by prefix from the Branchs cache
@@ -1222,11 +1236,8 @@ func (n *TreeNode) _mergeHashItems(adapter db.DataAdapter, index int, value []by
 							if err := n.Children[p].putValue(adapter, nil, h.Bytes()); err != nil {
 								return err
 							}
-						} else {
-							if err := n.Children[p].putValue(adapter, nil, h.Bytes()); err != nil {
-								return err
-							}
 						}
+						// an existing node has the same hash, because the roots are the same
 					}
 				}
 			} else {
-- 
2.43.0


From 3e8c9eb9a629fb1a67c74012089edac0d3c3300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:32 +0000
Subject: [PATCH 15/77] fix: a history tree with merged proofs was reopened or
 cloned at a wrong expecting index

---
 trie/historytree.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index 04f3c78..118ef20 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -729,13 +729,11 @@ func (n *TreeNode) rightmostChild(checkPrecedingNil bool) (index int, child *Tre
 		if n.Children[i] != nil {
 			index = i
 			child = n.Children[i]
-			// once a non-nil value presented, it returns immediately when nil present.
-			// That is, only preceding continuous nil is allowed
-			checkPrecedingNil = true
 		} else {
 			if checkPrecedingNil {
 				return
 			}
+			// merged proofs may leave gaps anywhere before the rightmost one
 		}
 	}
 	// return childrenLength - 1, child
@@ -778,13 +776,11 @@ func (n *TreeNode) rightmostLeaf(checkPrecedingNil bool) (index int, leaf []byte
 		if n.Leafs[i] != nil {
 			index = i
 			leaf = n.Leafs[i]
-			// once a non-nil value presented, it returns immediately when nil present.
-			// That is, only preceding continuous nil is allowed
-			checkPrecedingNil = true
 		} else {
 			if checkPrecedingNil {
 				return
 			}
+			// merged proofs may leave gaps anywhere before the rightmost one
 		}
 	}
 	// return childrenLength - 1, leaf
-- 
2.43.0


From 68ca051b8dec09068f300dd966074e79cc78a4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:20 +0000
Subject: [PATCH 16/77] fix: a history tree holding the largest key accepted
 key 0 again

---
 trie/historytree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trie/historytree.go b/trie/historytree.go
index 118ef20..c047b34 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -393,6 +393,10 @@ func (h *HistoryTree) Append(key uint64, value []byte) (err error) {
 	if key != h.expecting {
 		return common.ErrIllegalParams
 	}
+	if h.expecting == 0 && h.root != nil && h.root.isEmpty() == false {
+		// the largest key has been appended, there is no next one
+		return common.ErrIllegalStatus
+	}
 
 	if len(value) == 0 {
 		return common.ErrIllegalStatus
-- 
2.43.0


From 8ec3911a8bb026323680e71f9e1dbccd86b4af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:07 +0000
Subject: [PATCH 17/77] fix: committing a cut history tree saved nothing

---
 trie/historytree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trie/historytree.go b/trie/historytree.go
index c047b34..ef837e8 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -1720,6 +1720,7 @@ func (n *TreeNode) _chop(index int, indexingChanged bool) (newnode *TreeNode, ch
 	}
 	node := NewTreeNode()
 	node.isLeaf = n.isLeaf
+	node.isDirty = true // it may never have been saved
 	if n.isLeaf {
 		if n.Leafs[index] == nil {
 			return nil, false, fmt.Errorf("no leaf value at index:%d", index)
@@ -1772,6 +1773,10 @@ func (n *TreeNode) _chop(index int, indexingChanged bool) (newnode *TreeNode, ch
 func (h *HistoryTree) Chop(byKey uint64) (*HistoryTree, error) {
 	h.lock.Lock()
 	defer h.lock.Unlock()
+	// the new tree only has the hashes of the nodes beside the path, they will be loaded from database
+	if err := h._commit(); err != nil {
+		return nil, fmt.Errorf("commit failed: %v", err)
+	}
 	prefix := heightToPrefix(byKey)
 	cursor := h.root
 	var newroot, lastnode, newnode *TreeNode
-- 
2.43.0


From c42131234a3b150a49bb45c3e01f1afd28d626f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:14 +0000
Subject: [PATCH 18/77] fix: a revertable history tree lost its base when it
 could not be committed and cloned before the first change

---
 trie/revertable.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/trie/revertable.go b/trie/revertable.go
index 830ebbd..769782f 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -354,8 +354,16 @@ func (h *RevertableHistoryTree) _checkLive() error {
 		if h.Origin == nil {
 			return common.ErrNil
 		}
+		// the clone is loaded from what has been committed
+		if err := h.Origin.Commit(); err != nil {
+			return err
+		}
+		origin := h.Origin.Clone()
+		if origin == nil {
+			return common.ErrIllegalStatus
+		}
 		h.Live = h.Origin
-		h.Origin = h.Live.Clone()
+		h.Origin = origin
 	}
 	return nil
 }
-- 
2.43.0


From 403461013a3dd1f3e528a862d1d5c8d135170b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:50 +0000
Subject: [PATCH 19/77] fix: MerkleProofs decoding failed or took wrong bytes
 when the reader returned less than asked for

---
 hash.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash.go b/hash.go
index 77dc56f..8b7eeea 100644
--- a/hash.go
+++ b/hash.go
@@ -476,14 +476,14 @@ func writeArray(array []byte, buf []byte, w io.Writer) error {
 }
 
 func readArray(sizeBuf []byte, r io.Reader) ([]byte, error) {
-	_, err := r.Read(sizeBuf)
+	_, err := io.ReadFull(r, sizeBuf)
 	if err != nil {
 		return nil, err
 	}
 	size := binary.BigEndian.Uint16(sizeBuf)
 	array := make([]byte, size)
 	if size > 0 {
-		_, err = r.Read(array)
+		_, err = io.ReadFull(r, array)
 		if err != nil {
 			return array, err
 		}
@@ -573,7 +573,7 @@ func (p *MerkleProofs) Serialization(w io.Writer) error {
 
 func (p *MerkleProofs) Deserialization(r io.Reader) (shouldBeNil bool, err error) {
 	flag := make([]byte, 1)
-	_, err = r.Read(flag)
+	_, err = io.ReadFull(r, flag)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From e2e24c8457d0da5e8e5f5a185b217deeaeec2dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:50 +0000
Subject: [PATCH 20/77] fix: MerkleHashCompleteOld overwrote the caller's array
 behind a sub-slice

---
 hash.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hash.go b/hash.go
index 8b7eeea..1c0fe95 100644
--- a/hash.go
+++ b/hash.go
@@ -815,6 +815,8 @@ func MerkleHashCompleteOld(hashList [][]byte, toBeProof int, proofs *MerkleProof
 	for max < len(hashList) {
 		max <<= 1
 	}
+	// the backing array of hashList belongs to the caller
+	hashList = append(make([][]byte, 0, max), hashList...)
 	for i := len(hashList); i < max; i++ {
 		hashList = append(hashList, CopyBytes(NilHashSlice))
 	}
-- 
2.43.0


From 0a70b748ef1c7630b98faa6b75506251b9deaeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:07 +0000
Subject: [PATCH 21/77] fix: MoreTimes.IsValid refused repeats of the first
 hash

---
 hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash.go b/hash.go
index 1c0fe95..374bb70 100644
--- a/hash.go
+++ b/hash.go
@@ -123,7 +123,7 @@ func (ms MoreTimes) IsValid() bool {
 	if len(ms) == 0 {
 		return false
 	}
-	lastIndex := 0
+	lastIndex := -1
 	for _, m := range ms {
 		if !m.IsValid() {
 			return false
-- 
2.43.0


From 2d8b5791c8aca69dfd2607b4ee17394f26606621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:35 +0000
Subject: [PATCH 22/77] fix: a cached store claimed to have a key after reading
 it as missing, and shared cached values with callers

---
 db/cacheddb.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/db/cacheddb.go b/db/cacheddb.go
index 962c98a..3aaaffa 100644
--- a/db/cacheddb.go
+++ b/db/cacheddb.go
@@ -110,14 +110,18 @@ func (d *cachedDB) Get(key []byte) ([]byte, error) {
 	v, ok := d.cache.Get(ckey)
 	if ok {
 		atomic.AddUint64(&(d.hitcount), 1)
-		return v.([]byte), nil
+		return CopySlice(v.([]byte)), nil
 	}
 	atomic.AddUint64(&(d.misscount), 1)
 	r, err := d.baseDB.Get(key)
 	if err != nil {
 		return nil, err
 	}
-	d.cache.Add(ckey, r)
+	if r != nil {
+		// the cached value must not be shared with the caller, and a missing key must not be cached
+		// as an existing one
+		d.cache.Add(ckey, CopySlice(r))
+	}
 	return r, nil
 }
 
-- 
2.43.0


From 96ca52576e1d90b742f20a4f962fb90a1808f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:35 +0000
Subject: [PATCH 23/77] fix: LDB.Batch reported success when the batch could
 not be written

---
 db/ldb.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/db/ldb.go b/db/ldb.go
index 6aa8a14..9c2d006 100644
--- a/db/ldb.go
+++ b/db/ldb.go
@@ -101,8 +101,7 @@ func (db *LDB) Batch(batch Batch) error {
 	if !ok {
 		return fmt.Errorf("illegal batch type, expect *ldbBatch, but %v", batch)
 	}
-	db.db.Write(lb.b, nil)
-	return nil
+	return db.db.Write(lb.b, nil)
 }
 
 type ldbBatch struct {
-- 
2.43.0


From db695e52e7c4c5f9d0c7baff48fb6e2613380e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:36 +0000
Subject: [PATCH 24/77] fix: BatchWrite dropped the pending writes when the
 last element was skipped

---
 db/types.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/db/types.go b/db/types.go
index f0eeaff..30eb5c5 100644
--- a/db/types.go
+++ b/db/types.go
@@ -99,7 +99,7 @@ func BatchWrite(dbase Database, threshold, length int,
 			continue
 		}
 		index = index + 1
-		if index == threshold || i == (length-1) {
+		if index == threshold {
 			if err = dbase.Batch(batch); err != nil {
 				return count, err
 			}
@@ -107,5 +107,11 @@ func BatchWrite(dbase Database, threshold, length int,
 			index = 0
 		}
 	}
+	if index > 0 {
+		if err = dbase.Batch(batch); err != nil {
+			return count, err
+		}
+		count = count + index
+	}
 	return count, nil
 }
-- 
2.43.0


From 0d8a1c401a8371cf14b6866771e7e45bab4b736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:37 +0000
Subject: [PATCH 25/77] fix: a memory batch silently dropped puts it could not
 take and changed with the buffers of its caller

---
 db/memdb.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/db/memdb.go b/db/memdb.go
index 857f88b..9cc2e3b 100644
--- a/db/memdb.go
+++ b/db/memdb.go
@@ -123,12 +123,15 @@ func (m *MemDB) Close() error {
 }
 
 func (b *memBatch) Put(key, value []byte) error {
-	b.cmds = append(b.cmds, &batcher{typ: putBatcher, key: key, value: value})
+	if key == nil || value == nil {
+		return common.ErrNil
+	}
+	b.cmds = append(b.cmds, &batcher{typ: putBatcher, key: CopySlice(key), value: CopySlice(value)})
 	return nil
 }
 
 func (b *memBatch) Delete(key []byte) error {
-	b.cmds = append(b.cmds, &batcher{typ: deleteBatcher, key: key})
+	b.cmds = append(b.cmds, &batcher{typ: deleteBatcher, key: CopySlice(key)})
 	return nil
 }
 
-- 
2.43.0


From 5f0a44c80ecd37d953fa32298d8111b71188fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:37 +0000
Subject: [PATCH 26/77] fix: batches of key prefixed adapters could not be
 applied

---
 db/adapters.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/db/adapters.go b/db/adapters.go
index dd99fa5..8c988d3 100644
--- a/db/adapters.go
+++ b/db/adapters.go
@@ -64,6 +64,14 @@ func (k *KeyBatch) Delete(key []byte) error {
 	}
 }
 
+// the batch of the database below, to which a batch created by one of the adapters writes
+func unwrapKeyBatch(batch Batch) Batch {
+	if kb, ok := batch.(*KeyBatch); ok {
+		return kb.batch
+	}
+	return batch
+}
+
 func (k *KeyBatch) Size() int {
 	return k.batch.Size()
 }
@@ -122,7 +130,7 @@ func (k *keyPrefixedDataAdapter) NewBatch() Batch {
 }
 
 func (k *keyPrefixedDataAdapter) SaveBatch(batch Batch) error {
-	return k.database.Batch(batch)
+	return k.database.Batch(unwrapKeyBatch(batch))
 }
 
 /*
@@ -201,7 +209,7 @@ func (d *KeyDatabase) NewBatch() Batch {
 }
 
 func (d *KeyDatabase) Batch(batch Batch) error {
-	return d.database.Batch(batch)
+	return d.database.Batch(unwrapKeyBatch(batch))
 }
 
 func (d *KeyDatabase) Close() error {
-- 
2.43.0


From 086653dbd937ce788a82ffdd9991474a17746f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:38 +0000
Subject: [PATCH 27/77] fix: writing into a batch of a read only database
 crashed instead of being refused

---
 db/readonly.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db/readonly.go b/db/readonly.go
index 849868e..d9d17eb 100644
--- a/db/readonly.go
+++ b/db/readonly.go
@@ -31,7 +31,8 @@ func (r *readOnlyDB) Delete(key []byte) error {
 }
 
 func (r *readOnlyDB) NewBatch() Batch {
-	return nil
+	// can be filled, but is refused by Batch
+	return &memBatch{}
 }
 
 func (r *readOnlyDB) Batch(batch Batch) error {
-- 
2.43.0


From e6c7d88dfe6d3a198990f2af2ade3b6936edd891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:40 +0000
Subject: [PATCH 28/77] fix: ABI.Pack without arguments returned the method's
 own selector slice

---
 abi/abi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/abi.go b/abi/abi.go
index e040ffd..bc56966 100644
--- a/abi/abi.go
+++ b/abi/abi.go
@@ -78,7 +78,7 @@ func (abi ABI) Pack(name string, args ...interface{}) ([]byte, error) {
 		return nil, err
 	}
 	// Pack up the method ID too if not a constructor and return
-	return append(method.ID, arguments...), nil
+	return append(append(make([]byte, 0, len(method.ID)+len(arguments)), method.ID...), arguments...), nil
 }
 
 func (abi ABI) PackEventArgs(name string, args ...interface{}) ([]byte, error) {
-- 
2.43.0


From 1f483880e1cdedd67d110743f71be95735aba11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:16 +0000
Subject: [PATCH 29/77] fix: packing a nil value as an ABI argument panicked
 instead of being refused

---
 abi/error_handling.go | 4 +++-
 abi/reflect.go        | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/abi/error_handling.go b/abi/error_handling.go
index 7add707..bf22b3a 100644
--- a/abi/error_handling.go
+++ b/abi/error_handling.go
@@ -39,7 +39,7 @@ func formatSliceString(kind reflect.Kind, sliceSize int) string {
 // type in t.
 func sliceTypeCheck(t Type, val reflect.Value) error {
 	if val.Kind() != reflect.Slice && val.Kind() != reflect.Array {
-		return typeErr(formatSliceString(t.GetType().Kind(), t.Size), val.Type())
+		return typeErr(formatSliceString(t.GetType().Kind(), t.Size), val.Kind())
 	}
 
 	if t.T == ArrayTy && val.Len() != t.Size {
@@ -68,6 +68,8 @@ func typeCheck(t Type, value reflect.Value) error {
 	// Check base type validity. Element types will be checked later on.
 	if t.GetType().Kind() != value.Kind() {
 		return typeErr(t.GetType().Kind(), value.Kind())
+	} else if value.Kind() == reflect.Ptr && (value.IsNil() || value.Type() != t.GetType()) {
+		return typeErr(t.GetType(), value.Type())
 	} else if t.T == FixedBytesTy && t.Size != value.Len() {
 		return typeErr(t.GetType(), value.Type())
 	} else {
diff --git a/abi/reflect.go b/abi/reflect.go
index 7917fa9..c12cf4f 100644
--- a/abi/reflect.go
+++ b/abi/reflect.go
@@ -50,7 +50,7 @@ func ConvertType(in interface{}, proto interface{}) interface{} {
 // indirect recursively dereferences the value until it either gets the value
 // or finds a big.Int
 func indirect(v reflect.Value) reflect.Value {
-	if v.Kind() == reflect.Ptr && v.Elem().Type() != reflect.TypeOf(big.Int{}) {
+	if v.Kind() == reflect.Ptr && !v.IsNil() && v.Elem().Type() != reflect.TypeOf(big.Int{}) {
 		return indirect(v.Elem())
 	}
 	return v
-- 
2.43.0


From b9227d638055911b5ec8a8b8da6e5145b687ae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:36 +0000
Subject: [PATCH 30/77] fix: arrays of another length or element type were
 packed as ABI addresses, functions and fixed bytes

---
 abi/error_handling.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abi/error_handling.go b/abi/error_handling.go
index bf22b3a..beb754a 100644
--- a/abi/error_handling.go
+++ b/abi/error_handling.go
@@ -70,7 +70,8 @@ func typeCheck(t Type, value reflect.Value) error {
 		return typeErr(t.GetType().Kind(), value.Kind())
 	} else if value.Kind() == reflect.Ptr && (value.IsNil() || value.Type() != t.GetType()) {
 		return typeErr(t.GetType(), value.Type())
-	} else if t.T == FixedBytesTy && t.Size != value.Len() {
+	} else if value.Kind() == reflect.Array && (t.GetType().Len() != value.Len() || value.Type().Elem().Kind() != reflect.Uint8) {
+		// bytesN, address and function are byte arrays of their own length
 		return typeErr(t.GetType(), value.Type())
 	} else {
 		return nil
-- 
2.43.0


From c79c544eb57e745977e2d3a56be85e140477d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:44 +0000
Subject: [PATCH 31/77] fix: fixed bytes longer than a word were accepted as a
 type and read and written outside of their word

---
 abi/type.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abi/type.go b/abi/type.go
index 17be76f..1902f54 100644
--- a/abi/type.go
+++ b/abi/type.go
@@ -154,6 +154,9 @@ func NewType(t string, internalType string, components []ArgumentMarshaling) (ty
 		if varSize == 0 {
 			typ.T = BytesTy
 		} else {
+			if varSize > 32 {
+				return Type{}, fmt.Errorf("unsupported arg type: %s", t)
+			}
 			typ.T = FixedBytesTy
 			typ.Size = varSize
 		}
-- 
2.43.0


From e0856247357bcf8344438fcba6c052e0f7d91b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:18 +0000
Subject: [PATCH 32/77] fix: unpacking into an array or struct of another shape
 recursed forever or panicked instead of being refused

---
 abi/reflect.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/abi/reflect.go b/abi/reflect.go
index c12cf4f..90911e9 100644
--- a/abi/reflect.go
+++ b/abi/reflect.go
@@ -135,8 +135,11 @@ func setSlice(dst, src reflect.Value) error {
 }
 
 func setArray(dst, src reflect.Value) error {
-	if src.Kind() == reflect.Ptr {
-		return set(dst, indirect(src))
+	if v := indirect(src); v.Kind() != reflect.Ptr && src.Kind() == reflect.Ptr {
+		return set(dst, v)
+	}
+	if src.Kind() != reflect.Array && src.Kind() != reflect.Slice {
+		return fmt.Errorf("abi: cannot unmarshal %v in to %v", src.Type(), dst.Type())
 	}
 	array := reflect.New(dst.Type()).Elem()
 	min := src.Len()
@@ -156,6 +159,9 @@ func setArray(dst, src reflect.Value) error {
 }
 
 func setStruct(dst, src reflect.Value) error {
+	if src.Kind() != reflect.Struct || src.NumField() > dst.NumField() {
+		return fmt.Errorf("abi: cannot unmarshal %v in to %v", src.Type(), dst.Type())
+	}
 	for i := 0; i < src.NumField(); i++ {
 		srcField := src.Field(i)
 		dstField := dst.Field(i)
-- 
2.43.0


From ef0a24af2bc8dc834b9c219b5282527009bd80a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:18 +0000
Subject: [PATCH 33/77] fix: only the low 8 bytes of the offset of a dynamic
 ABI array were looked at

---
 abi/unpack.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/abi/unpack.go b/abi/unpack.go
index f7d3080..bf610e2 100644
--- a/abi/unpack.go
+++ b/abi/unpack.go
@@ -225,9 +225,9 @@ func toGoType(index int, t Type, output []byte) (interface{}, error) {
 		return forEachUnpack(t, output[begin:], 0, length)
 	case ArrayTy:
 		if isDynamicType(*t.Elem) {
-			offset := binary.BigEndian.Uint64(returnOutput[len(returnOutput)-8:])
-			if offset > uint64(len(output)) {
-				return nil, fmt.Errorf("abi: toGoType offset greater than output length: offset: %d, len(output): %d", offset, len(output))
+			offset, err := tuplePointsTo(index, output)
+			if err != nil {
+				return nil, err
 			}
 			return forEachUnpack(t, output[offset:], 0, t.Size)
 		}
-- 
2.43.0


From 6c33a5fc70262e3efb06486e1ddb78eb7870b813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 34/77] fix: event logs were decoded wrongly when an indexed
 argument follows a non-indexed one or is of a dynamic type

---
 abi/abi.go      |  7 +++++--
 abi/thinkium.go | 10 ++++++----
 abi/topics.go   | 44 ++++++++++++++++++++++++--------------------
 3 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/abi/abi.go b/abi/abi.go
index bc56966..d7071ce 100644
--- a/abi/abi.go
+++ b/abi/abi.go
@@ -460,11 +460,11 @@ func (abi ABI) EventString(topics []common.Hash, data []byte) (string, error) {
 		}
 		if arg.Indexed {
 			indexes++
-			j := 1 + i
+			j := indexes
 			if j >= len(topics) {
 				return "", fmt.Errorf("%d topic is missing", j)
 			}
-			value, err := toGoType(0, arg.Type, topics[j][:])
+			value, err := parseTopic(arg.Type, topics[j])
 			if err != nil {
 				return "", fmt.Errorf("%d topic unpack failed: %v", j, err)
 			}
@@ -474,6 +474,9 @@ func (abi ABI) EventString(topics []common.Hash, data []byte) (string, error) {
 			buf.WriteString(abi._argString(arg.Name, val))
 		}
 	}
+	if len(topics) != indexes+1 {
+		return "", fmt.Errorf("%d topics expected, got %d", indexes+1, len(topics))
+	}
 	buf.WriteByte(')')
 	return buf.String(), nil
 }
diff --git a/abi/thinkium.go b/abi/thinkium.go
index 8ee5dda..3260c49 100644
--- a/abi/thinkium.go
+++ b/abi/thinkium.go
@@ -98,20 +98,22 @@ func (abi ABI) UnpackEvent(v interface{}, topics []common.Hash, data []byte) err
 	for i, arg := range args {
 		if arg.Indexed {
 			indexes++
-			j := 1 + i
+			j := indexes
 			if j >= len(topics) {
 				return fmt.Errorf("%d topic is missing", j)
 			}
-			value, err := toGoType(0, arg.Type, topics[j][:])
+			value, err := parseTopic(arg.Type, topics[j])
 			if err != nil {
 				return fmt.Errorf("%d topic unpack failed: %w", j, err)
 			}
 			ret = append(ret, value)
 		} else {
-			break
+			ret = append(ret, values[i-indexes])
 		}
 	}
-	ret = append(ret, values...)
+	if len(topics) != indexes+1 {
+		return fmt.Errorf("%d topics expected, got %d", indexes+1, len(topics))
+	}
 	return args.CopyEvent(v, ret)
 }
 
diff --git a/abi/topics.go b/abi/topics.go
index 5ff3aa6..0010818 100644
--- a/abi/topics.go
+++ b/abi/topics.go
@@ -142,27 +142,12 @@ func parseTopicWithSetter(fields Arguments, topics []common.Hash, setter func(Ar
 		if !arg.Indexed {
 			return errors.New("non-indexed field in topic reconstruction")
 		}
-		var reconstr interface{}
-		switch arg.Type.T {
-		case TupleTy:
+		if arg.Type.T == TupleTy {
 			return errors.New("tuple type in topic reconstruction")
-		case StringTy, BytesTy, SliceTy, ArrayTy:
-			// Array types (including strings and bytes) have their keccak256 hashes stored in the topic- not a hash
-			// whose bytes can be decoded to the actual value- so the best we can do is retrieve that hash
-			reconstr = topics[i]
-		case FunctionTy:
-			if garbage := binary.BigEndian.Uint64(topics[i][0:8]); garbage != 0 {
-				return fmt.Errorf("bind: got improperly encoded function type, got %v", topics[i].Bytes())
-			}
-			var tmp [24]byte
-			copy(tmp[:], topics[i][8:32])
-			reconstr = tmp
-		default:
-			var err error
-			reconstr, err = toGoType(0, arg.Type, topics[i].Bytes())
-			if err != nil {
-				return err
-			}
+		}
+		reconstr, err := parseTopic(arg.Type, topics[i])
+		if err != nil {
+			return err
 		}
 		// Use the setter function to store the value
 		setter(arg, reconstr)
@@ -170,3 +155,22 @@ func parseTopicWithSetter(fields Arguments, topics []common.Hash, setter func(Ar
 
 	return nil
 }
+
+// parseTopic reconstructs the value of an indexed argument of type t from its topic.
+func parseTopic(t Type, topic common.Hash) (interface{}, error) {
+	switch t.T {
+	case StringTy, BytesTy, SliceTy, ArrayTy, TupleTy:
+		// Array and tuple types (including strings and bytes) have their keccak256 hashes stored in the topic- not a
+		// hash whose bytes can be decoded to the actual value- so the best we can do is retrieve that hash
+		return topic, nil
+	case FunctionTy:
+		if garbage := binary.BigEndian.Uint64(topic[0:8]); garbage != 0 {
+			return nil, fmt.Errorf("bind: got improperly encoded function type, got %v", topic.Bytes())
+		}
+		var tmp [24]byte
+		copy(tmp[:], topic[8:32])
+		return tmp, nil
+	default:
+		return toGoType(0, t, topic.Bytes())
+	}
+}
-- 
2.43.0


From 09f539fbdafa1d7c0aeb4125cbcf4b77ba6e36a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 35/77] fix: topics of negative integers lost their sign and
 oversized values panicked

---
 abi/topics.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/abi/topics.go b/abi/topics.go
index 0010818..b71f438 100644
--- a/abi/topics.go
+++ b/abi/topics.go
@@ -24,6 +24,7 @@ import (
 	"reflect"
 
 	"github.com/ThinkiumGroup/go-common"
+	"github.com/ThinkiumGroup/go-common/math"
 )
 
 // MakeTopics converts a filter query argument list into a filter topic set.
@@ -40,8 +41,10 @@ func MakeTopics(query ...[]interface{}) ([][]common.Hash, error) {
 			case common.Address:
 				copy(topic[common.HashLength-common.AddressLength:], rule[:])
 			case *big.Int:
-				blob := rule.Bytes()
-				copy(topic[common.HashLength-len(blob):], blob)
+				if rule == nil || rule.Cmp(MaxUint256) > 0 || new(big.Int).Not(rule).Cmp(MaxInt256) > 0 {
+					return nil, fmt.Errorf("integer out of the range of a topic: %v", rule)
+				}
+				copy(topic[:], math.U256Bytes(new(big.Int).Set(rule)))
 			case bool:
 				if rule {
 					topic[common.HashLength-1] = 1
@@ -85,7 +88,7 @@ func MakeTopics(query ...[]interface{}) ([][]common.Hash, error) {
 				val := reflect.ValueOf(rule)
 				switch {
 				// static byte array
-				case val.Kind() == reflect.Array && reflect.TypeOf(rule).Elem().Kind() == reflect.Uint8:
+				case val.Kind() == reflect.Array && val.Len() <= common.HashLength && reflect.TypeOf(rule).Elem().Kind() == reflect.Uint8:
 					reflect.Copy(reflect.ValueOf(topic[:val.Len()]), val)
 				default:
 					return nil, fmt.Errorf("unsupported indexed type: %T", rule)
-- 
2.43.0


From faed2f9b7fdf478deffdd1a347aa096bdbd4149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:59 +0000
Subject: [PATCH 36/77] fix: ParseSelector panicked without a parameter list
 and accepted any separator and a list of parameter lists

---
 abi/selector_parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/abi/selector_parser.go b/abi/selector_parser.go
index d5472e3..fb0a2cb 100644
--- a/abi/selector_parser.go
+++ b/abi/selector_parser.go
@@ -85,14 +85,14 @@ func parseElementaryType(unescapedSelector string) (string, string, error) {
 
 func parseCompositeType(unescapedSelector string) ([]interface{}, string, error) {
 	if len(unescapedSelector) == 0 || unescapedSelector[0] != '(' {
-		return nil, "", fmt.Errorf("expected '(', got %c", unescapedSelector[0])
+		return nil, "", fmt.Errorf("expected '(', got '%s'", unescapedSelector)
 	}
 	parsedType, rest, err := parseType(unescapedSelector[1:])
 	if err != nil {
 		return nil, "", fmt.Errorf("failed to parse type: %v", err)
 	}
 	result := []interface{}{parsedType}
-	for len(rest) > 0 && rest[0] != ')' {
+	for len(rest) > 0 && rest[0] == ',' {
 		parsedType, rest, err = parseType(rest[1:])
 		if err != nil {
 			return nil, "", fmt.Errorf("failed to parse type: %v", err)
@@ -161,6 +161,9 @@ func ParseSelector(unescapedSelector string) (SelectorMarshaling, error) {
 		if err != nil {
 			return SelectorMarshaling{}, fmt.Errorf("failed to parse selector '%s': %v", unescapedSelector, err)
 		}
+		if args[len(args)-1] == "[]" {
+			return SelectorMarshaling{}, fmt.Errorf("failed to parse selector '%s': unexpected string '[]'", unescapedSelector)
+		}
 	}
 	if len(rest) > 0 {
 		return SelectorMarshaling{}, fmt.Errorf("failed to parse selector '%s': unexpected string '%s'", unescapedSelector, rest)
-- 
2.43.0


From 0d37ebac473e2542fa00d1d52a0b4059ebb99c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:59 +0000
Subject: [PATCH 37/77] fix: a put reported as failed after the base store had
 taken it left the old value in the cache

---
 db/cacheddb.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/db/cacheddb.go b/db/cacheddb.go
index 3aaaffa..5d7db16 100644
--- a/db/cacheddb.go
+++ b/db/cacheddb.go
@@ -84,11 +84,8 @@ func (d *cachedDB) Put(key, value []byte) error {
 	d.lock.Lock()
 	defer d.lock.Unlock()
 	d.writecount++
-	if err := d.baseDB.Put(key, value); err != nil {
-		return err
-	}
 	d.cache.Remove(string(key))
-	return nil
+	return d.baseDB.Put(key, value)
 }
 
 func (d *cachedDB) Has(key []byte) (bool, error) {
-- 
2.43.0


From 841c0dafa07f96849c404c302a0d7374e98d5671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 38/77] fix: iterating over a malformed RLP list never ended

---
 rlp/iterator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rlp/iterator.go b/rlp/iterator.go
index 6be5745..13c03b8 100644
--- a/rlp/iterator.go
+++ b/rlp/iterator.go
@@ -44,9 +44,12 @@ func (it *listIterator) Next() bool {
 		return false
 	}
 	_, t, c, err := readKind(it.data)
+	if err != nil {
+		it.data, it.next, it.err = nil, nil, err
+		return false
+	}
 	it.next = it.data[:t+c]
 	it.data = it.data[t+c:]
-	it.err = err
 	return true
 }
 
-- 
2.43.0


From d37b3d1f423f4afb466a88f07871cb5dd60bbb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:50 +0000
Subject: [PATCH 39/77] fix: math.Exp changed its base argument

---
 math/big.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/big.go b/math/big.go
index 1da29d3..0ead476 100644
--- a/math/big.go
+++ b/math/big.go
@@ -258,6 +258,7 @@ func S256(x *big.Int) *big.Int {
 // Courtesy @karalabe and @chfast
 func Exp(base, exponent *big.Int) *big.Int {
 	result := big.NewInt(1)
+	base = new(big.Int).Set(base)
 
 	for _, word := range exponent.Bits() {
 		for i := 0; i < wordBits; i++ {
-- 
2.43.0


From 481e01528bba7b6a523dba9d3b923b59b3a22534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:51 +0000
Subject: [PATCH 40/77] fix: rationals beyond the precision of a float were
 converted to wrong integers

---
 math/big.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/math/big.go b/math/big.go
index 0ead476..a5cd3cf 100644
--- a/math/big.go
+++ b/math/big.go
@@ -19,7 +19,6 @@ package math
 
 import (
 	"fmt"
-	"math"
 	"math/big"
 )
 
@@ -407,24 +406,22 @@ func CopyBigRat(x *big.Rat) *big.Rat {
 // return the smallest integer not less than r. If r is too large or divided by 0,
 // nomeans is true, and x is meaningless
 func RatToInt64(r *big.Rat) (x int64, nomeans bool) {
-	f, _ := r.Float64()
-	if math.IsNaN(f) || math.IsInf(f, 0) || f > float64(math.MaxInt64) || f < float64(math.MinInt64) {
+	q := new(big.Int).Add(r.Num(), r.Denom())
+	q.Sub(q, Big1)
+	q.Div(q, r.Denom())
+	if !q.IsInt64() {
 		return 0, true
 	}
-	x = int64(f)
-	if float64(x) < f {
-		x += 1
-	}
-	return x, false
+	return q.Int64(), false
 }
 
 // lower round of r
 func RatToInt64Floor(r *big.Rat) (x int64, nomeans bool) {
-	f, _ := r.Float64()
-	if math.IsNaN(f) || math.IsInf(f, 0) || f > float64(math.MaxInt64) || f < float64(math.MinInt64) {
+	q := new(big.Int).Div(r.Num(), r.Denom())
+	if !q.IsInt64() {
 		return 0, true
 	}
-	return int64(f), false
+	return q.Int64(), false
 }
 
 func CompareBigInt(a, b *big.Int) int {
-- 
2.43.0


From 621b2ecbd810c0099a53196f794263dbd1541b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:52 +0000
Subject: [PATCH 41/77] fix: nil BigInts compared below negative ones and had
 no hex form

---
 math/big.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/math/big.go b/math/big.go
index a5cd3cf..1ca56b2 100644
--- a/math/big.go
+++ b/math/big.go
@@ -621,17 +621,11 @@ func (b *BigInt) IsZero() bool {
 }
 
 func (b *BigInt) Compare(o *BigInt) int {
-	if b.IsZero() && o.IsZero() {
-		return 0
-	}
-	return CompareBigInt((*big.Int)(b), (*big.Int)(o))
+	return b.CompareInt((*big.Int)(o))
 }
 
 func (b *BigInt) CompareInt(i *big.Int) int {
-	if b.IsZero() && (*BigInt)(i).IsZero() {
-		return 0
-	}
-	return CompareBigInt((*big.Int)(b), i)
+	return b.MustInt().Cmp(MustBigInt(i))
 }
 
 func (b *BigInt) MustPositive() *BigInt {
@@ -646,7 +640,7 @@ func (b *BigInt) String() string {
 }
 
 func (b *BigInt) HexString() string {
-	bs := (*big.Int)(b).Bytes()
+	bs := b.MustInt().Bytes()
 	if len(bs) == 0 {
 		return "0"
 	}
-- 
2.43.0


From d1b58ecfc1b1283e76bbf62a721b0057b335996e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:48 +0000
Subject: [PATCH 42/77] fix: SetBytes with short input left bytes of the
 previous value in place

---
 basic.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/basic.go b/basic.go
index 193d83a..2c430dc 100644
--- a/basic.go
+++ b/basic.go
@@ -407,7 +407,10 @@ func (nid *NodeID) SetBytes(b []byte) {
 	if len(b) > len(nid) {
 		b = b[len(b)-NodeIDBytes:]
 	}
-	copy(nid[NodeIDBytes-len(b):], b)
+	n := copy(nid[NodeIDBytes-len(b):], b)
+	for i := 0; i < NodeIDBytes-n; i++ {
+		nid[i] = 0
+	}
 }
 
 func (nid NodeID) MarshalText() ([]byte, error) {
@@ -1282,7 +1285,10 @@ func (a *Address) SetBytes(b []byte) {
 	if len(b) > len(a) {
 		b = b[len(b)-AddressLength:]
 	}
-	copy(a[AddressLength-len(b):], b)
+	n := copy(a[AddressLength-len(b):], b)
+	for i := 0; i < AddressLength-n; i++ {
+		a[i] = 0
+	}
 }
 
 // MarshalText returns the hex representation of a.
@@ -1467,7 +1473,10 @@ func (h *Hash) SetBytes(b []byte) {
 		b = b[len(b)-HashLength:]
 	}
 
-	copy(h[HashLength-len(b):], b)
+	n := copy(h[HashLength-len(b):], b)
+	for i := 0; i < HashLength-n; i++ {
+		h[i] = 0
+	}
 }
 
 // Generate implements testing/quick.Generator.
@@ -1661,7 +1670,10 @@ func (s *Seed) SetBytes(b []byte) *Seed {
 		b = b[len(b)-SeedLength:]
 	}
 
-	copy(s[SeedLength-len(b):], b)
+	n := copy(s[SeedLength-len(b):], b)
+	for i := 0; i < SeedLength-n; i++ {
+		s[i] = 0
+	}
 	return s
 }
 
-- 
2.43.0


From 7efd965c33b68013f003697c9f8b6151f1fa6ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:49 +0000
Subject: [PATCH 43/77] fix: NodeIDSet lost track of positions after a
 deletion, listed zero ids and was read without its lock

---
 basic.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/basic.go b/basic.go
index 2c430dc..b4ff3de 100644
--- a/basic.go
+++ b/basic.go
@@ -652,9 +652,14 @@ func (ns *NodeIDSet) Delete(id *NodeID) {
 	copy(ns.l[i:], ns.l[i+1:])
 	ns.l = ns.l[:len(ns.l)-1]
 	delete(ns.m, *id)
+	for ; i < len(ns.l); i++ {
+		ns.m[*(ns.l[i])] = i
+	}
 }
 
 func (ns *NodeIDSet) Get(i int) (*NodeID, bool) {
+	ns.lock.RLock()
+	defer ns.lock.RUnlock()
 	if i < 0 || i >= len(ns.l) {
 		return nil, false
 	}
@@ -672,16 +677,17 @@ func (ns *NodeIDSet) GetIndex(id *NodeID) (int, bool) {
 }
 
 func (ns *NodeIDSet) GetNodeIDs(chainid ChainID) NodeIDs {
-	if len(ns.l) > 0 {
-		nids := make(NodeIDs, len(ns.l))
-		sort.Sort(ns)
-		for i := 0; i < len(ns.l); i++ {
-			nids = append(nids, *ns.l[i])
-		}
-		return nids
-	} else {
-		return make(NodeIDs, 0)
-	}
+	ns.lock.Lock()
+	defer ns.lock.Unlock()
+	sort.Slice(ns.l, func(i, j int) bool {
+		return ns.l[i].Compare(ns.l[j]) < 0
+	})
+	nids := make(NodeIDs, 0, len(ns.l))
+	for i := 0; i < len(ns.l); i++ {
+		ns.m[*(ns.l[i])] = i
+		nids = append(nids, *ns.l[i])
+	}
+	return nids
 }
 
 func (e EraNum) IsNil() bool {
-- 
2.43.0


From a94784b0c86f3e25f3c3bf5282278ef1f7da5e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 44/77] fix: an address shard whose prefix ends at the first
 bit of a byte ignored that bit

---
 shardinfo.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/shardinfo.go b/shardinfo.go
index b71d330..eed7090 100644
--- a/shardinfo.go
+++ b/shardinfo.go
@@ -44,15 +44,12 @@ func (p BitIndex) BitPos() uint {
 	return uint(p) & 0x7
 }
 
-// returns higher n bits of b, which n is is the bit index of the lowest byte
+// returns the highest bits of b, up to and including the bit at the index of the lowest byte
 func (p BitIndex) Mask(b byte) byte {
 	bits := p.BitPos()
 	if bits == 7 {
 		return b
 	}
-	if bits == 0 {
-		return 0
-	}
 	sh := 7 - bits
 	bb := b >> sh
 	bb = bb << sh
@@ -102,13 +99,13 @@ func (s *AddressShard) IsValid() bool {
 	if s == nil {
 		return false
 	}
-	if s.Index <= 0 {
+	if s.Index < 0 {
 		return false
 	}
-	if s.Index > (AddressLength * 8) {
+	if s.Index >= (AddressLength * 8) {
 		return false
 	}
-	if (len(s.Value) * 8) < int(s.Index) {
+	if (len(s.Value) * 8) <= int(s.Index) {
 		return false
 	}
 	return true
-- 
2.43.0


From ada394072cacbc9866c5c7f87ffa28e9ac8d5a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:52 +0000
Subject: [PATCH 45/77] fix: Bits.Bits returned one bit too many and Bits.Bit
 panicked on a negative index

---
 shardinfo.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/shardinfo.go b/shardinfo.go
index eed7090..cbb5671 100644
--- a/shardinfo.go
+++ b/shardinfo.go
@@ -59,7 +59,7 @@ func (p BitIndex) Mask(b byte) byte {
 // return true if the bit at index is 1, otherwise return false
 func (bs Bits) Bit(index BitIndex) bool {
 	bytePos := index.BytePos()
-	if bytePos >= len(bs) {
+	if bytePos < 0 || bytePos >= len(bs) {
 		return false
 	}
 	bitPos := index.BitPos()
@@ -74,16 +74,8 @@ func (bs Bits) Bits(length int) []bool {
 		return nil
 	}
 	r := make([]bool, 0, length)
-	x := BitIndex(length).BytePos()
-	y := BitIndex(length).BitPos()
-	var j uint
-	for i := 0; i < len(bs) && i <= x; i++ {
-		for j = 0; j < 8; j++ {
-			r = append(r, ((bs[i]>>(7-j))&0x1) == 0x1)
-			if i >= x && j >= y {
-				break
-			}
-		}
+	for i := 0; i < length && i < len(bs)*8; i++ {
+		r = append(r, bs.Bit(BitIndex(i)))
 	}
 	return r
 }
-- 
2.43.0


From 08d5d08dbd5f58340a7d523f33a23b561bb95bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:53 +0000
Subject: [PATCH 46/77] fix: with 256 shards an address was assigned by its
 second byte instead of its leading bits

---
 shardinfo.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shardinfo.go b/shardinfo.go
index cbb5671..1ef910b 100644
--- a/shardinfo.go
+++ b/shardinfo.go
@@ -180,7 +180,10 @@ func NewAccountShards(parent ChainStruct, chains []ChainID) AccountShards {
 
 func (s AccountShards) index(addr *Address) int {
 	// The number of bytes required is calculated according to the mask length
-	byteSize := (s.maskBits >> 3) + 1
+	byteSize := (s.maskBits + 7) >> 3
+	if byteSize == 0 {
+		return 0
+	}
 
 	// Convert the obtained byte to a number
 	bs := addr[0:byteSize]
-- 
2.43.0


From 8e624cf547833347062becf66d410a82394f4bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:54 +0000
Subject: [PATCH 47/77] fix: boot nodes were not found when written in mixed
 case or listed by chain, and removing from an empty list reported a removal

---
 chaininfo.go | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/chaininfo.go b/chaininfo.go
index 0f65cb6..d8e78d1 100644
--- a/chaininfo.go
+++ b/chaininfo.go
@@ -744,16 +744,11 @@ func (c *ChainInfos) Index(nid NodeID) int {
 }
 
 func (c *ChainInfos) AddBootNode(bootNode Dataserver) bool {
-	if len(c.BootNodes) == 0 {
-		c.BootNodes = append(c.BootNodes, bootNode)
-		return true
-	}
-
-	i := sort.Search(len(c.BootNodes), func(i int) bool {
-		return c.BootNodes[i].NodeIDString >= bootNode.NodeIDString
-	})
-	if i < len(c.BootNodes) && c.BootNodes[i].NodeIDString == bootNode.NodeIDString {
-		return false
+	for i := 0; i < len(c.BootNodes); i++ {
+		// hex strings in different cases are the same node id
+		if strings.EqualFold(c.BootNodes[i].NodeIDString, bootNode.NodeIDString) {
+			return false
+		}
 	}
 	c.BootNodes = append(c.BootNodes, bootNode)
 	sort.Slice(c.BootNodes, func(i, j int) bool {
@@ -763,16 +758,8 @@ func (c *ChainInfos) AddBootNode(bootNode Dataserver) bool {
 }
 
 func (c *ChainInfos) RemoveBootNode(node NodeID) bool {
-	if len(c.BootNodes) == 0 {
-		return true
-	}
 	// check and remove boot server
-	i := sort.Search(len(c.BootNodes), func(i int) bool {
-		s, _ := hex.DecodeString(c.BootNodes[i].NodeIDString)
-		return bytes.Compare(s[:], node[:]) >= 0
-	})
-
-	if i < len(c.BootNodes) {
+	for i := 0; i < len(c.BootNodes); i++ {
 		s, _ := hex.DecodeString(c.BootNodes[i].NodeIDString)
 		if bytes.Equal(s[:], node[:]) {
 			bdatas := make([]Dataserver, len(c.BootNodes)-1)
@@ -803,9 +790,6 @@ func (c *ChainInfos) AddDataNode(node NodeID) bool {
 }
 
 func (c *ChainInfos) RemoveDataNode(node NodeID) bool {
-	if len(c.Datas) == 0 {
-		return true
-	}
 	k := sort.Search(len(c.Datas), func(i int) bool {
 		return bytes.Compare(c.Datas[i][:], node[:]) >= 0
 	})
-- 
2.43.0


From 898c8904b158fa6f3b4c9cf28fed7c2554fe8db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:56 +0000
Subject: [PATCH 48/77] fix: NewChainStruct gave the main chain a parent, which
 Validate refuses

---
 chaininfo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chaininfo.go b/chaininfo.go
index d8e78d1..cb0e1ca 100644
--- a/chaininfo.go
+++ b/chaininfo.go
@@ -595,6 +595,9 @@ func NewChainStruct(id, parentId ChainID) (cs *ChainStruct, err error) {
 		}
 		return nil, errors.New("only main chain or single chain's parent can be nil")
 	}
+	if id.IsMain() {
+		return nil, errors.New("main chain has no parent")
+	}
 	cs = &ChainStruct{ID: id, ParentID: parentId}
 	if parentId.IsMain() {
 		cs.Mode = Branch
-- 
2.43.0


From 6db39ca0022b79f6631aefd8fc5fb4762e3d4808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:27 +0000
Subject: [PATCH 49/77] fix: printing an array value, a string, an empty slice
 or from a negative position panicked

---
 bytes.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bytes.go b/bytes.go
index 6112388..9b41841 100644
--- a/bytes.go
+++ b/bytes.go
@@ -23,9 +23,15 @@ import (
 )
 
 func startAndEnd(length, startPos, endPos int) (start, end int) {
+	if length <= 0 {
+		return 0, 0
+	}
 	if startPos >= length {
 		startPos = length - 1
 	}
+	if startPos < 0 {
+		startPos = 0
+	}
 	if endPos < 0 {
 		endPos = length
 	}
@@ -60,6 +66,11 @@ func ForPrintValue(val reflect.Value, startPos, endPos int) []byte {
 		if typ.Elem().Kind() != reflect.Uint8 {
 			return []byte{}
 		}
+		if !val.CanAddr() {
+			addressable := reflect.New(typ).Elem()
+			addressable.Set(val)
+			val = addressable
+		}
 		startPos, endPos = startAndEnd(val.Len(), startPos, endPos)
 		s = val.Slice(startPos, endPos).Bytes()
 	case reflect.Slice:
@@ -70,7 +81,7 @@ func ForPrintValue(val reflect.Value, startPos, endPos int) []byte {
 		s = val.Slice(startPos, endPos).Bytes()
 	case reflect.String:
 		startPos, endPos = startAndEnd(val.Len(), startPos, endPos)
-		s = val.Slice(startPos, endPos).Bytes()
+		s = []byte(val.String()[startPos:endPos])
 	default:
 		return []byte{}
 	}
-- 
2.43.0


From 0c7a8350f339d1dc7a34175fb21391d77df63424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:28 +0000
Subject: [PATCH 50/77] fix: splitting bytes by a non-positive size and
 sub-ranging by a huge one panicked

---
 bytes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bytes.go b/bytes.go
index 9b41841..aa8c3da 100644
--- a/bytes.go
+++ b/bytes.go
@@ -241,6 +241,9 @@ func LeftPadBytes(slice []byte, l int) []byte {
 
 // Divide bs into slices according to size, and each slice length is size
 func SplitBytes(bs []byte, size int) ([][]byte, error) {
+	if size <= 0 {
+		return nil, errors.New(fmt.Sprintf("illegal size: %d", size))
+	}
 	if len(bs)%size != 0 {
 		return nil, errors.New(fmt.Sprintf("input length illegal: (%d)%%(%d)!=0", len(bs), size))
 	}
@@ -370,7 +373,7 @@ func SubBytes(bs []byte, from, size int) ([]byte, error) {
 	if from >= bsBitSize {
 		return nil, nil
 	}
-	if size+from > bsBitSize {
+	if size > bsBitSize-from {
 		size = bsBitSize - from
 	}
 
-- 
2.43.0


From 6fb6000d436668880b2dea2d44ef48d3bb2543bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:29 +0000
Subject: [PATCH 51/77] fix: InfoString panicked on nil pointers to printable
 values

---
 types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types.go b/types.go
index e111139..a652ff7 100644
--- a/types.go
+++ b/types.go
@@ -306,6 +306,9 @@ func (l IndentLevel) _valueInfo(v reflect.Value) string {
 		return "N/A"
 	}
 	o := v.Interface()
+	if p := reflect.ValueOf(o); p.Kind() == reflect.Ptr && p.IsNil() {
+		return "<nil>"
+	}
 	switch obj := o.(type) {
 	case []byte:
 		return hexutil.Encode(obj)
-- 
2.43.0


From 5807fe3bf4a5ae00641952d5297013530b3aec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:31 +0000
Subject: [PATCH 52/77] fix: HashRipemd160 returned its input followed by the
 hash of nothing

---
 hash.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hash.go b/hash.go
index 374bb70..edadddb 100644
--- a/hash.go
+++ b/hash.go
@@ -750,7 +750,8 @@ func CipherHash256(pro HashProvider, in ...[]byte) []byte {
 
 func HashRipemd160(data []byte) []byte {
 	md := ripemd160.New()
-	return md.Sum(data)
+	md.Write(data)
+	return md.Sum(nil)
 }
 
 func SlicesToHashs(bss [][]byte) [][]byte {
-- 
2.43.0


From fb3ae2b2ba1446655386b1823e9a6a510872a0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:04 +0000
Subject: [PATCH 53/77] fix: removing the last node of a chain left an empty
 list, which hashes differently from none

---
 chaininfo.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/chaininfo.go b/chaininfo.go
index cb0e1ca..b86a8ea 100644
--- a/chaininfo.go
+++ b/chaininfo.go
@@ -765,9 +765,9 @@ func (c *ChainInfos) RemoveBootNode(node NodeID) bool {
 	for i := 0; i < len(c.BootNodes); i++ {
 		s, _ := hex.DecodeString(c.BootNodes[i].NodeIDString)
 		if bytes.Equal(s[:], node[:]) {
-			bdatas := make([]Dataserver, len(c.BootNodes)-1)
-			copy(bdatas, c.BootNodes[:i])
-			copy(bdatas[i:], c.BootNodes[i+1:])
+			var bdatas []Dataserver
+			bdatas = append(bdatas, c.BootNodes[:i]...)
+			bdatas = append(bdatas, c.BootNodes[i+1:]...)
 			c.BootNodes = bdatas
 			return true
 		}
@@ -797,9 +797,9 @@ func (c *ChainInfos) RemoveDataNode(node NodeID) bool {
 		return bytes.Compare(c.Datas[i][:], node[:]) >= 0
 	})
 	if k < len(c.Datas) && bytes.Equal(c.Datas[k][:], node[:]) {
-		ndatas := make(NodeIDs, len(c.Datas)-1)
-		copy(ndatas, c.Datas[:k])
-		copy(ndatas[k:], c.Datas[k+1:])
+		var ndatas NodeIDs
+		ndatas = append(ndatas, c.Datas[:k]...)
+		ndatas = append(ndatas, c.Datas[k+1:]...)
 		c.Datas = ndatas
 		return true
 	}
-- 
2.43.0


From 915bba44f2b67ed188890aaded32ffb1c6c748c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 54/77] fix: a service whose Init, Start or Close failed
 counted as initialized, started or stopped

---
 types.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/types.go b/types.go
index a652ff7..4d9cd15 100644
--- a/types.go
+++ b/types.go
@@ -157,12 +157,14 @@ func (s *AbstractService) SetChanger(changer ServiceStateChanger) {
 func (s *AbstractService) Init() error {
 	s.serviceLocker.Lock()
 	defer s.serviceLocker.Unlock()
+	old := s.serviceStatus
 	if err := s.serviceStatus.CheckInit(); err != nil {
 		return err
 	}
 
 	if s.InitFunc != nil {
 		if err := s.InitFunc(); err != nil {
+			s.serviceStatus = old
 			return err
 		}
 	}
@@ -172,12 +174,14 @@ func (s *AbstractService) Init() error {
 func (s *AbstractService) Start() error {
 	s.serviceLocker.Lock()
 	defer s.serviceLocker.Unlock()
+	old := s.serviceStatus
 	if err := s.serviceStatus.CheckStart(); err != nil {
 		return err
 	}
 
 	if s.StartFunc != nil {
 		if err := s.StartFunc(); err != nil {
+			s.serviceStatus = old
 			return err
 		}
 	}
@@ -187,12 +191,14 @@ func (s *AbstractService) Start() error {
 func (s *AbstractService) Close() error {
 	s.serviceLocker.Lock()
 	defer s.serviceLocker.Unlock()
+	old := s.serviceStatus
 	if err := s.serviceStatus.CheckStop(); err != nil {
 		return err
 	}
 
 	if s.CloseFunc != nil {
 		if err := s.CloseFunc(); err != nil {
+			s.serviceStatus = old
 			return err
 		}
 	}
-- 
2.43.0


From 164b32941b965898b6da83cca0a772bf8d0acc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:28 +0000
Subject: [PATCH 55/77] fix: two concurrent LruMap.Add of one key could both
 report it as new

---
 types.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/types.go b/types.go
index 4d9cd15..67c1c3d 100644
--- a/types.go
+++ b/types.go
@@ -231,11 +231,8 @@ func NewLruMap(size int) *LruMap {
 }
 
 func (m *LruMap) Add(key interface{}, value interface{}) bool {
-	if m.Map.Contains(key) {
-		return false
-	}
-	m.Map.Add(key, value)
-	return true
+	exist, _ := m.Map.ContainsOrAdd(key, value)
+	return !exist
 }
 
 func (m *LruMap) Get(key interface{}) interface{} {
-- 
2.43.0


From 8a0e00baa4ac5c73e1bef36dd5cc9a2a1359ef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:41 +0000
Subject: [PATCH 56/77] fix: Trie.Collapse, Count and IsEmpty did not take the
 lock of the trie

---
 trie/trie.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trie/trie.go b/trie/trie.go
index bf1aaca..e163dfb 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -222,10 +222,14 @@ func (t *Trie) hashLocked() ([]byte, error) {
 }
 
 func (t *Trie) Count() int {
+	t.lock.Lock()
+	defer t.lock.Unlock()
 	return t.valueCount
 }
 
 func (t *Trie) IsEmpty() bool {
+	t.lock.Lock()
+	defer t.lock.Unlock()
 	return t.root.isEmpty()
 }
 
@@ -654,6 +658,8 @@ func (t *Trie) Commit() error {
 }
 
 func (t *Trie) Collapse() error {
+	t.lock.Lock()
+	defer t.lock.Unlock()
 	if t.root != nil {
 		if t.root.canCollapse() {
 			if err := t.root.collapse(); err != nil {
-- 
2.43.0


From ddc4317bca2e570abe988c3931ce683d7ffdac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:42 +0000
Subject: [PATCH 57/77] fix: Trie.Dump walked and expanded the nodes without
 the lock of the trie

---
 trie/trie.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index e163dfb..41e56f8 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -984,12 +984,22 @@ func (t *Trie) ReversedValueIterator() ValueIterator {
 }
 
 func (t *Trie) Dump(to db.Database, valueCallback func(key, value []byte)) error {
-	if t == nil || t.root == nil || t.root.isEmpty() {
+	if t == nil {
+		return nil
+	}
+	t.lock.Lock()
+	if t.root == nil || t.root.isEmpty() {
+		t.lock.Unlock()
 		return nil
 	}
 	if t.root.isDirty() {
+		t.lock.Unlock()
 		return errors.New("trie is dirty")
 	}
+	root := t.root.hash
+	t.lock.Unlock()
+	// walk through a trie of its own, others may go on using t
+	t = t.Inherit(root)
 	var err error
 	var na, va db.DatabasedAdapter
 	if tna, ok := t.nodeAdapter.(db.DatabasedAdapter); ok {
-- 
2.43.0


From 66e31b7fdde565dba28fff3a7455a956ccc9656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:42 +0000
Subject: [PATCH 58/77] fix: RevertableTrie.Dump read its origin without the
 lock

---
 trie/revertable.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trie/revertable.go b/trie/revertable.go
index 769782f..ce812cb 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -339,7 +339,10 @@ func (r *RevertableTrie) Dump(to db.Database, valueCallback func(key, value []by
 	if r == nil {
 		return nil
 	}
-	return r.Origin.Dump(to, valueCallback)
+	r.lock.Lock()
+	origin := r.Origin
+	r.lock.Unlock()
+	return origin.Dump(to, valueCallback)
 }
 
 type RevertableHistoryTree struct {
-- 
2.43.0


From af0751c4e0d5704145c5e7ee22c69224365c18ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:17 +0000
Subject: [PATCH 59/77] fix: KeyCount handed out the live map the workers write
 to

---
 routinepool.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/routinepool.go b/routinepool.go
index 9c08999..c033a79 100644
--- a/routinepool.go
+++ b/routinepool.go
@@ -186,7 +186,14 @@ func decKeyCount(key string) {
 }
 
 func KeyCount() map[string]int {
-	return routinePoolKeyCountMap
+	routinePoolKeyCountLock.Lock()
+	defer routinePoolKeyCountLock.Unlock()
+
+	ret := make(map[string]int, len(routinePoolKeyCountMap))
+	for k, v := range routinePoolKeyCountMap {
+		ret[k] = v
+	}
+	return ret
 }
 
 func (p *RoutinePool) PostLower(v interface{}) {
-- 
2.43.0


From b34101ab3a4b08d575d235f6b7229ef0dd62534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:18 +0000
Subject: [PATCH 60/77] fix: a routine pool could not be started again after a
 stop, its workers left at once and Stop panicked

---
 routinepool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/routinepool.go b/routinepool.go
index c033a79..c67c00d 100644
--- a/routinepool.go
+++ b/routinepool.go
@@ -114,7 +114,6 @@ func NewRoutinePool(name string, routineSize int, queueSize int, workFunc Worker
 			workFunc: workFunc,
 		}
 	}
-	ret.wg.Add(routineSize)
 	return ret
 }
 
@@ -133,7 +132,10 @@ func (p *RoutinePool) Start() {
 		return
 	}
 	p.started = true
+	p.quit = make(chan struct{}) // the former one is closed if the pool was stopped
+	p.wg.Add(len(p.workers))
 	for i := 0; i < len(p.workers); i++ {
+		p.workers[i].quit = p.quit
 		go p.workers[i].work()
 	}
 }
-- 
2.43.0


From 99d1513b19cbedca700d4be2cfd031404a6d5d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:58 +0000
Subject: [PATCH 61/77] fix: log.WithField and log.WithFields read the root
 logger without its lock

---
 log/log.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/log/log.go b/log/log.go
index 494bf46..6500192 100644
--- a/log/log.go
+++ b/log/log.go
@@ -187,10 +187,16 @@ func MustErrorf(logger logrus.FieldLogger, format string, args ...interface{}) {
 }
 
 func WithFields(fields logrus.Fields) logrus.FieldLogger {
+	_logLocker.RLock()
+	defer _logLocker.RUnlock()
+
 	return rootLog.WithFields(fields)
 }
 
 func WithField(vs ...interface{}) logrus.FieldLogger {
+	_logLocker.RLock()
+	defer _logLocker.RUnlock()
+
 	if len(vs) <= 1 {
 		return rootLog
 	}
-- 
2.43.0


From 389a799468cbddd3b02a701523256e2385a4f0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:59 +0000
Subject: [PATCH 62/77] fix: log.WithField dropped the second half of the
 fields

---
 log/log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/log.go b/log/log.go
index 6500192..f466330 100644
--- a/log/log.go
+++ b/log/log.go
@@ -202,7 +202,7 @@ func WithField(vs ...interface{}) logrus.FieldLogger {
 	}
 	l := len(vs)
 	fields := make(logrus.Fields)
-	for i := 0; i < l/2; i += 2 {
+	for i := 0; i+1 < l; i += 2 {
 		k, ok := vs[i].(string)
 		if !ok {
 			continue
-- 
2.43.0


From b7fcf2d9430c4e06be77744de6fab494211fc099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:00 +0000
Subject: [PATCH 63/77] fix: InitCheckLog panicked on short node ids

---
 log/cashcheck.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/log/cashcheck.go b/log/cashcheck.go
index 817cf96..69a28e1 100644
--- a/log/cashcheck.go
+++ b/log/cashcheck.go
@@ -19,7 +19,10 @@ func InitCheckLog(path string, nid []byte) {
 	createCCOnce.Do(func() {
 		ccLogLock.Lock()
 		defer ccLogLock.Unlock()
-		checkLogFile := path + ".check." + fmt.Sprintf("%x", nid[:5]) + ".%Y"
+		if len(nid) > 5 {
+			nid = nid[:5]
+		}
+		checkLogFile := path + ".check." + fmt.Sprintf("%x", nid) + ".%Y"
 		checkWriter, err := rotatelogs.New(checkLogFile,
 			rotatelogs.WithMaxAge(-1), rotatelogs.WithRotationTime(time.Hour*24*365))
 		if err != nil {
-- 
2.43.0


From bb3d996017d5e8f040496f7d245b0a5474afc574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:01 +0000
Subject: [PATCH 64/77] fix: the check log panicked when it was not initialized

---
 log/cashcheck.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/log/cashcheck.go b/log/cashcheck.go
index 69a28e1..a841cdd 100644
--- a/log/cashcheck.go
+++ b/log/cashcheck.go
@@ -10,7 +10,8 @@ import (
 )
 
 var (
-	ccLog        *logrus.Logger
+	// nothing is written until it is initialized
+	ccLog        = &logrus.Logger{Out: &EmptyWriter{}, Formatter: &logrus.TextFormatter{}, Level: logrus.PanicLevel}
 	ccLogLock    sync.RWMutex
 	createCCOnce sync.Once
 )
-- 
2.43.0


From 8b62642feed0aa8f146bd1bbbdb9547a4606e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:58 +0000
Subject: [PATCH 65/77] fix: RevertableTrie.Dump failed or dumped uncommitted
 changes when the trie was changed meanwhile

---
 trie/revertable.go |  8 ++++++--
 trie/trie.go       | 27 ++++++++++++++++++++++-----
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/trie/revertable.go b/trie/revertable.go
index ce812cb..8f07d67 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -340,9 +340,13 @@ func (r *RevertableTrie) Dump(to db.Database, valueCallback func(key, value []by
 		return nil
 	}
 	r.lock.Lock()
-	origin := r.Origin
+	// Origin may become the live trie as soon as the lock is released
+	origin, err := r.Origin.committed()
 	r.lock.Unlock()
-	return origin.Dump(to, valueCallback)
+	if err != nil {
+		return err
+	}
+	return origin.dumpNodes(to, valueCallback)
 }
 
 type RevertableHistoryTree struct {
diff --git a/trie/trie.go b/trie/trie.go
index 41e56f8..56b6143 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -983,23 +983,40 @@ func (t *Trie) ReversedValueIterator() ValueIterator {
 	return newReversedValueIterator(newt)
 }
 
-func (t *Trie) Dump(to db.Database, valueCallback func(key, value []byte)) error {
+// committed returns a trie of its own with the committed contents of t, nil if there are none. It
+// fails if t has changes that are not committed.
+func (t *Trie) committed() (*Trie, error) {
 	if t == nil {
-		return nil
+		return nil, nil
 	}
 	t.lock.Lock()
 	if t.root == nil || t.root.isEmpty() {
 		t.lock.Unlock()
-		return nil
+		return nil, nil
 	}
 	if t.root.isDirty() {
 		t.lock.Unlock()
-		return errors.New("trie is dirty")
+		return nil, errors.New("trie is dirty")
 	}
 	root := t.root.hash
 	t.lock.Unlock()
+	return t.Inherit(root), nil
+}
+
+func (t *Trie) Dump(to db.Database, valueCallback func(key, value []byte)) error {
 	// walk through a trie of its own, others may go on using t
-	t = t.Inherit(root)
+	ct, err := t.committed()
+	if err != nil {
+		return err
+	}
+	return ct.dumpNodes(to, valueCallback)
+}
+
+// dumpNodes walks through t, which nobody else uses
+func (t *Trie) dumpNodes(to db.Database, valueCallback func(key, value []byte)) error {
+	if t == nil {
+		return nil
+	}
 	var err error
 	var na, va db.DatabasedAdapter
 	if tna, ok := t.nodeAdapter.(db.DatabasedAdapter); ok {
-- 
2.43.0


From 96e302a583bd7d3bf5783fd096047e8f2f9c3896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:40 +0000
Subject: [PATCH 66/77] fix: NodeProof.IsHeaderPropertyOf compared with the
 hash of a header summary and never recognized a header property

---
 trie/proof.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trie/proof.go b/trie/proof.go
index 569f28f..da008a5 100644
--- a/trie/proof.go
+++ b/trie/proof.go
@@ -590,8 +590,7 @@ func (n *NodeProof) IsHeaderPropertyOf(chainId common.ChainID, height common.Hei
 	if idx, ok := n.PType.IsProofHeaderProperty(); !ok || idx != headerIndex {
 		return false
 	}
-	buf := common.ToHeaderPosHashBuffer(chainId, height)
-	h := common.Hash256NoError(buf[:12])
+	h := common.HeaderIndexHash(common.ToHeaderPosHashBuffer(chainId, height), byte(headerIndex))
 	if bytes.Equal(h, n.ValueHash[:]) {
 		return true
 	}
-- 
2.43.0


From 2a1c5eefc9f9e15b680c4609914d62340aabd6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:23 +0000
Subject: [PATCH 67/77] fix: Trie.UnmarshalNewTrie silently dropped the last
 value of a truncated stream

---
 trie/trie.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 56b6143..c2c8bf3 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -15,6 +15,7 @@
 package trie
 
 import (
+	"bufio"
 	"bytes"
 	"errors"
 	"fmt"
@@ -922,19 +923,21 @@ func (t *Trie) unmarshalNewTrieLocked(r io.Reader, valueType reflect.Type, keyFu
 	trie := NewTrieWithValueFuncs(nil, t.nodeAdapter, t.valueAdapter, t.root.valueEncode,
 		t.root.valueDecode, t.root.valueHasher)
 
-	reader, ok := r.(rtl.ValueReader)
-	if !ok {
-		reader = rtl.NewValueReader(r, 0)
-	}
+	br := bufio.NewReader(r)
+	reader := rtl.NewValueReader(br, 0)
 
-	for reader.HasMore() {
-		newValue := reflect.New(valueType)
-		if err := rtl.Decode(reader, newValue.Interface()); err != nil {
+	for {
+		if _, err := br.Peek(1); err != nil {
 			if err == io.EOF {
 				break
 			}
 			return nil, err
 		}
+		newValue := reflect.New(valueType)
+		// an EOF in the middle of a value is not the end of the stream but a truncated one
+		if err := rtl.Decode(reader, newValue.Interface()); err != nil {
+			return nil, err
+		}
 		nv := newValue.Elem().Interface()
 		if nv != nil {
 			key := keyFunc(nv)
-- 
2.43.0


From a12186d22a4e6e13ead0cc5c19d19e42bfbb80b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:33 +0000
Subject: [PATCH 68/77] fix: SmallCombinedTrie opened a truncated root record
 without the lost tries

---
 trie/combinedtrie.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/trie/combinedtrie.go b/trie/combinedtrie.go
index 7b1836b..773b5f2 100644
--- a/trie/combinedtrie.go
+++ b/trie/combinedtrie.go
@@ -16,6 +16,7 @@ package trie
 
 import (
 	"bytes"
+	"fmt"
 	"io"
 	"sort"
 	"sync"
@@ -273,28 +274,27 @@ func (c *SmallCombinedTrie) loadRoot(rootHash []byte, nadapter db.DataAdapter, v
 	}
 	buf := bytes.NewBuffer(value)
 	vr := rtl.NewValueReader(buf, 0)
-	for vr.HasMore() {
+	var keys, hashs [][]byte
+	for buf.Len() > 0 {
 		k := new([]byte)
 		v := new([]byte)
 		if err := rtl.Decode(vr, k); err != nil {
-			if err == io.EOF {
-				break
-			}
 			return err
 		}
 		if err := rtl.Decode(vr, v); err != nil {
-			if err == io.EOF {
-				break
-			}
 			return err
 		}
-		var key, trieHash []byte
-		if k != nil {
-			key = *k
-		}
-		if v != nil {
-			trieHash = *v
-		}
+		keys = append(keys, *k)
+		hashs = append(hashs, *v)
+	}
+	// a record without all of its tries must not pass for the root
+	if h, err := common.MerkleHashComplete(hashs, -1, nil); err != nil {
+		return err
+	} else if !bytes.Equal(h, rootHash) {
+		return fmt.Errorf("root record of %x is damaged", rootHash)
+	}
+	for i, key := range keys {
+		trieHash := hashs[i]
 		t := NewTrieWithValueFuncs(trieHash, nadapter, vadapter, encode, decode, hasher)
 		s := string(key)
 		_, exist := c.valueMap[s]
-- 
2.43.0


From 28ef74fd06510bd9a46223dbe45277b0d3333373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:39 +0000
Subject: [PATCH 69/77] fix: MarshalAsMap left out the value of the empty key

---
 trie/utils.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/trie/utils.go b/trie/utils.go
index 090ff08..6ea224a 100644
--- a/trie/utils.go
+++ b/trie/utils.go
@@ -166,14 +166,13 @@ func (t *Trie) Marshal(w io.Writer) error {
 func MarshalAsMap(t ITrie, w io.Writer) error {
 	it := t.ValueIterator()
 	for it.Next() {
+		// the key is nil for the value of the empty key
 		k, v := it.Current()
-		if k != nil {
-			if err := rtl.Encode(k, w); err != nil {
-				return err
-			}
-			if err := rtl.Encode(v, w); err != nil {
-				return err
-			}
+		if err := rtl.Encode(k, w); err != nil {
+			return err
+		}
+		if err := rtl.Encode(v, w); err != nil {
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From fc0edf5e8b5949026758a8fb3a582c74653eb311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:59 +0000
Subject: [PATCH 70/77] fix: rlpgen decoders call Stream.String, which did not
 exist

---
 rlp/decode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rlp/decode.go b/rlp/decode.go
index f6cb436..6a37321 100644
--- a/rlp/decode.go
+++ b/rlp/decode.go
@@ -655,6 +655,14 @@ func (s *Stream) Bytes() ([]byte, error) {
 	}
 }
 
+// String reads an RLP string and returns its contents as a Go string.
+// If the input does not contain an RLP string, the returned error will
+// be ErrExpectedString.
+func (s *Stream) String() (string, error) {
+	b, err := s.Bytes()
+	return string(b), err
+}
+
 // ReadBytes decodes the next RLP value and stores the result in b.
 // The value size must match len(b) exactly.
 func (s *Stream) ReadBytes(b []byte) error {
-- 
2.43.0


From 56276289bdc07e4d3ffa98ec3314c43b3edb3600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:01 +0000
Subject: [PATCH 71/77] fix: rlpgen dropped the names of named basic types

---
 rlp/rlpgen/gen.go   | 7 +++++--
 rlp/rlpgen/types.go | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index dd6d89f..6007f3f 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -165,8 +165,11 @@ type basicOp struct {
 	decUseBitSize bool       // if true, result bit size is appended to decMethod
 }
 
-func (*buildContext) makeBasicOp(typ *types.Basic) (op, error) {
+func (*buildContext) makeBasicOp(name *types.Named, typ *types.Basic) (op, error) {
 	op := basicOp{typ: typ}
+	if name != nil {
+		op.typ = name
+	}
 	kind := typ.Kind()
 	switch {
 	case kind == types.Bool:
@@ -709,7 +712,7 @@ func (bctx *buildContext) makeOp(name *types.Named, typ types.Type, tags rlpstru
 		// Default pointer handling.
 		return bctx.makePtrOp(typ.Elem(), tags)
 	case *types.Basic:
-		return bctx.makeBasicOp(typ)
+		return bctx.makeBasicOp(name, typ)
 	case *types.Struct:
 		return bctx.makeStructOp(name, typ)
 	case *types.Slice:
diff --git a/rlp/rlpgen/types.go b/rlp/rlpgen/types.go
index ea7dc96..88b01df 100644
--- a/rlp/rlpgen/types.go
+++ b/rlp/rlpgen/types.go
@@ -68,6 +68,9 @@ func nonZeroCheck(v string, vtyp types.Type, qualify types.Qualifier) string {
 		k := typ.Kind()
 		switch {
 		case k == types.Bool:
+			if vtyp != typ {
+				return fmt.Sprintf("bool(%s)", v)
+			}
 			return v
 		case k >= types.Uint && k <= types.Complex128:
 			return fmt.Sprintf("%s != 0", v)
-- 
2.43.0


From 088bc7ece862def6958e55f5cfec2a80125407ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:04 +0000
Subject: [PATCH 72/77] fix: rlpgen code for pointers to named slices did not
 compile

---
 rlp/rlpgen/gen.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index 6007f3f..624ff6e 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -163,6 +163,7 @@ type basicOp struct {
 	decMethod     string
 	decResultType types.Type // return type of decMethod
 	decUseBitSize bool       // if true, result bit size is appended to decMethod
+	decConvert    bool       // if true, the result is always converted to typ
 }
 
 func (*buildContext) makeBasicOp(name *types.Named, typ *types.Basic) (op, error) {
@@ -194,18 +195,25 @@ func (*buildContext) makeBasicOp(name *types.Named, typ *types.Basic) (op, error
 	return op, nil
 }
 
-func (*buildContext) makeByteSliceOp(typ *types.Slice) op {
+func (*buildContext) makeByteSliceOp(name *types.Named, typ *types.Slice) (op, error) {
 	if !isByte(typ.Elem()) {
 		panic("non-byte slice type in makeByteSliceOp")
 	}
 	bslice := types.NewSlice(types.Typ[types.Uint8])
-	return basicOp{
+	if !types.Identical(typ, bslice) {
+		return nil, fmt.Errorf("unhandled byte slice type: %v", typ)
+	}
+	op := basicOp{
 		typ:           typ,
 		writeMethod:   "WriteBytes",
 		writeArgType:  bslice,
 		decMethod:     "Bytes",
 		decResultType: bslice,
 	}
+	if name != nil {
+		op.typ = name
+	}
+	return op, nil
 }
 
 func (bctx *buildContext) makeRawValueOp() op {
@@ -224,7 +232,7 @@ func (op basicOp) writeNeedsConversion() bool {
 }
 
 func (op basicOp) decodeNeedsConversion() bool {
-	return !types.AssignableTo(op.decResultType, op.typ)
+	return op.decConvert || !types.AssignableTo(op.decResultType, op.typ)
 }
 
 func (op basicOp) genWrite(ctx *genContext, v string) string {
@@ -412,6 +420,11 @@ func (bctx *buildContext) makePtrOp(elemTyp types.Type, tags rlpstruct.Tags) (op
 	if err != nil {
 		return nil, err
 	}
+	if bop, ok := elemOp.(basicOp); ok && bop.decMethod == "Bytes" {
+		// The address of the result must have the named type.
+		bop.decConvert = !types.Identical(bop.decResultType, bop.typ)
+		elemOp = bop
+	}
 	op := ptrOp{elemTyp: elemTyp, elem: elemOp}
 
 	// Determine nil value.
@@ -632,16 +645,20 @@ func (op structOp) decodeOptionalFields(b *bytes.Buffer, ctx *genContext, result
 
 // sliceOp handles slice types.
 type sliceOp struct {
-	typ    *types.Slice
+	typ    types.Type
 	elemOp op
 }
 
-func (bctx *buildContext) makeSliceOp(typ *types.Slice) (op, error) {
+func (bctx *buildContext) makeSliceOp(name *types.Named, typ *types.Slice) (op, error) {
 	elemOp, err := bctx.makeOp(nil, typ.Elem(), rlpstruct.Tags{})
 	if err != nil {
 		return nil, err
 	}
-	return sliceOp{typ: typ, elemOp: elemOp}, nil
+	op := sliceOp{typ: typ, elemOp: elemOp}
+	if name != nil {
+		op.typ = name
+	}
+	return op, nil
 }
 
 func (op sliceOp) genWrite(ctx *genContext, v string) string {
@@ -718,12 +735,12 @@ func (bctx *buildContext) makeOp(name *types.Named, typ types.Type, tags rlpstru
 	case *types.Slice:
 		etyp := typ.Elem()
 		if isByte(etyp) && !bctx.isEncoder(etyp) {
-			return bctx.makeByteSliceOp(typ), nil
+			return bctx.makeByteSliceOp(name, typ)
 		}
-		return bctx.makeSliceOp(typ)
+		return bctx.makeSliceOp(name, typ)
 	case *types.Array:
 		etyp := typ.Elem()
-		if isByte(etyp) && !bctx.isEncoder(etyp) {
+		if isByte(etyp) && !bctx.isEncoder(etyp) && types.Identical(etyp, types.Typ[types.Uint8]) {
 			return bctx.makeByteArrayOp(name, typ), nil
 		}
 		return nil, fmt.Errorf("unhandled array type: %v", typ)
-- 
2.43.0


From ba68b376717a41ff91ccbc4cd7658f18fbe4cade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:06 +0000
Subject: [PATCH 73/77] fix: rlpgen compared optional structs that are not
 comparable

---
 rlp/rlpgen/types.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rlp/rlpgen/types.go b/rlp/rlpgen/types.go
index 88b01df..6694407 100644
--- a/rlp/rlpgen/types.go
+++ b/rlp/rlpgen/types.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"go/types"
 	"reflect"
+	"strings"
 )
 
 // typeReflectKind gives the reflect.Kind that represents typ.
@@ -61,6 +62,9 @@ func typeReflectKind(typ types.Type) reflect.Kind {
 
 // nonZeroCheck returns the expression that checks whether 'v' is a non-zero value of type 'vtyp'.
 func nonZeroCheck(v string, vtyp types.Type, qualify types.Qualifier) string {
+	if isBigInt(vtyp) {
+		return fmt.Sprintf("%s.Sign() != 0", v)
+	}
 	// Resolve type name.
 	typ := resolveUnderlying(vtyp)
 	switch typ := typ.(type) {
@@ -80,6 +84,15 @@ func nonZeroCheck(v string, vtyp types.Type, qualify types.Qualifier) string {
 			panic(fmt.Errorf("unhandled BasicKind %v", k))
 		}
 	case *types.Array, *types.Struct:
+		if st, ok := typ.(*types.Struct); ok && !types.Comparable(st) {
+			// The struct can't be compared, check its fields.
+			var checks []string
+			for i := 0; i < st.NumFields(); i++ {
+				f := st.Field(i)
+				checks = append(checks, nonZeroCheck(v+"."+f.Name(), f.Type(), qualify))
+			}
+			return "(" + strings.Join(checks, " || ") + ")"
+		}
 		return fmt.Sprintf("%s != (%s{})", v, types.TypeString(vtyp, qualify))
 	case *types.Interface, *types.Pointer, *types.Signature:
 		return fmt.Sprintf("%s != nil", v)
-- 
2.43.0


From d543e5f47fbdd1a0c59e4b1274230f31341f09fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:09 +0000
Subject: [PATCH 74/77] fix: rlpgen code for lists of empty structs did not
 compile

---
 rlp/rlpgen/gen.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index 624ff6e..f75a1f9 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -22,6 +22,7 @@ import (
 	"go/format"
 	"go/types"
 	"sort"
+	"strings"
 
 	"github.com/ThinkiumGroup/go-common/rlp/internal/rlpstruct"
 )
@@ -670,7 +671,11 @@ func (op sliceOp) genWrite(ctx *genContext, v string) string {
 
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "%s := w.List()\n", listMarker)
-	fmt.Fprintf(&b, "for _, %s := range %s {\n", iterElemV, v)
+	if strings.Contains(elemCode, iterElemV) {
+		fmt.Fprintf(&b, "for _, %s := range %s {\n", iterElemV, v)
+	} else {
+		fmt.Fprintf(&b, "for range %s {\n", v) // the element has no fields to write
+	}
 	fmt.Fprint(&b, elemCode)
 	fmt.Fprintf(&b, "}\n")
 	fmt.Fprintf(&b, "w.ListEnd(%s)\n", listMarker)
-- 
2.43.0


From 904526766f4483b3339123bc646c2287c4794c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:11 +0000
Subject: [PATCH 75/77] fix: rlpgen took self-encoding bytes for plain ones

---
 rlp/rlpgen/gen.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index f75a1f9..ca422ea 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -65,6 +65,7 @@ func (bctx *buildContext) typeToStructType(typ types.Type) *rlpstruct.Type {
 	}
 
 	// Resolve named types to their underlying type, but keep the name.
+	orig := typ
 	name := types.TypeString(typ, nil)
 	for {
 		utype := typ.Underlying()
@@ -78,10 +79,10 @@ func (bctx *buildContext) typeToStructType(typ types.Type) *rlpstruct.Type {
 	t := &rlpstruct.Type{
 		Name:      name,
 		Kind:      typeReflectKind(typ),
-		IsEncoder: bctx.isEncoder(typ),
-		IsDecoder: bctx.isDecoder(typ),
+		IsEncoder: bctx.isEncoder(orig),
+		IsDecoder: bctx.isDecoder(orig),
 	}
-	bctx.typeToStructCache[typ] = t
+	bctx.typeToStructCache[orig] = t
 
 	// Assign element type.
 	switch typ.(type) {
-- 
2.43.0


From 88bd3319266d2f461cadef178e9707be3bcb6190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:13 +0000
Subject: [PATCH 76/77] fix: rlpgen ignored EncodeRLP of values and called it
 on nil pointers

---
 rlp/rlpgen/gen.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index ca422ea..81ce20a 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -400,11 +400,10 @@ func (op encoderDecoderOp) genWrite(ctx *genContext, v string) string {
 
 func (op encoderDecoderOp) genDecode(ctx *genContext) (string, string) {
 	// DecodeRLP must have pointer receiver, and this is verified in makeOp.
-	etyp := op.typ.(*types.Pointer).Elem()
 	var resultV = ctx.temp()
 
 	var b bytes.Buffer
-	fmt.Fprintf(&b, "%s := new(%s)\n", resultV, types.TypeString(etyp, ctx.qualify))
+	fmt.Fprintf(&b, "var %s %s\n", resultV, types.TypeString(op.typ, ctx.qualify))
 	fmt.Fprintf(&b, "if err := %s.DecodeRLP(dec); err != nil { return err }\n", resultV)
 	return resultV, b.String()
 }
@@ -713,7 +712,19 @@ func (bctx *buildContext) makeOp(name *types.Named, typ types.Type, tags rlpstru
 		if bctx.isDecoder(typ) {
 			return nil, fmt.Errorf("type %v implements rlp.Decoder with non-pointer receiver", typ)
 		}
-		// TODO: same check for encoder?
+		// Encoder/Decoder interfaces, implemented on the pointer. The methods of
+		// the top-level type are the ones being generated.
+		if typ != bctx.topType {
+			enc, dec := bctx.isEncoder(types.NewPointer(typ)), bctx.isDecoder(types.NewPointer(typ))
+			switch {
+			case enc && dec:
+				return encoderDecoderOp{typ}, nil
+			case enc:
+				return nil, fmt.Errorf("type %v implements rlp.Encoder but not rlp.Decoder", typ)
+			case dec:
+				return nil, fmt.Errorf("type %v implements rlp.Decoder but not rlp.Encoder", typ)
+			}
+		}
 		return bctx.makeOp(typ, typ.Underlying(), tags)
 	case *types.Pointer:
 		if isBigInt(typ.Elem()) {
@@ -722,17 +733,8 @@ func (bctx *buildContext) makeOp(name *types.Named, typ types.Type, tags rlpstru
 		if isUint256(typ.Elem()) {
 			return uint256Op{pointer: true}, nil
 		}
-		// Encoder/Decoder interfaces.
-		if bctx.isEncoder(typ) {
-			if bctx.isDecoder(typ) {
-				return encoderDecoderOp{typ}, nil
-			}
-			return nil, fmt.Errorf("type %v implements rlp.Encoder but not rlp.Decoder", typ)
-		}
-		if bctx.isDecoder(typ) {
-			return nil, fmt.Errorf("type %v implements rlp.Decoder but not rlp.Encoder", typ)
-		}
-		// Default pointer handling.
+		// Nil pointers are handled here, and EncodeRLP/DecodeRLP are called for
+		// the element.
 		return bctx.makePtrOp(typ.Elem(), tags)
 	case *types.Basic:
 		return bctx.makeBasicOp(name, typ)
-- 
2.43.0


From eb4b2529a1aab7479d0dde8bd5e3c9b8af1b6dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:40 +0000
Subject: [PATCH 77/77] fix: rlpgen produced invalid code for pointers to
 pointers

---
 rlp/rlpgen/gen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rlp/rlpgen/gen.go b/rlp/rlpgen/gen.go
index 81ce20a..d0e348d 100644
--- a/rlp/rlpgen/gen.go
+++ b/rlp/rlpgen/gen.go
@@ -466,6 +466,12 @@ func (op ptrOp) genWrite(ctx *genContext, v string) string {
 
 func (op ptrOp) genDecode(ctx *genContext) (string, string) {
 	result, code := op.elem.genDecode(ctx)
+	if strings.HasPrefix(result, "&") {
+		// The element is a pointer itself, make it addressable.
+		elemV := ctx.temp()
+		code += fmt.Sprintf("%s := %s\n", elemV, result)
+		result = elemV
+	}
 	if !op.nilOK {
 		// If nil pointers are not allowed, we can just decode the element.
 		return "&" + result, code
-- 
2.43.0

