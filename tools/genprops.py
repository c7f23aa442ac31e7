#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script only to keep the JSON tidy).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

# ---------------------------------------------------------------- trie
p("T01","The trie behaves as a map over every operation history",
  "After any sequence of inserts, overwrites, deletes, commits, collapses and reopenings from a committed root, looking up a key in the state trie returns exactly the value last written under it, or reports it absent if it was never written or was deleted since. Insert reports success, delete reports whether the key was there and hands back its old value, and neither ever touches any other key. This holds for keys of any length, including the empty key and keys that are prefixes of other keys.",
  ["histories","inputs"],"all histories of put/delete/commit/collapse/reopen up to a depth, over key sets that produce every shape of node (empty key, prefix keys, odd and even shared prefixes, full 16-way fan-out)",
  "trie tests insert fixed or random key sets of one length and check a final state; node split/merge/collapse shapes and lazy loading after a commit depend on the whole history",
  ["trie/trie.go","trie/node.go","trie/utils.go"],
  [("insert/delete/get recursion over prefix nodes","trie/trie.go"),("node split, merge and compaction","trie/node.go"),("lazy node loading","trie/trie.go")],
  [("root node graph","in-memory nodes, dirty flags and unloaded children","trie/trie.go")],
  ["Get","Put","Delete","IterateAll"])
p("T02","The trie root is a canonical fingerprint of its contents",
  "The root hash of a state trie depends only on the set of key/value pairs it currently holds: every history that leads to the same contents yields the same root, whatever was overwritten, deleted, committed, collapsed or reloaded on the way. Different contents have different roots, and an empty trie always has the root of an empty trie. Computing the root never changes the contents or a later root.",
  ["histories"],"all pairs of operation histories up to a depth over shape-covering key sets, compared through the contents they lead to",
  "tests compare a few roots with golden values or two insertion orders; history independence quantifies over all pairs of histories",
  ["trie/trie.go","trie/node.go"],
  [("node hash and header hash","trie/node.go"),("delete compaction back to canonical shape","trie/trie.go"),("hash caching and invalidation on write","trie/node.go")],
  None,["HashValue","CommitAndHash","IsEmpty"])
p("T03","Committed trie roots survive crashes, faults and later commits",
  "Once a commit of a state trie reports success, every value under the committed root can be read back by opening that root from the store alone, and no later operation, commit, failed commit or crash between any two store writes ever damages it. When a store write fails, the commit reports an error instead of success, and a later commit that reports success is again complete.",
  ["crash_points","fault_sequences","histories"],"every prefix of the store-write log of every history with several commits, and every single (and pair of) failing store write(s) followed by a retry",
  "tests run against a healthy in-memory store and never cut the write log or fail a write",
  ["trie/trie.go","trie/node.go","db/adapters.go"],
  [("children saved before parents, root last","trie/trie.go"),("content-addressed node keys","db/adapters.go"),("error propagation of save","trie/trie.go")],
  [("store","hash -> encoded node / value","db/adapters.go")],["Commit","NewTrie with a root hash + Get"])
p("T04","Trie inclusion proofs are complete, sound and bound to the value",
  "For every key held by a state trie the trie produces a proof, and folding that proof over the hash of the key's value yields exactly the current root; for a key it does not hold it produces none. Folding the same proof over the hash of any other value, or folding it after altering, dropping, swapping or duplicating any of its parts that take part in the fold (hashes, paths, header items, their order), never yields that root. Copying or comparing proofs preserves this.",
  ["inputs","histories"],"every key (held or not) of every content set in the universe; every single-element tampering of every proof",
  "tests verify a handful of proofs in one trie shape; soundness is a statement about all wrong values and all altered proofs",
  ["trie/proof.go","trie/trie.go","trie/node.go","hash.go"],
  [("per-node proof construction","trie/node.go"),("proof folding","trie/proof.go"),("merkle path","hash.go")],
  None,["GetProof","ProofChain.Proof","VerifyProofChain"])
p("T05","Existence proofs decide membership correctly",
  "For every state trie and every non-empty key, the existence proof the trie produces hashes to the current root, and checking the proof for that key reports presence exactly when the trie holds the key and absence exactly when it does not. A proof made for one key never makes a verifier accept a different key that is absent as present, nor a present one as absent.",
  ["inputs","histories"],"every key, held or not, against every content set over shape-covering key universes, each proof also checked against every other key",
  "tests check existence proofs for one or two tries; the interesting cases are keys diverging inside a shared prefix, at a branch, or being a prefix of another key",
  ["trie/proof.go","trie/trie.go"],
  [("existence proof construction along the search path","trie/trie.go"),("prefix matching in the verifier","trie/proof.go")],
  None,["GetExistenceProof","ProofChain.IsExist","ProofChain.ExistenceHash"])
p("T06","Trie iteration visits every entry once, in key order, without side effects",
  "Iterating a state trie visits every key/value pair it holds exactly once and nothing else, in ascending key order, and in exactly the opposite order when iterating backwards, whether its nodes are in memory, modified, or only in the store.  Iteration changes neither the contents nor the root.",
  ["histories","inputs"],"every content set in the universe, in memory, committed, collapsed and reopened; every prefix",
  "tests iterate one content set in one residency state",
  ["trie/iterator.go","trie/trie.go"],
  [("value iterator and reversed iterator","trie/iterator.go"),("IterateAll / SubTrie","trie/trie.go")],
  None,["ValueIterator","ReversedValueIterator","IterateAll","SubTrie"])
p("T07","Trie copies, dumps and rebases are complete and independent",
  "A clone of a state trie, or a trie inherited at a root, holds the same contents as its source, and from then on writing, deleting or committing in either one never changes the contents or root seen through the other. Rebasing a trie keeps its root and contents on the other store; dumping it makes that store self-sufficient: the same root opens there with the same contents, and each value is reported once to the dump callback.",
  ["histories"],"all interleaved histories up to a depth on a trie and its copies, and a dump/rebase at every point",
  "tests clone or dump once and look at the result; sharing of mutable nodes between copies only shows after particular later writes on one side",
  ["trie/trie.go","trie/node.go"],
  [("node cloning on copy","trie/trie.go"),("Dump / Rebase traversal","trie/trie.go")],
  None,["Clone","Inherit","Dump","Rebase"])
p("T08","The revertable trie is transactional",
  "A revertable state trie shows its uncommitted changes only through its live view; rolling back discards all of them, reverting to a check point restores exactly the live contents that check point recorded (and uses it and all later ones up), and committing makes the live contents the new base. At no point does the base view show an uncommitted change. A commit after a preliminary commit leads to the root the preliminary commit announced.",
  ["histories"],"all histories of put/delete/check point/revert/rollback/pre-commit/commit up to a depth",
  "tests exercise one fixed scenario; check-point stacks and rollback interact with every earlier operation",
  ["trie/revertable.go"],
  [("origin/live pair of tries","trie/revertable.go"),("check point list","trie/revertable.go")],
  [("check points","roots recorded, in order","trie/revertable.go")],["Get","GetLive","CheckPoint","RevertTo","Rollback","PreCommit","Commit"])
p("T09","The combined trie commits to all of its sub-tries",
  "A combined trie returns the sub-trie last stored under a key, or none, over every history of stores, removals, changes inside sub-tries, commits and reopenings. For a given set of keys its root changes whenever the contents of any of its sub-tries change and is restored when they are restored; after a commit, reopening the root gives the same keys with the same sub-tries, and a root whose record is missing or truncated is refused. It reports unsaved changes exactly when one of its sub-tries has some. The inclusion proof for a key folds from that sub-trie's root to the combined root.",
  ["histories"],"all histories of put/delete/inner put/commit/reopen up to a depth over a few keys and sub-tries",
  "tests build one combined trie",
  ["trie/combinedtrie.go"],
  [("sorted key/trie list and merkle root","trie/combinedtrie.go"),("root record save/load","trie/combinedtrie.go")],
  None,["Get","Put","Delete","HashValue","Commit","GetProof","InitTrie"])
p("T10","Stored trie nodes decode to what was encoded, and damage is never silent",
  "Every node the state trie or the history tree writes to its store decodes back to a node with the same hash, key fragment, children and value, for every key fragment length, child set and value presence. When a stored node is missing, truncated or cannot be read, a changing operation that needs it fails or reports an error rather than claiming success or writing back contents that were never stored, and a lookup never answers with a value that was not stored there.",
  ["inputs","fault_sequences"],"every header shape (fragment lengths, parity, child bitmap sizes, value presence); every missing/truncated node of every small store",
  "tests round-trip a few nodes and never remove one",
  ["trie/node.go","trie/binarytree.go"],
  [("node serialization","trie/node.go"),("tree node serialization","trie/binarytree.go")],
  None,["NodeHeader.Serialization/Deserialization","TreeNode.Serialization/Deserialization","NewTrie + Put/Delete/Commit over a damaged store"])
p("T11","Every way into a trie tells the same story",
  "Putting through the trie, through values that name their own key, through a batch putter of any batch size or through the synchronized wrapper leads to the same contents, the same root, the same proofs and the same iterations, over every history of puts, deletes, commits and collapses; a trie that was never reopened counts exactly its entries, and the empty root is recognized exactly for the empty trie. The list of values and the map form written out hold every entry once in key order, reading the list back gives a trie with the same contents and root, and a truncated list is reported.",
  ["histories"],"all histories up to a depth over three keys and each of the ways of putting, with every serial form read back and cut",
  "tests use the interfaces one at a time with a fixed list of values",
  ["trie/utils.go","trie/trie.go","trie/synctrie.go"],
  [("batch putter","trie/utils.go"),("serial forms","trie/utils.go"),("reading back","trie/trie.go"),("synchronized wrapper","trie/synctrie.go")],
  None,["PutValue","NewBatchPutter","NewSyncTrie","Count","Marshal","MarshalAsMap","UnmarshalNewTrie","IsEmptyTrieRoot","CheckTrieRoot"])
# ---------------------------------------------------------------- history tree
p("H01","The history tree is an append-only indexed log",
  "A history tree accepts a value only at its next expected index when preceding entries must exist, refuses anything else without changing, and afterwards returns for every index exactly the value appended there, across commits, partial collapses, clones, rebases and reopenings from a committed root. Indexes never appended are reported absent. Asking whether an index exists always returns, and agrees with the lookup.",
  ["histories","inputs"],"all histories of append (right and wrong index)/commit/collapse/clone/reopen up to a depth, and every length up to several tree-height boundaries",
  "tests append a long run of indexes once; wrong-index, collapse and reopen interleavings are not enumerated",
  ["trie/historytree.go","trie/binarytree.go"],
  [("expected-index check","trie/historytree.go"),("tree growth by prefix bits","trie/binarytree.go")],
  None,["Append","Get","Has","Expecting","CollapseBefore"])
p("H02","History tree roots and proofs are exact for every index and length",
  "The root of a history tree of 32-byte hash values (other than the reserved nil hash) is a function of the appended sequence alone, equal to the binary Merkle root defined by the documented tree layout, whatever commits, collapses, clones or reloads happened. For every index held, the proof returned folds from that entry's value to the current root, also encodes the index, and no proof verifies another value or another index. Two different sequences never share a root.",
  ["histories","inputs"],"every length up to several height boundaries, every index at every length, in memory and reloaded",
  "tests check selected lengths; the layout has boundary cases at every power of two and on both sides of collapsed parts",
  ["trie/historytree.go","trie/binarytree.go","hash.go"],
  [("per-node partial Merkle hash","trie/binarytree.go"),("proof assembly","trie/historytree.go")],
  None,["HashValue","GetProof","ProofChain.HistoryProof","BigKey"])
p("H03","Partial history trees rebuilt from proofs continue like the full tree",
  "A history tree, with a store of its own, restored from nothing but the proof of its last entry, or having proofs of older entries merged into it, has the same root as the tree the proofs came from, and appending the same further entries to both keeps their roots equal. Entries whose proofs were merged are readable and provable, a merged proof that does not match the root is refused without changing anything, and cutting a tree back to an index gives the root it had then.",
  ["histories","inputs"],"every length, every restored/merged index (and pairs of them), several further appends; every tampered proof; every cut index",
  "tests restore at a few hand-picked lengths",
  ["trie/historytree.go","trie/binarytree.go"],
  [("restore from proofs","trie/historytree.go"),("merge of hash items","trie/historytree.go"),("chop","trie/historytree.go")],
  None,["RestoreTreeFromProofs","MergeProof","Chop"])
p("H04","Committed history trees survive crashes and store failures",
  "Once a commit of a history tree reports success, opening the committed root from the store alone yields every entry, and no later append, commit, failed commit or crash between any two store writes damages it. A commit during which a store write fails reports an error, and a later commit that reports success is again complete.",
  ["crash_points","fault_sequences","histories"],"every prefix of the write log of every multi-commit history up to a depth; every failing write followed by a retry",
  "tests use a healthy in-memory store",
  ["trie/historytree.go","trie/binarytree.go"],
  [("children committed before parents","trie/binarytree.go"),("dirty flags cleared after save","trie/binarytree.go")],
  None,["Commit","NewHistoryTree"])
p("H05","The revertable history tree is transactional",
  "A revertable history tree keeps appended entries and merged proofs out of its base view until they are committed: rolling back discards all of them, committing publishes exactly the live entries and the root that the preliminary commit announced, and a failed operation changes nothing. Membership and lookup agree with the view they document, and the reported next expected index is the base's or the live view's.",
  ["histories"],"all histories of append/merge/collapse/pre-hash/pre-commit/commit/rollback up to a depth",
  "no test covers rollback interleavings",
  ["trie/revertable.go"],
  [("origin/live pair of history trees","trie/revertable.go")],None,
  ["Append","Get","Has","Expecting","PreCommit","PreHashValue","Commit","Rollback"])
p("H06","History tree nodes hash and serialize exactly",
  "The hash a history tree node reports for any position in it is the one the documented layout gives for the leaves below that position, nothing where nothing is below, whatever was asked before; a node with entries missing says the same each time its hash is asked for; answers are the caller's own. Writing a node and reading it back, alone or in a stream, gives a node with the same leaves or children, the same known hashes and the same root; a missing node is written and read as missing; truncated or unknown records are refused. Printing changes nothing, and a number and its bits convert both ways for every byte and width.",
  ["inputs"],"every node of 0 to 16 leaves, child hashes or child nodes, every ordered pair of positions asked for, every truncation and first byte of its record, every presence pattern of 16 leaves",
  "tests serialize one or two nodes",
  ["trie/historytree.go"],
  [("position hashes","trie/historytree.go: HashAtPrefix"),("records","trie/historytree.go: Serialization/Deserialization")],None,["TreeNode.HashAtPrefix","HashValue","LeafHash","Serialization","Deserialization","ToBinary","ToByte"])
# ---------------------------------------------------------------- merkle
p("K01","Merkle roots and proofs of lists are consistent for every length and index",
  "For every list of values and every index, the Merkle root of the list is the same with or without a proof being requested, and the proof folds from the hash at that index to the root and to nothing else. Lists that differ in any element have different roots, and the input list is never modified. Out-of-range indexes yield no proof rather than a wrong one.",
  ["inputs"],"every list length up to a bound, every index, every pattern of equal/nil elements for short lists; balanced and complete layouts",
  "tests check a few lengths with random contents; equal elements, nil elements and odd lengths interact with proof compression",
  ["hash.go"],
  [("Merkle hashing of lists","hash.go"),("complete-tree Merkle hashing","hash.go")],None,
  ["MerkleHash","MerkleHashComplete","ValuesMerkleHash","SlicesMerkleHash","MerkleProofs.Proof"])
p("K02","Merkle proof compression and encoding are lossless",
  "Building a Merkle path step by step, with any pattern of repeated hashes and of left/right positions, gives a proof whose length, individual steps, expanded items, index bits and fold result all equal those of the plain uncompressed path. Encoding and decoding, cloning and comparing preserve it exactly, also when the reader delivers the bytes in arbitrarily small pieces, and truncated encodings are reported as errors.",
  ["inputs","fault_sequences"],"every path up to a length over a small hash alphabet and both positions; every chunking pattern and every truncation of its encoding",
  "tests try random paths without repeats at boundary positions and a reader that always returns everything",
  ["hash.go"],
  [("run-length repeat list","hash.go"),("serialization","hash.go")],None,
  ["MerkleProofs.Append/Get/Iterate/ToItems/BigKey/Proof","Serialization/Deserialization"])
p("K03","Node proofs and proof chains prove what their type says",
  "Every proof type means exactly one thing. A node proof of any kind folds to the value its type documents, over its header, value hash and sibling path, or reports an error when a part it needs is missing or does not belong there; a chain folds step by step, stepwise iteration, the list of steps and the flattened Merkle proof all agree with the fold, and verification accepts exactly the folded root. A proof of a block header field or of a packed header summary is recognized for exactly its chain, height and field. Clones, the binary and the JSON form preserve a proof, and comparison notices a change of any part.",
  ["inputs"],"every proof type; every combination of a few headers and value hashes with all sibling paths up to a length; all chains up to a length over a menu of node proofs; header fields of several header sizes asked for all other chains, heights and fields",
  "tests fold a few random proofs and compare two code paths with each other rather than with the documented formula",
  ["trie/proof.go","hash.go"],
  [("proof types","trie/proof.go"),("node proof iteration","trie/proof.go"),("proof chains","trie/proof.go"),("header position hash","hash.go")],None,
  ["NodeProof.Proof/Iterate","ProofChain.Proof/Iterate/ToItems/ToMerkles","IsHeaderOf","IsHeaderPropertyOf","IsHdsSummaryOf","HistoryProof"])
# ---------------------------------------------------------------- db
p("D01","Every store behaves as a byte map",
  "Over every history of put, get, has, delete and batch, the in-memory store, the on-disk store, the cached store over either, and a reopened on-disk store return exactly what a map would: the last value put, or absence after delete or before the first put. A stored value is a snapshot, so neither changing a buffer handed in nor one handed out alters what the store returns later.",
  ["histories","inputs"],"all histories up to a depth over a few keys (including the empty key and keys prefixing each other) and values (nil, empty, small), with buffers scribbled over after every call",
  "tests run one put/get/delete script per store and never reuse buffers",
  ["db/memdb.go","db/ldb.go","db/cacheddb.go","db/types.go"],
  [("sync map store","db/memdb.go"),("leveldb wrapper","db/ldb.go"),("lru cache","db/cacheddb.go")],None,
  ["Database interface","NewMemDB","NewLDB","NewCachedDBWithPath"])
p("D02","Cached stores never contradict the store beneath them",
  "A read through the write-through cache always returns what the underlying store holds, whatever was read, written, deleted, batched or evicted before, for keys that are present and keys that are not, with any cache capacity. If an operation on the underlying store fails, the cache afterwards does not claim that it succeeded.",
  ["histories","fault_sequences"],"all histories of get/has/put/delete/batch over more keys than the cache holds, with each underlying operation failing in turn",
  "tests use one key and a healthy store; stale positive and negative entries need a miss, a write and an eviction in a certain order",
  ["db/cacheddb.go"],
  [("cache fill on read, update on write","db/cacheddb.go")],
  [("lru","key -> value or nil","db/cacheddb.go")],["Get","Has","Put","Delete","Batch"])
p("D03","Batches apply completely, in order and atomically",
  "Applying a batch has exactly the effect of its operations in the order they were recorded, on every kind of store and through every key prefix; a batch that was never applied has no effect, and applying one reports an error if the store could not take it. The bulk write helper writes every accepted element exactly once, for every element count, threshold and pattern of skipped elements, and stops with the error when the producer or the store fails.",
  ["inputs","fault_sequences"],"every batch up to a length over small keys/values; every (length, threshold, skip pattern) up to bounds, with every failing position",
  "tests use one batch with no skipped element and no failure",
  ["db/types.go","db/memdb.go","db/ldb.go","db/adapters.go","db/readonly.go"],
  [("batch recording and replay","db/memdb.go"),("BatchWrite","db/types.go")],None,
  ["NewBatch","Batch","BatchWrite"])
p("D04","Key prefixes keep stores sharing one database apart",
  "Two adapters or prefixed views over one database with prefixes of which neither extends the other never see or affect each other's data, under any history of saves, loads, deletes and batches; within one view the data behaves as a plain map from key to value, and the database below holds exactly the prefixed keys. A content-addressed adapter rebased to another database keeps its prefix.",
  ["histories","configurations"],"all histories up to a depth over all prefix pairs of a small universe, with an inspectable base store",
  "tests check a single prefix",
  ["db/adapters.go"],
  [("key prefixing","db/adapters.go"),("RebaseAdapter","db/adapters.go")],None,
  ["NewKeyPrefixedDataAdapter","KeyDatabase","NewTransparentDataAdapter"])
p("D05","Overlay and read-only views never write through",
  "Whatever is done through a temporary overlay or a read-only view, the database underneath is never modified. The temporary overlay itself behaves as a map that starts with the underlying contents and then reflects every put, delete and batch made through it; the read-only view always shows the underlying contents and refuses every modification with an error.",
  ["histories"],"all histories up to a depth mixing operations through the view and directly on the base",
  "tests touch one key once",
  ["db/readonly.go"],
  [("overlay map of puts and deletes","db/readonly.go")],None,["Temporary","ReadOnly"])
# ---------------------------------------------------------------- concurrency
p("C01","Concurrent use of one trie is linearizable, race-free and deadlock-free",
  "When several goroutines read, write, delete, prove, hash, commit, collapse and dump one state trie, synchronized trie or combined trie (there, whole sub-tries) at the same time, every call returns, no memory access races with another, and the results and final contents and root are those of executing the calls one at a time in some order that respects their real-time order.",
  ["schedules"],"all interleavings at synchronization operations, up to a preemption bound, of all small sets of concurrent calls",
  "tests run goroutines under the native scheduler, which reaches a few interleavings and no assertion on atomicity",
  ["trie/trie.go","trie/synctrie.go","trie/combinedtrie.go"],
  [("trie lock","trie/trie.go"),("wrapper lock","trie/synctrie.go")],None,["Trie","SyncTrie","SmallCombinedTrie"])
p("C02","Concurrent use of history and revertable trees is linearizable and deadlock-free",
  "When several goroutines append, look up, prove, hash, commit, collapse, check-point or roll back one history tree, revertable history tree or revertable trie at the same time, every call returns, no memory access races, and the outcome equals some one-at-a-time order of the calls that respects their real-time order.",
  ["schedules"],"all interleavings at synchronization operations, up to a preemption bound, of all small sets of concurrent calls",
  "tests are single-threaded",
  ["trie/historytree.go","trie/revertable.go"],
  [("tree lock","trie/historytree.go"),("revertable lock","trie/revertable.go")],None,["HistoryTree","RevertableTrie","RevertableHistoryTree"])
p("C03","Concurrent use of stores is linearizable",
  "When several goroutines get, put, delete, test and batch on one in-memory, cached, temporary-overlay or read-only store at the same time, every call returns, no memory access races, and single-key results are those of some one-at-a-time order respecting real time; on a cached or overlay store a batch takes effect as a whole; in particular once a write or delete has returned, no later read returns older data, and when all calls are done every read agrees with the store underneath.",
  ["schedules"],"all interleavings at synchronization operations, up to a preemption bound, of small sets of concurrent calls on colliding keys",
  "tests are single-threaded",
  ["db/cacheddb.go","db/memdb.go","db/readonly.go"],
  [("store lock around cache and base","db/cacheddb.go")],None,["cached store","MemDB","Temporary"])
p("C04","The worker pool handles every accepted event exactly once and stops cleanly",
  "Every event whose posting returned is handed to the handler exactly once by one worker, as long as the pool keeps running. With a single worker, events of one queue are started in posting order, and a high-priority event that is waiting when the worker looks for its next event is taken before any low-priority one. Stop waits for the running handlers, leaves no worker behind and returns; events not taken by then, or posted while the pool is not running, stay queued and are handled once the pool is started again. Per-kind counts match the running handlers and return to zero when the pool is idle; a handed-out count is an independent snapshot.",
  ["schedules"],"all interleavings at channel and lock operations, up to a preemption bound, of small numbers of posters, workers and a stopper",
  "tests post many events and print; ordering, stop and refusal races are not checked",
  ["routinepool.go"],
  [("two-level select loop","routinepool.go"),("start/stop state under lock","routinepool.go"),("key counter","routinepool.go")],None,["NewRoutinePool","Start","Stop","Post"])
p("C05","Shared registries stay consistent under every history and schedule",
  "The node-id set, the bounded recent-items map, the last-height map and the reserved/no-gas address registry answer like a plain set, bounded map, monotone map and set after any history of operations, and when used from several goroutines every call returns, nothing races and results are those of some one-at-a-time order. The last-height map's conditional update succeeds exactly when it raises the height, its plain update is unconditional; handed-out snapshots are independent copies.",
  ["schedules","histories"],"all histories up to a depth, and all interleavings up to a preemption bound of small sets of concurrent calls",
  "tests touch each structure once, in one goroutine",
  ["basic.go","types.go","utils.go"],
  [("lock-protected maps","basic.go"),("lru wrapper","utils.go")],None,["NodeIDSet","LruMap","LastBlockMap","RegisterSystemContract/IsReserved/IsNoGas/NoCheck"])
p("C06","Encoding, hashing and logging helpers are safe for concurrent use",
  "Encoding and decoding records, hashing, printing and logging from several goroutines at once yields for each call the same result as calling it alone, with no data race, lost or torn output line, or deadlock, however pooled buffers and cached type information are shared between the calls. A logger derived with fields writes all of them, and the check log is silent until it is initialised.",
  ["schedules"],"all interleavings at pool, cache, atomic and lock operations, up to a preemption bound, of small sets of concurrent encodes/decodes/hashes/prints/logs, including first use of a type",
  "tests run them sequentially; buffer-reuse mistakes need a particular interleaving of get and put",
  ["rlp/encbuffer.go","rlp/typecache.go","rlp/decode.go","types.go","hasher.go","log/log.go","log/hooks.go"],
  [("buffer pools","rlp/encbuffer.go"),("copy-on-write type cache","rlp/typecache.go"),("log hook lock","log/hooks.go")],None,["rlp.Encode*/Decode*","String methods","log functions"])
p("C07","Service lifecycle transitions happen once and only from the right state",
  "A service can be initialized only when new or stopped, started only when initialized, closed only when started, whatever the order and concurrency of the calls: each transition's action runs at most once per successful transition, never concurrently with another transition, and a call in the wrong state is refused with an error and no action. A failing action is reported to the caller and leaves the state as it was.",
  ["schedules","histories"],"all call sequences up to a depth with actions failing in any pattern; all interleavings of concurrent calls",
  "no test drives the lifecycle",
  ["types.go"],
  [("service state and lock","types.go")],None,["Init","Start","Close"])
# ---------------------------------------------------------------- rlp
p("R01","RLP encoding round-trips for every supported type",
  "Encoding any supported value (unsigned integers of every width, booleans, byte arrays and slices, strings, big and 256-bit integers, pointers, interfaces, nested lists, structs with optional, tail, nil and ignored fields) and decoding it into the same type gives back an equal value and consumes exactly the encoded bytes. Every encoding entry point (to bytes, to a writer, to a reader, through a reusable buffer) yields the same bytes, and they are the canonical RLP of the value.",
  ["inputs"],"every value of a universe of types up to a nesting bound, with every size-header boundary (0,1,55,56,255,256,65535,65536 and around)",
  "tests are tables of chosen values",
  ["rlp/encode.go","rlp/decode.go","rlp/encbuffer.go","rlp/typecache.go","rlp/raw.go"],
  [("encode buffer with list heads","rlp/encbuffer.go"),("typed decoders","rlp/decode.go")],None,["EncodeToBytes","Encode","EncodeToReader","EncoderBuffer","DecodeBytes"])
p("R02","RLP decoding accepts exactly the canonical encodings",
  "For every byte string, decoding either fails with an error or yields a value whose encoding is that very byte string (trailing optional fields spelled out as zero, and raw values, taken verbatim, aside); it never panics, never reads past its input or the enclosing list, and never allocates out of proportion to the input. The bytes, stream, raw-splitting, counting and iterating interfaces all agree on which inputs are valid and on where each item starts and ends.",
  ["inputs"],"every byte string up to a length over an alphabet containing every header-class boundary, against each target type, plus structured long inputs",
  "tests are tables of chosen malformed inputs per interface",
  ["rlp/decode.go","rlp/raw.go","rlp/iterator.go"],
  [("canonical size and integer checks","rlp/decode.go"),("raw split checks","rlp/raw.go")],None,["DecodeBytes","Decode","Stream","Split*","CountValues","NewListIterator"])
p("R03","Generated RLP methods agree with the reflective codec",
  "For every struct type the method generator accepts, the generated code compiles, encodes every value to the same bytes as the reflective codec, and decodes every byte string to the same value, or refuses it, exactly as the reflective codec does (nil and empty slices counting as equal; fields the codec ignores, and text of the wrong empty kind for nil-tagged pointers, aside). Types or tags the codec does not support are refused by the generator with an error. Struct types that contain themselves are outside this property.",
  ["inputs"],"every field type of a universe of over a hundred types (all elementary kinds, named variants, pointers, slices, arrays, nested and self-encoding types, every tag), alone and in combinations, every value of boundary sets, every truncation and single-byte change of the encodings",
  "golden tests fix the generated text of seven example types and never compile or run it against the codec",
  ["rlp/rlpgen/gen.go","rlp/rlpgen/types.go","rlp/internal/rlpstruct/rlpstruct.go","rlp/encbuffer.go","rlp/decode.go"],
  [("op construction","rlp/rlpgen/gen.go"),("type analysis","rlp/rlpgen/types.go"),("tag rules","rlp/internal/rlpstruct/rlpstruct.go")],None,["rlpgen generate","EncodeToBytes","DecodeBytes"])
# ---------------------------------------------------------------- abi
p("E01","ABI packing round-trips for every supported type",
  "Packing arguments of any supported type (integers of each width and sign, booleans, addresses, fixed and dynamic bytes, strings, arrays, slices and tuples, nested) and unpacking them gives back equal values, the packed bytes follow the contract ABI layout (32-byte words, head/tail offsets), and values of the wrong type or arity are refused. Function calls are prefixed by the selector of the canonical signature and are found again by it. A selector written as text parses to the declaration it spells, or is refused.",
  ["inputs"],"every type up to a nesting depth over all elementary kinds, every argument list up to a length, boundary values of each kind, against an independent reference encoder",
  "tests are tables of chosen signatures",
  ["abi/abi.go","abi/argument.go","abi/pack.go","abi/type.go","abi/unpack.go","abi/method.go"],
  [("head/tail packing","abi/argument.go"),("type parser","abi/type.go"),("selector","abi/method.go")],None,["ABI.Pack","Arguments.Pack/Unpack/UnpackIntoMap/Copy","MethodByID"])
p("E02","ABI unpacking of arbitrary data fails cleanly or is faithful",
  "Unpacking any byte string as any supported type either returns an error or a value; it never panics, never reads outside the data, and never trusts a declared length or offset beyond the data. Booleans other than 0 and 1, offsets and lengths that point outside the data, and truncated words are refused; a successfully unpacked value, packed again and unpacked, is the same value.",
  ["inputs"],"every word sequence up to a length over an alphabet of boundary words (0, 1, offsets in, at and past the end, huge), every truncation, for every type of a universe",
  "tests are tables of chosen malformed inputs",
  ["abi/unpack.go","abi/argument.go"],
  [("bounds checks of offsets and lengths","abi/unpack.go")],None,["Arguments.Unpack/UnpackValues/UnpackIntoInterface"])
p("E03","Event topics and logs decode to the values they were made from",
  "For every event declaration, an event's identifier is the hash of its canonical signature and finds it again, topics made from indexed values (function references aside) parse back to those values, or to the documented hash for dynamic kinds, and unpacking a log assigns each argument, indexed or not, the value it was emitted with, whatever order indexed and non-indexed arguments are declared in. Missing or mismatching topics or data are refused.",
  ["inputs","configurations"],"every event shape up to three arguments over elementary kinds, every indexed/non-indexed pattern, boundary values, every missing topic",
  "tests cover one or two events with indexed arguments first",
  ["abi/event.go","abi/topics.go","abi/thinkium.go","abi/abi.go"],
  [("topic generation and parsing","abi/topics.go"),("log unpacking","abi/thinkium.go")],None,["MakeTopics","ParseTopics","ABI.UnpackEvent","EventByID"])
p("E04","A contract declaration is read completely or refused",
  "Reading a contract declaration yields exactly the functions, events, errors, constructor, fallback and receive entries it contains, each with the signature, selector, mutability and arguments it declares, overloads under distinct names that never lose an entry; an entry with an unknown kind, type or duplicate special function is refused. Selectors lead back to the entry they belong to and to no other. The reason of a revert is read from exactly the data that encodes one, and a value converted to a declared Go type keeps every field.",
  ["inputs"],"all declarations up to a length over an alphabet of valid and invalid entries; all revert reasons up to a length with every truncation; all tuples of up to two fields over representative kinds",
  "tests read a handful of fixed declarations",
  ["abi/abi.go","abi/method.go","abi/event.go","abi/error.go","abi/error_handling.go","abi/thinkium.go","abi/reflect.go","abi/type.go"],
  [("declaration reading","abi/abi.go"),("overload naming","abi/utils.go"),("revert reason","abi/abi.go"),("conversion","abi/reflect.go")],None,
  ["JSON","MethodById","EventByID","UnpackRevert","ConvertType"])
# ---------------------------------------------------------------- hex / math / basics
p("X01","Hex encodings are strict bijections",
  "Encoding then decoding any bytes, unsigned integer or 256-bit integer in 0x-hex, as text or JSON, gives back the same value; decoding accepts exactly the documented forms (prefix, even length for bytes, no empty number or leading zero, digits only, size limits) and reports an error for everything else without modifying the destination. Fixed-size types (hashes, addresses, node ids) accept exactly their length.",
  ["inputs"],"every string up to a length over an alphabet of all character classes, and every value at word/byte boundaries",
  "the package has no test of its own",
  ["hexutil/hexutil.go","hexutil/json.go","hash.go","basic.go"],
  [("strict number and byte checks","hexutil/hexutil.go")],None,["Encode*/Decode*","UnmarshalText/UnmarshalJSON/MarshalText"])
p("X02","Checked and 256-bit arithmetic is exact",
  "The checked 64-bit operations report overflow exactly when the exact result does not fit and otherwise return it; 256-bit wrapping, signed interpretation, exponentiation, padding, byte extraction and number parsing agree with exact integer arithmetic; conversions of rationals to integers are exact within the representable range and are reported as meaningless outside of it. The nil-tolerant integer helpers treat nil as zero and never alias a result with an argument that is documented to be copied.",
  ["inputs"],"every pair over a set of boundary values of each width (0, 1, powers of two and neighbours, extremes), every small value, and every parse string up to a length",
  "tests are tables of chosen values",
  ["math/big.go","math/integer.go"],
  [("SafeAdd/SafeSub/SafeMul","math/integer.go"),("U256/S256/Exp/ParseBig256/RatToInt64","math/big.go")],None,["exported functions of the math package"])
p("B01","Block height, epoch and era arithmetic is consistent",
  "Splitting a block height into epoch and block number and joining them gives the height back; first and last block flags, epoch bounds, era numbers, differences and comparisons agree with that decomposition and with plain integer arithmetic, for every height below the nil marker; joining an epoch and a block number whose height would reach the marker yields the marker and nothing else. Encoding heights, epochs and ids to bytes and back preserves them and their order.",
  ["inputs"],"all heights around every epoch/era/word boundary and the maximum, all pairs for comparison and difference",
  "tests check a few heights",
  ["basic.go","types.go","consts.go"],
  [("Split/ToHeight","basic.go"),("nil markers","basic.go")],None,["Height","EpochNum","BlockNum","EraNum","ChainID"])
p("B02","Account sharding assigns every address to exactly one shard",
  "For any set of shard chains, every address, account-bearing value and address form is assigned to exactly one of the chains, the same one from every node's point of view and after cloning; each chain's position and the address-range test agree with that assignment, and for a power-of-two number of chains all have equal shares of the address space. Unsupported shard counts are refused rather than mis-assigned.",
  ["inputs","configurations"],"every shard count up to the maximum, every local position, every first-two-byte pattern of the address",
  "tests check one configuration",
  ["shardinfo.go","utils.go"],
  [("mask of the leading address bits","shardinfo.go")],None,["NewShardInfo/ShardTo/Pos","AddressShard.IsIn","AccountShards"])
p("B03","Chain configuration edits keep sets, order and hash consistent",
  "On a chain whose lists are sorted, adding and removing boot nodes, data nodes and attributes behaves as set insertion and removal and reports whether anything changed, membership queries agree with the lists, and the lists stay sorted. The hash of a chain configuration depends on its contents only, not on the order edits were made in, and editing a clone never changes the original.",
  ["histories"],"all histories of add/remove/query/clone up to a depth over a few nodes and attributes",
  "no test edits a chain configuration",
  ["chaininfo.go"],
  [("sorted insertion and binary search","chaininfo.go"),("HashValue over sorted copies","chaininfo.go")],None,["ChainInfos","ChainAttrs","ChainStruct"])
p("B04","The gas pool never over- or underflows",
  "A gas pool's balance is always the exact sum of what was added minus what was successfully taken: taking more than is available fails and leaves the balance unchanged, and adding beyond the maximum never wraps around silently.",
  ["histories","inputs"],"all histories up to a depth over boundary amounts (0, 1, mid, max-1, max)",
  "there is no test",
  ["gaspool.go"],
  [("checked subtraction and addition","gaspool.go")],None,["AddGas","SubGas","Gas"])
p("B05","Byte, bit and slice helpers compute what they document",
  "Sub-ranging, splitting, joining, padding, reversing, copying, comparing, intersecting and bit-testing byte strings return for every input, offset and size exactly what a direct definition gives, report out-of-range requests as errors instead of panicking or wrapping, and never modify or alias their inputs where a copy is promised. Printing helpers never panic.",
  ["inputs"],"every byte string up to a length over a few byte values, every offset and size including negative and past the end",
  "tests check a few shifts",
  ["bytes.go","utils.go","types.go"],
  [("bit sub-range by shifting","bytes.go")],None,["SubBytes","ShiftBits","SplitBytes","ForPrint*","Left/RightPadBytes","BytesIntersection","Bits"])
p("B06","Identities convert losslessly between their forms",
  "Addresses, hashes, node ids, chain ids, versions, election types and chain structures convert between bytes, text, JSON, hex and integer forms without loss: converting any value out and back gives the same value, over-long and short inputs are cropped or padded on the documented side, invalid texts are refused, and equality, ordering and nil tests agree with the byte contents. Derived addresses depend on every input.",
  ["inputs"],"every length around the fixed size with position-revealing contents, every truncated/extended/ill-formed text, all pairs for comparison",
  "tests check one conversion per type",
  ["basic.go","hash.go","types.go","version.go","chaininfo.go"],
  [("SetBytes cropping","hash.go"),("MarshalText/UnmarshalText","basic.go")],None,["Address","Hash","NodeID","ChainID","Version","ChainStruct"])
p("B07","Object hashes and small conversions are functions of the value alone",
  "Hashing an object through any entry gives the value's own hash where it has one and otherwise the hash of its RTL encoding, so two values hash alike through the encoding entry exactly when they encode alike; hashing twice gives the same result in storage of its own, and values that cannot be encoded are refused. A data server's hash changes with every single field it covers and its clone is equal and independent, data nodes sort by identity from any permutation, and node addresses, text to address and integer conversions are lossless for every supported value.",
  ["inputs"],"every listed value of every kind the hashing entries take, pairwise; a grid of data server fields against all single-field neighbours; every permutation of up to six data nodes; every subset of node addresses",
  "tests hash a handful of values and compare nothing pairwise",
  ["hasher.go","chaininfo.go","forrlp.go","basic.go"],
  [("object hashing","hasher.go"),("data server hash and clone","chaininfo.go"),("address and number conversions","basic.go, forrlp.go")],None,["HashObject","EncodeAndHash","EncodeHash","Dataserver","DataNodes"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
