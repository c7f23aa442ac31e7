package seq

import "verif/harness/fw"

func init() {
	fw.Register(fw.Check{ID: "B01", Level: fw.Exploration, Run: runB01,
		Rule: "every height around every multiple of the epoch and era length, every power of 16 and the maximum, for nine epoch and era lengths, and every pair of them; every epoch among them joined with every kind of block number; non-trivial: a height other than the nil marker"})
	fw.Register(fw.Check{ID: "B02", Level: fw.Exploration, Run: runB02,
		Rule: "shard counts 1..256 (quick: small ones, powers of two and their predecessors and a spread), in three list orders, every first-two-byte address pattern, from the point of view of the parent and of six shards, original and cloned; every prefix length of every address shard with every bit flipped; every bit string up to three bytes with every length; non-trivial: an address compared with the address ranges of the shards"})
	fw.Register(fw.Check{ID: "B03", Level: fw.MC, Run: runB03,
		Rule: "every history of adding and removing three boot nodes, three data nodes and attributes to the depth, on clones at every step and in place, for both hash versions, hashes grouped by contents; every pair of orders of every list; every single edit of a clone and of its original; non-trivial: a clone edited and its original compared"})
	fw.Register(fw.Check{ID: "B04", Level: fw.MC, Run: runB04,
		Rule: "every history of adding and taking nine boundary amounts to the depth from five start balances, against unbounded integers; every pair over boundary 64-bit values; non-trivial: a refused taking"})
}

func init() {
	fw.Register(fw.Check{ID: "B05", Level: fw.Exploration, Run: runB05,
		Rule: "every byte string up to a length over five byte values and one of every length to 40, with every offset, size and length around its bounds and the integer extremes, through every byte helper; every byte pair, shift and length; every pair of short lists of byte strings and of node ids; every kind of value through every printing helper; every text up to a length over ten characters; non-trivial: a bit range that exists"})
	fw.Register(fw.Check{ID: "B06", Level: fw.Exploration, Run: runB06,
		Rule: "every input length from none to twice the size with position-revealing contents into every constructor of every identity; every position of every identity with distinguishing values through every form and against all others; every deletion, replacement, truncation and extension of every text; every derivation with every input position changed; every version, election type, node type, mode and net; non-trivial: an identity converted"})
}
