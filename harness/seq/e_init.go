package seq

import "verif/harness/fw"

func init() {
	fw.Register(fw.Check{ID: "E01", Level: fw.Exploration, Run: runE01,
		Rule: "every type of a universe (all elementary kinds; every array, slice and tuple wrapping of them, to a nesting depth), every list of up to three of representative types, boundary values of each, every packing and unpacking entry point against an independent reference encoder; every Go value of a list of foreign shapes offered for every type, as value and as destination; every assignment of colliding names to up to four methods and events; non-trivial: a dynamic or composite type, or a foreign value that has a reading"})
	fw.Register(fw.Check{ID: "E02", Level: fw.Exploration, Run: runE02,
		Rule: "every sequence of up to four (thorough: five) words over an alphabet of boundary words (small, in, at and past the end, powers of two up to 2^256), with truncations, as each type list of a universe; every single-word replacement, removal, truncation and byte flip of the valid encodings of boundary values; each compared with an independent reference decoder; non-trivial: the data is accepted"})
	fw.Register(fw.Check{ID: "E03", Level: fw.Exploration, Run: runE03,
		Rule: "every event shape of up to three arguments (and of four over few kinds) over elementary, dynamic and composite kinds with every pattern of at most three indexed arguments, boundary values of each; every missing or additional topic, missing or shortened data; every integer around every power of two and byte array length as topic; every token string up to a length as textual selector; non-trivial: at least one indexed argument"})
	fw.Register(fw.Check{ID: "E04", Level: fw.Exploration, Run: runE04,
		Rule: "every list of up to four (thorough: five) entries over an alphabet of functions, overloads, events, errors, constructors, fallback and receive entries, valid and not, compared with what the entries declare; revert reasons of every length to a bound with every truncation and selector change; every tuple of up to two fields over representative kinds, in slices and arrays, converted to a declared type; non-trivial: a valid declaration, a revert reason or a conversion"})
}
