package seq

import "verif/harness/fw"

func init() {
	fw.Register(fw.Check{ID: "X01", Level: fw.Exploration, Run: runX01,
		Rule: "every string up to a length over an alphabet of all character classes, alone and behind either prefix, through every decoder; numbers of every length around the size limits with every digit position damaged; every power of two and its neighbours, every byte string length; every truncation, extension, deletion, insertion and replacement of the texts of fixed-size types; non-trivial: a text that is accepted"})
	fw.Register(fw.Check{ID: "X02", Level: fw.Exploration, Run: runX02,
		Rule: "every pair over a set of boundary 64-bit values and of small values; every boundary integer up to 264 bits and of either sign; every base and exponent, numerator and denominator over boundary values; every pair of nil or boundary integers; every number text up to a length over an alphabet of all character classes; non-trivial: a number text that is accepted"})
}
