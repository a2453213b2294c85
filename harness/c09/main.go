// C09: single-character matchers accept exactly their set.
package main

import (
	. "github.com/shellyln/takenoco/base"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

func oneOf(r rune, set ...rune) bool {
	in := false
	for _, c := range set {
		in = sym.Or(in, r == c)
	}
	return in
}

func within(r, lo, hi rune) bool { return sym.And(lo <= r, r <= hi) }

func letter(r rune) bool { return sym.Or(within(r, 'A', 'Z'), within(r, 'a', 'z')) }

type class struct {
	name string
	mk   func() ParserFn
	in   func(r rune) bool
}

var classes = []class{
	{"Any", Any, func(r rune) bool { return true }},
	{"Whitespace", Whitespace, func(r rune) bool { return oneOf(r, 0x9, 0xa, 0xb, 0xc, 0xd, 0x20, 0x85, 0xa0) }},
	{"WhitespaceNoLineBreak", WhitespaceNoLineBreak, func(r rune) bool { return oneOf(r, 0x9, 0x20, 0xa0) }},
	{"LineBreak", LineBreak, func(r rune) bool { return oneOf(r, 0xa, 0xb, 0xc, 0xd, 0x85) }},
	{"Alpha", Alpha, letter},
	{"Number", Number, func(r rune) bool { return within(r, '0', '9') }},
	{"Alnum", Alnum, func(r rune) bool { return sym.Or(letter(r), within(r, '0', '9')) }},
	{"BinNumber", BinNumber, func(r rune) bool { return oneOf(r, '0', '1') }},
	{"OctNumber", OctNumber, func(r rune) bool { return within(r, '0', '7') }},
	{"HexNumber", HexNumber, func(r rune) bool {
		return sym.Or(within(r, '0', '9'), sym.Or(within(r, 'A', 'F'), within(r, 'a', 'f')))
	}},
}

func decide(p ParserFn, in func(r rune) bool, s string, pos int) {
	ctx := h.At(s, pos, 1)
	out, err := p(ctx)
	r, n := h.DecodeRune(s, pos)
	sym.Assert(err == nil, "no error")
	sym.Assert(out.MatchStatus != MatchStatus_Error, "no error status")
	if n == 0 {
		sym.Assert(out.MatchStatus == MatchStatus_Unmatched, "no match at the end of the source")
		return
	}
	if in(r) {
		sym.Assert(out.MatchStatus == MatchStatus_Matched, "a character of the set is matched")
		sym.Assert(out.Position == pos+n, "exactly one character is consumed")
		sym.Cover("in")
	} else {
		sym.Assert(out.MatchStatus == MatchStatus_Unmatched, "a character outside the set is not matched")
		sym.Assert(out.Position == pos, "nothing is consumed without a match")
		sym.Cover("out")
	}
}

type shape struct{ n, pos int }

func shapes(max int) (r []shape) {
	for n := 0; n <= max; n++ {
		for p := 0; p <= n; p++ {
			r = append(r, shape{n, p})
		}
	}
	return
}

func fixed(sh []shape) func(int) {
	return func(c int) {
		k := classes[c%len(classes)]
		s := sh[c/len(classes)]
		decide(k.mk(), k.in, sym.String("s", s.n), s.pos)
	}
}

// ranges with arbitrary bounds, in any order, empty and overlapping ones included
func ranges(sh []shape) func(int) {
	return func(c int) {
		count, neg := c%4, c/4%2
		s := sh[c/8]
		var rr []RuneRange
		for i := 0; i < count; i++ {
			id := string(rune('0' + i))
			rr = append(rr, RuneRange{Start: sym.Rune32("lo" + id), End: sym.Rune32("hi" + id)})
		}
		in := func(r rune) bool {
			in := false
			for _, x := range rr {
				in = sym.Or(in, sym.And(x.Start <= r, r <= x.End))
			}
			if neg == 1 {
				return !in
			}
			return in
		}
		p := CharRange(rr...)
		if neg == 1 {
			p = CharRangeN(rr...)
		}
		decide(p, in, sym.String("s", s.n), s.pos)
	}
}

// an arbitrary predicate: two threshold bits of the character
func classFn(sh []shape) func(int) {
	return func(c int) {
		s := sh[c]
		a, b, x := sym.Rune32("a"), sym.Rune32("b"), sym.Rune32("x")
		f := func(r rune) bool { return sym.Or(r&a == b, r^x < a) }
		decide(CharClassFn(f), f, sym.String("s", s.n), s.pos)
	}
}

func init() {
	max := 5
	if sym.Thorough() {
		max = 7
	}
	sh := shapes(max)
	sym.Check("class", len(sh)*len(classes), "the fixed character classes on all sources of 0..5 (thorough 7) bytes at every position", fixed(sh))
	sym.Check("range", len(sh)*8, "CharRange and CharRangeN with 0..3 ranges of arbitrary bounds, all sources of 0..5 (thorough 7) bytes, every position", ranges(sh))
	sym.Check("fn", len(sh), "CharClassFn with an arbitrary predicate of a parametric family", classFn(sh))
}
