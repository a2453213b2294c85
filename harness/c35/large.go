package main

import (
	"strconv"
	"strings"

	. "github.com/shellyln/takenoco/base"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/h"
	"verif/harness/sym"
)

// texts around which a parser has to do a lot
var long = []string{
	strings.Repeat("a", 40), strings.Repeat("1", 33), strings.Repeat("ab", 20) + "\n" + strings.Repeat("c", 9), strings.Repeat("\u4e2d", 20), strings.Repeat("\xff", 17), strings.Repeat(" ", 40), strings.Repeat("1_", 17) + ".5e1",
}

// stretched: long texts with an arbitrary byte in the middle or at the end.
func stretched(c int) {
	it := h.Items[c%len(h.Items)]
	t := long[c/len(h.Items)%len(long)]
	s := t + h.Pattern("s", "?") + it.Two[:1]
	pos := 0
	if c%3 == 2 {
		pos = len(t) - 1
	}
	if c%3 == 1 {
		s = t[:len(t)/2] + h.Source("t", it.One) + t[len(t)/2:]
		pos = len(t) / 2
	}
	contract(it, s, pos, []int{0, 1, 9, 33}[c%4])
}

var composed = []func() ParserFn{
	func() ParserFn { // nested brackets
		var p ParserFn
		p = First(Group(Seq("("), ZeroOrMoreTimes(Indirect(func() ParserFn { return p })), Seq(")")), Alnum())
		return FlatGroup(OneOrMoreTimes(p), End())
	},
	func() ParserFn { // a list with alternatives
		alt := []ParserFn{}
		for c := 'a'; c <= 't'; c++ {
			alt = append(alt, Seq(string(c)+","), Seq(string(c)+";"))
		}
		return FlatGroup(ZeroOrMoreTimes(First(alt...)), First(alt[39], Any()))
	},
	func() ParserFn { return Trans(ZeroOrMoreTimes(CharClassN("\n"), LookBehindN(1, 3, Seq("x"))), Concat) },
}

var composedTexts = []string{
	strings.Repeat("(", 20) + "?" + strings.Repeat(")", 20), strings.Repeat("(a)", 20) + "?)", strings.Repeat("a,b;", 17) + "t?", strings.Repeat("yz", 20) + "?\nx", strings.Repeat("(", 40) + "?",
}

func init() {
	n := len(h.Items)
	sym.Check("long", n*len(long), strconv.Itoa(n)+" parsers on or within 7 texts of 17..60 bytes with 1 to 3 arbitrary bytes, on 0..33 earlier nodes", stretched)
	sym.Check("long composed", len(composed)*len(composedTexts), "nested brackets, 40 alternatives and a repetition with look-behind on 5 texts of 41..70 bytes", func(c int) {
		run(composed[c%len(composed)](), h.Pattern("s", composedTexts[c/len(composed)]), 0, c%3, false)
	})
}
