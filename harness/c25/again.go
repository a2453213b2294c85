package main

import (
	"github.com/shellyln/takenoco/extra"
	"verif/harness/h"
	"verif/harness/sym"
)

// Call histories: one lexer value on two sources.
func init() {
	pairs := [][2]string{{"??", "??"}, {"a?", "a?"}, {"\u00e9?", "?"}, {"?", "\u4e2d?"}}
	sym.Check("again", 2*len(pairs), "one lexer on two sources one after the other, 4 pairs with 2 to 4 arbitrary bytes", func(c int) {
		p := pairs[c/2]
		f, ref := extra.AsciiIdentifierStr(), h.Lexer(ascii)
		if c%2 == 1 {
			f, ref = extra.UnicodeIdentifierStr(), uni
		}
		h.Lex(f, ref, ":extra:IdentifierStr", h.Pattern("s", p[0]), 0, 1)
		h.Lex(f, ref, ":extra:IdentifierStr", h.Pattern("t", p[1]), 0, 0)
	})
}
