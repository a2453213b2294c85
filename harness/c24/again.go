package main

import (
	"verif/harness/h"
	"verif/harness/sym"
)

// Call histories: one lexer value on two sources.
func init() {
	pairs := [][2]string{{"??", "??"}, {"1?", "?2"}, {"1.?", "?.e1"}, {"?_1", "?"}, {"+?", "-?"}, {"0?e", "0e?"}}
	sym.Check("again", len(lexers)*len(pairs), "one lexer on two sources one after the other, 6 pairs with 2 to 4 arbitrary bytes", func(c int) {
		l, p := lexers[c%len(lexers)], pairs[c/len(lexers)]
		f := l.mk()
		h.Lex(f, l.ref, l.class, h.Pattern("s", p[0]), 0, 1)
		h.Lex(f, l.ref, l.class, h.Pattern("t", p[1]), 0, 1)
	})
}
