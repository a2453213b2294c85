package main

import (
	"verif/harness/h"
	"verif/harness/sym"
)

// Call histories: expressions one after the other.
func init() {
	pairs := [][2]string{{"??", "??"}, {"dod", "dod"}, {"do(d-d)", "d-d"}, {"(d", "d)"}, {"d/0", "d/n"}, {"-d", "d"}, {"d?", "d?"}, {"dod o", "dod"}, {"-(dod)", "-(dod)"}}
	sym.Check("again", len(pairs), "two expressions one after the other, 9 pairs with arbitrary digits, operators and bytes", func(c int) {
		decide(h.Build("s", pairs[c][0]))
		decide(h.Build("t", pairs[c][1]))
	})
}
