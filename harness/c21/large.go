package main

import (
	"strings"

	"verif/harness/sym"
)

func rep(s string, n int) string { return strings.Repeat(s, n) }

var large = []string{
	"[" + rep("x", 9) + "]",
	"[" + rep("xs.", 6) + "]",
	"[" + rep("x", 40) + "]",
	rep("[", 12) + "x" + rep("]", 12),
	rep("[x", 20) + rep("]", 20),
	rep("(", 14) + "x" + rep("x)", 14),
	rep("(x", 14) + "x" + rep(")", 14),
	"[" + rep("(x[s])", 9) + "]",
	rep("[x(x", 8) + "x" + rep(")]", 8),
	"[" + rep("[xx]", 17) + "e]",
}

// One callback anywhere among the calls of a window does something special.
func window(c int) {
	s := large[c%len(large)]
	w := c / len(large)
	between(s, 1, 14*w, 14*(w+1))
}

func init() {
	sym.Check("large", len(large)*8, "10 trees up to 40 wide and 20 deep, callbacks that fail, replace, throw or jump at any one of the first 112 calls", window)
	sym.Check("large twice", len(large), "the same with two special callbacks among the first 6 calls", func(c int) {
		between(large[c], 2, 0, 6)
	})
}
