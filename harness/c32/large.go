package main

import (
	"verif/harness/h"
	"verif/harness/sym"
)

func init() {
	cases := h.LargeFormulaCases()
	sym.Check("large", len(cases), "27 kinds of expressions with up to 46 operands, 17 parentheses, 20 signs, 40 blanks and literals of 43 characters, arbitrary digits, operators and bytes among them", func(c int) {
		decide(h.Build("s", cases[c]))
	})
}
