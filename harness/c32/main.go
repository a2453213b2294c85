// C32: torpn.Parse gives the postfix form of the expression.
package main

import (
	"strconv"

	"github.com/shellyln/takenoco/_examples/torpn"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

func decide(s string) {
	want, ok := h.ParseFormula(s)
	got, err := torpn.Parse(s)
	if !ok {
		sym.Assert(err != nil, "a text that is no expression is an error")
		sym.Cover("error")
		return
	}
	sym.Assert(err == nil, "an expression is accepted")
	sym.Assert(len(got) == len(want.Rpn), "the postfix form has one item per operand and operator")
	for i, w := range want.Rpn {
		sym.Assert(h.EqVal(got[i], w), "operands and operators come in postfix order")
	}
	sym.Cover("postfix")
}

func init() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	starts, bound := h.FormulaStarts(n)
	sym.Check("bytes", len(starts), bound, func(c int) { decide(h.Build("s", starts[c])) })
	cases := h.FormulaCases()
	sym.Check("patterns", len(cases), strconv.Itoa(len(h.Formulas))+" kinds of expressions with arbitrary digits, operators and bytes", func(c int) {
		decide(h.Build("s", cases[c]))
	})
}
