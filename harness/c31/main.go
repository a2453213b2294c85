// C31: formula.Parse evaluates exactly the expression language.
package main

import (
	"strconv"

	"github.com/shellyln/takenoco/_examples/formula"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

func decide(s string) {
	want, ok := h.ParseFormula(s)
	got, err := formula.Parse(s)
	if !ok {
		sym.Assert(err != nil, "a text that is no expression is an error")
		sym.Cover("error")
	} else if len(want.Undef) > 0 {
		sym.Assert(err != nil, "a division by zero is an error")
		sym.Cover("division by zero")
	} else {
		sym.Assert(err == nil, "an expression is accepted")
		sym.Assert(got == want.Val, "the value follows the usual rules")
		sym.Cover("value")
	}
}

func init() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	starts, bound := h.FormulaStarts(n)
	sym.Check("bytes", len(starts), bound, func(c int) { decide(h.Build("s", starts[c])) })
	cases := h.FormulaCases()
	sym.Check("patterns", len(cases), strconv.Itoa(len(h.Formulas))+" kinds of expressions with arbitrary digits, operators and bytes", func(c int) {
		decide(h.Build("s", cases[c]))
	})
}
