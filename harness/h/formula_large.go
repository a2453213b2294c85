package h

import "strings"

// LargeFormulas are long and deep expressions.
var LargeFormulas = []string{
	strings.Repeat("1+", 20) + "dod", strings.Repeat("9-", 33) + "do2", strings.Repeat("2*", 17) + "nod", "1" + strings.Repeat("-d", 2) + strings.Repeat("-3", 20),
	strings.Repeat("(", 15) + "dod" + strings.Repeat(")", 15), strings.Repeat("(", 17) + "d" + strings.Repeat("o2)", 1) + strings.Repeat("+1)", 16), strings.Repeat("-", 20) + "dod", strings.Repeat("-(", 9) + "dod" + strings.Repeat(")", 9),
	strings.Repeat(" ", 40) + "d" + strings.Repeat("\n", 20) + "o" + strings.Repeat("\t", 17) + "d" + strings.Repeat(" ", 33), strings.Repeat("1*2+", 12) + "dod", strings.Repeat("7-6/2-", 8) + "do2", strings.Repeat("1+2*(3-", 8) + "dod" + strings.Repeat(")", 8),
	strings.Repeat("(", 17) + "d" + strings.Repeat(")", 16), strings.Repeat("(", 16) + "d" + strings.Repeat(")", 17), "1" + strings.Repeat("_", 40) + "dod", strings.Repeat("0", 30) + "d", "1o" + strings.Repeat("9", 17) + "d", strings.Repeat("1+", 20) + "?",
	strings.Repeat("1+", 17) + "6/d/d", "d-" + strings.Repeat("(8-", 12) + "d" + strings.Repeat(")", 12), "100000000000/" + strings.Repeat("2/", 20) + "n", strings.Repeat("3*", 45) + "d", "8o4o" + strings.Repeat("(1)*", 16) + "d", strings.Repeat("(1-2)-", 12) + "do3",
	"1_" + strings.Repeat("2_", 16) + "dod", "1+" + strings.Repeat("2", 19) + "d", "-" + strings.Repeat("(-", 12) + "d" + strings.Repeat(")", 12) + "o2",
}

// LargeFormulaCases spells out the operators next to arbitrary digits.
func LargeFormulaCases() (r []string) {
	for _, p := range LargeFormulas {
		r = append(r, operators("", p)...)
	}
	return
}
