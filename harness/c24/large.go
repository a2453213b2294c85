package main

import (
	"strings"

	"verif/harness/h"
	"verif/harness/sym"
)

// R repeats s.
func R(s string, n int) string { return strings.Repeat(s, n) }

var longer = []string{
	R("1", 70) + "?", R("10", 20) + "_?1", R("0", 40) + "?", R("7", 65) + "__?.?", R("1_", 40) + "?",
	"0" + R("_", 30) + "?1", "1." + R("5", 60) + "?", "-1." + R("_", 20) + "?e1", "." + R("0", 50) + "1?", "." + R("_", 18) + "?",
	"1e" + R("9", 30) + "?", "1e-" + R("0_", 20) + "?", "+" + R("12_", 25) + "." + R("3_", 25) + "e+" + R("4", 9) + "?_",
	R("deadBEEF", 10) + "_?", R("f_", 33) + "g?", "1" + R("0", 33) + "?" + R("0", 33), "0." + R("?0", 2) + R("0", 60) + "e0", R("_", 20) + "1?",
}

func init() {
	n := len(longer)
	sym.Check("long", len(lexers)*n, "all lexers on 18 sources of up to 90 bytes, 1 or 2 of them arbitrary", func(c int) {
		decide(c%len(lexers), h.Pattern("s", longer[c/len(lexers)]), 0)
	})
	sym.Check("late", len(lexers)*4, "all lexers at positions 40 and 130, after digits and other text", func(c int) {
		pos := []int{40, 130}[c/len(lexers)%2]
		pre := R([]string{"1", "x"}[c/len(lexers)/2], pos)
		decide(c%len(lexers), pre+h.Pattern("s", "1?_.5e?1"), pos)
	})
}
