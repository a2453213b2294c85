package main

import (
	"strings"

	"verif/harness/h"
	"verif/harness/sym"
)

var long = []string{
	strings.Repeat("a", 20) + "?", strings.Repeat("Z9_$", 10) + "?z?", strings.Repeat("x", 130) + "??", "_" + strings.Repeat("0", 70) + "?",
	strings.Repeat("\u00e9", 20) + "?", strings.Repeat("\u4e2d\u6587", 17) + "a?", "$" + strings.Repeat("\u0301", 33) + "?", strings.Repeat("\U00020000", 20) + "?a",
	strings.Repeat("ab\u200d", 17) + "\u00b7?", "a?" + strings.Repeat("b", 60) + "?", strings.Repeat("9", 40) + "?",
}

func init() {
	n := len(long)
	sym.Check("long", 2*n, "both lexers on 11 sources of up to 132 bytes, 1 or 2 of them arbitrary", func(c int) {
		decide(c%2 == 0, h.Pattern("s", long[c/2]), 0)
	})
	sym.Check("late", 8, "both lexers at positions 40 and 130, after identifiers and other text", func(c int) {
		pos := []int{40, 130}[c/2%2]
		decide(c%2 == 0, strings.Repeat([]string{"a", " "}[c/4], pos)+h.Pattern("s", "b??c"), pos)
	})
	// more than one arbitrary character after many
	m := 4
	if sym.Thorough() {
		m = 8
	}
	sym.Check("long characters", m, "UnicodeIdentifierStr on 20 letters, an arbitrary character of 1..4 bytes and more letters", func(c int) {
		decide(true, strings.Repeat([]string{"a", "\u03b1"}[c/4], 20)+char("c", 1+c%4)+"z\u0661", 0)
	})
}
