package main

import (
	"strings"

	"verif/harness/h"
	"verif/harness/sym"
)

func R(s string, n int) string { return strings.Repeat(s, n) }

var large = []string{
	R("a,", 40) + "@", R("a\n", 40) + "@@", R("\"x\",", 20) + "\"@@", R("a,b,\"c\nd\"\r\n", 12) + "@,@", R("x", 130) + "@" + R("y", 20) + "@z",
	"\"" + R("x", 130) + "@\"\"" + R("y\n", 20) + "@\"", "\"" + R("\"\"", 30) + "@\"@", R("\"a\" ", 20) + "@\"b\"@", R(" ", 70) + "@" + R("\t", 40) + "@", R("\n", 40) + "@\n" + R("\n", 20) + "@",
	R(",", 40) + "\n" + R(",", 20) + "@@", "a\n" + R("\n\r", 20) + "@", R("\u4e2d\u6587,", 17) + "\xe4?@", "a" + R("\xff", 20) + "?\"", R("1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20\n", 3) + "\"@\",@", "\"" + R("a", 70) + "\"" + R("@", 2),
	R("a,", 17) + "\"@" + R(",", 17), "@" + R("a", 70) + "\n@" + R(",b", 18), R("\"\",", 33) + "@", R("\"\"\"\",", 17) + "@@",
}

func init() {
	sym.Check("large", len(large), "20 texts of up to 41 rows, 41 cells a row, cells of 150 bytes, 41 quotes and 40 blanks or line breaks, 1 or 2 bytes arbitrary", func(c int) { decide(h.Pattern("s", large[c])) })
}
