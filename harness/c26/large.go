package main

import (
	"strings"

	"verif/harness/h"
	"verif/harness/sym"
)

var years = []string{
	strings.Repeat("1", 9) + "?-12-31", strings.Repeat("0", 40) + "1?-0#-1#", "-" + strings.Repeat("9", 70) + "-?1-01", strings.Repeat("20", 65) + "-02-3#?",
	"-" + strings.Repeat("12", 9) + "?T01:02",
}

var fractions = []string{
	"12:34:56." + strings.Repeat("1", 9) + "?", "12:34:56.12345678?" + strings.Repeat("9", 20), "23:59:6#." + strings.Repeat("0", 40) + "?", "00:00:00." + strings.Repeat("?", 3) + strings.Repeat("5", 10),
}

func init() {
	n, m := len(years), len(fractions)
	sym.Check("long", 3*n+3*m, "years of up to 130 digits and fractions of up to 41, some digits arbitrary", func(c int) {
		if c < 3*n {
			s := years[c/3]
			if c%3 == 2 {
				s += "T23:59:5#.9Z"
			}
			decide(c%3, h.Pattern("s", s), 0)
			return
		}
		c -= 3 * n
		s := fractions[c/3]
		switch c % 3 {
		case 0:
			decide(1, h.Pattern("s", s), 0)
		case 1:
			decide(2, h.Pattern("s", strings.Repeat("9", 20)+"-0#-01T"+s+"Z"), 0)
		case 2:
			decide(2, h.Pattern("s", "2001-02-03T"+s+"-0#:30?"), 0)
		}
	})
	sym.Check("late", 12, "all lexers at positions 40 and 130, after digits and other text", func(c int) {
		pos := []int{40, 130}[c/3%2]
		pre := strings.Repeat([]string{"1", "-"}[c/6], pos)
		decide(c%3, pre+h.Pattern("s", []string{"20#1-?2-0#x", "1#:?5:59.1?", "2001-0#-03T04:05:0?.5+0#:00?"}[c%3]), pos)
	})
}
