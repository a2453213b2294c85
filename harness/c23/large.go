package main

import (
	"strings"

	"verif/harness/h"
	"verif/harness/sym"
)

// Long sources: n lines of width characters each, some bytes free.
func long(n, width, kind int) string {
	eol := []string{"\n", "\r\n", "\r", "\n\n"}[kind%4]
	line := strings.Repeat("abc\td", width/5)
	s := ""
	for i := 0; i < n; i++ {
		if kind%3 == 1 && i%4 == 2 {
			s += "\t\t"
		}
		s += line + eol
	}
	return s
}

func init() {
	type shape struct{ n, width, kind, at, tab int }
	var shapes []shape
	for i, d := range [][2]int{{9, 10}, {40, 5}, {130, 0}, {1, 100}, {2, 300}, {17, 35}} {
		for kind := 0; kind < 4; kind++ {
			for at := 0; at < 5; at++ {
				shapes = append(shapes, shape{d[0], d[1], kind + i%3, at, tabs[(at+kind)%4]})
			}
		}
	}
	shapes = append(shapes, shape{3, 10, 0, 2, 40}, shape{3, 10, 1, 4, 17}, shape{3, 10, 2, 3, 130})
	sym.Check("long", len(shapes), "sources of up to 130 lines or 600 bytes, positions near the start, in the middle and at the end, 2 free bytes before and after the position, tab widths up to 130", func(c int) {
		d := shapes[c]
		s := long(d.n, d.width, d.kind)
		pos := len(s) * d.at / 4
		s = s[:pos] + "x??y" + s[pos:]
		locate(h.Pattern("s", s), pos+2, d.tab)
	})
}
