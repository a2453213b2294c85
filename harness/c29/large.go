package main

import (
	"strconv"
	"strings"

	"verif/harness/h"
	"verif/harness/sym"
)

func R(s string, n int) string { return strings.Repeat(s, n) }

// grid is a table of given cells with two free cells.
func grid(rows, cols int, p, q string) [][]string {
	var t [][]string
	for i := 0; i < rows; i++ {
		var r []string
		for j := 0; j < cols; j++ {
			c := []string{"x", "1,2", "a\"b", " y ", "l\nm", "", "\"\"", "\u4e2d"}[(i+j)%8] + strconv.Itoa(i*j)
			if i == rows/2 && j == cols/2 {
				c = h.Pattern("p", p)
			}
			if i == rows-1 && j == cols-1 {
				c = h.Pattern("q", q)
			}
			r = append(r, c)
		}
		t = append(t, r)
	}
	return t
}

// cells: long ones
var cells = []string{
	R("a", 130) + "@@", R("\"", 40) + "@", R(",", 40) + "@", R("\n", 20) + "@x", R(" ", 70) + "@", "@" + R("\t", 40), R("\r\n", 17) + "@\"", R("\u4e2d", 40) + "@", "@" + R("a\"b", 20) + "@",
	R("ab ", 22) + "\"" + R("@", 2),
}

func init() {
	dims := [][2]int{{1, 40}, {40, 1}, {20, 9}, {9, 20}, {3, 70}, {130, 2}}
	n := len(cells)
	sym.Check("large", len(dims)*2+2*n, "tables of up to 130 rows or 70 columns and cells of up to 132 bytes, 2 to 4 bytes arbitrary", func(c int) {
		if c < 2*n {
			k := h.Pattern("c", cells[c/2])
			if c%2 == 0 {
				roundTrip([][]string{{k}})
			} else {
				roundTrip([][]string{{"", k, "x"}, {k, ""}})
			}
			return
		}
		c -= 2 * n
		d := dims[c/2]
		if c%2 == 0 {
			roundTrip(grid(d[0], d[1], "@", "@"))
		} else {
			roundTrip(grid(d[0], d[1], "a@@b", "@\""))
		}
	})
}
