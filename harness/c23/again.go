package main

import (
	"verif/harness/sym"
)

// Call histories: two positions located one after the other, in sources that
// may be the same.
func init() {
	ts := [][2]int{{4, 4}, {4, 1}, {0, 8}}
	sym.Check("again", len(ts)*9, "two calls with any sources of 2 bytes, positions and 3 pairs of tab widths", func(c int) {
		t := ts[c/9]
		locate(sym.String("s", 2), c%3, t[0])
		locate(sym.String("t", 2), c/3%3, t[1])
	})
}
