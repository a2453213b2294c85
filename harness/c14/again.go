package main

import (
	"verif/harness/h"
	"verif/harness/sym"
)

// Call histories: two conversions one after the other.
func init() {
	type pair struct {
		a, b   string
		ra, rb int
	}
	pairs := []pair{
		{"??", "??", 10, 10}, {"??", "??", 10, 16}, {"?", "??", 16, 10}, {"??", "?", 2, 10}, {"-?", "+?", 10, 10}, {"922337203685477580?", "922337203685477580?", 10, 10},
		{"1844674407370955161?", "?", 10, 8}, {"1?", "1?", 8, 36}, {"", "?", 10, 10}, {"?", "", 10, 10},
	}
	sym.Check("again", len(pairs)*4, "two conversions one after the other, 10 pairs of texts and radixes", func(c int) {
		p := pairs[c/4]
		for i, text := range []string{h.Pattern("s", p.a), h.Pattern("t", p.b)} {
			r := []int{p.ra, p.rb}[i]
			if (c>>i)&1 == 0 {
				signed(text, -1, r, r == 10)
			} else {
				unsigned(text, -1, r, r == 10)
			}
		}
	})
}
