// C28: csv.Parse recovers exactly the quoted and plain cells.
package main

import (
	"github.com/shellyln/takenoco/_examples/csv"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

func decide(s string) {
	want, ok := h.Csv(s)
	got, err := csv.Parse(s)
	if !ok {
		sym.Assert(err != nil, "a text that is no table is an error")
		sym.Cover("error")
		return
	}
	sym.Assert(err == nil, "a table is parsed without error")
	sym.Assert(len(got) == len(want), "the table has the right number of rows")
	for i := range want {
		sym.Assert(len(got[i]) == len(want[i]), "each row has the right number of cells")
		for j := range want[i] {
			sym.Assert(got[i][j] == want[i][j], "cells hold exactly the quoted or trimmed text")
		}
	}
	sym.Cover("table")
}

// classed is a text of n arbitrary bytes (below limit) whose first bytes have
// the classes given by the digits of c.
func classed(n, c, limit int) string {
	s := sym.String("s", n)
	for i := range n {
		b := s[i]
		sym.Assume(int(b) < limit)
		if c == 0 {
			continue
		}
		lf, blank := sym.And(b >= 10, b <= 13), sym.Or(b == ' ', b == '\t')
		switch c % 7 {
		case 1:
			sym.Assume(b == ',')
		case 2:
			sym.Assume(b == '"')
		case 3:
			sym.Assume(lf)
		case 4:
			sym.Assume(blank)
		case 5:
			sym.Assume(b >= 0x80)
		case 6:
			sym.Assume(b < 0x80 && b != ',' && b != '"')
			sym.Assume(sym.And(!lf, !blank))
		}
		c /= 7
	}
	return s
}

// first lists the combinations of classes of the first k bytes.
func first(k int, ascii bool) []int {
	if k == 0 {
		return []int{0}
	}
	var r []int
	for _, c := range first(k-1, ascii) {
		for d := 1; d < 7; d++ {
			if d != 5 || !ascii {
				r = append(r, c*7+d)
			}
		}
	}
	return r
}

// '?' an arbitrary byte, '@' an arbitrary ASCII byte
var patterns = []string{
	"\"@@\",@\"@", "\"@\"@\"@\"", "a@\"b\"@c", "x,@@\n@,@", "a\r\n@@\nb@", "\"a@\"\"b\"@@", "@\n\n@@", "\xc2?\"a\"\xc2?,b", "a\xc2?b,\xc2?",
	"\xe2\x80?@\"a\"", "\"\xf0\x9f??\",@", "1,2,3@4,\"@\",6\n", ",,@@,,", " @ a b @ ", "\"@\n@,\"@", "\"a\" @ \"b\"", "\"\"\"@\"@", "a\"@\"@",
}

func init() {
	full, max, k := 4, 5, 2
	if sym.Thorough() {
		full, max, k = 5, 6, 3
	}
	deep, asc := first(k-1, false), first(k, true)
	sym.Check("bytes", len(deep)+full, "all texts of 0..4 (thorough 5) bytes", func(c int) {
		if c < len(deep) {
			decide(classed(full, deep[c], 256))
		} else {
			decide(sym.String("s", c-len(deep)))
		}
	})
	sym.Check("ascii", len(asc), "all ASCII texts of 5 (thorough 6) bytes", func(c int) { decide(classed(max, asc[c], 128)) })
	sym.Check("patterns", len(patterns), "18 longer texts with 1..4 arbitrary bytes", func(c int) { decide(h.Pattern("s", patterns[c])) })
}
