package main

import (
	"github.com/shellyln/takenoco/_examples/csv"
	"verif/harness/h"
	"verif/harness/sym"
)

// Call histories: a text is parsed, the table returned is overwritten, and
// another text (perhaps the same) is parsed.
func init() {
	pairs := [][2]string{{"??", "??"}, {"a,@", "a,@"}, {"@\nb", "@,b"}, {"\"@\"", "\"@\""}, {"@,\"x", "@,x"}, {"\"\"\"@\"", "@"}, {"a\n@", "a"}, {"", "@"}}
	sym.Check("again", len(pairs), "two parses one after the other, 8 pairs of texts with 1 to 4 arbitrary bytes", func(c int) {
		a, b := h.Pattern("s", pairs[c][0]), h.Pattern("t", pairs[c][1])
		got, _ := csv.Parse(a)
		for _, row := range got {
			for j := range row {
				row[j] = "gone"
			}
		}
		for i := range got {
			got[i] = append(got[i][:0], "gone", "gone", "gone")
		}
		decide(a)
		decide(b)
	})
}
