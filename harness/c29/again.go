package main

import (
	"github.com/shellyln/takenoco/_examples/csv"
	"verif/harness/h"
	"verif/harness/sym"
)

// Call histories: tables written one after the other.
func init() {
	pairs := [][2]string{{"@", "@"}, {"@,x", "@"}, {"@", "@,x"}, {"a,@/b,c", "a,@/b,c"}, {"x@", "x@"}, {"@/y", "@/y"}}
	sym.Check("again", len(pairs), "two tables one after the other (the first written twice, and changed in between), 6 pairs of shapes with 2 arbitrary ASCII bytes", func(c int) {
		a := [][]string{{h.Pattern("s", pairs[c][0])}}
		b := [][]string{{h.Pattern("t", pairs[c][1]), "z"}, {"q"}}
		roundTrip(a)
		a[0][0] += "\"more"
		roundTrip(a)
		keep := csv.ToCsv(a)
		roundTrip(b)
		sym.Assert(csv.ToCsv(a) == keep, "the same table is written the same")
	})
}
