package main

import (
	"verif/harness/sym"
)

// Call histories: conversions one after the other.
func init() {
	pairs := []struct {
		f func(string)
		a string
		g func(string)
		b string
	}{
		{date, "2021-0#-0#", date, "2021-0#-3#"}, {date, "202#-02-29", date, "202#-02-29"}, {timeOfDay, "1#:#0:00.000000000", timeOfDay, "1#:00:#0.000000001"},
		{dateTime, "2021-03-0#T0#:00:00.000000000+09:00", dateTime, "2021-03-0#T0#:00:00.000000000-09:00"}, {date, "2021-03-0#", dateTime, "2021-03-0#T0#:00:00.5#0000000+0#:00"},
		{timeOfDay, "0#:00:00.000000000", date, "1970-01-0#"}, {dateTime, "2000-01-#1T00:00:00.000000000+00:00", dateTime, "2000-01-0#T00:00:00.000000000+01:#0"},
	}
	sym.Check("again", len(pairs), "two conversions one after the other, 7 pairs with 2 to 5 free digits", func(c int) {
		p := pairs[c]
		p.f(named("d", p.a))
		p.g(named("e", p.b))
	})
}
