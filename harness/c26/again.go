package main

import (
	"github.com/shellyln/takenoco/extra"
	"verif/harness/h"
	"verif/harness/sym"
)

// Call histories: one lexer value on two sources.
func init() {
	pairs := []struct {
		k    int
		a, b string
	}{
		{0, "2021-0?-0?", "20?1-?1-01"}, {0, "2021-01-0?", "-2021-01-0?"}, {1, "1?:?0", "?1:3?"}, {1, "11:30:1?.?", "11:30:1?"}, {1, "1?:30", "1?:30:00.1?"},
		{2, "2021-01-01T1?:30Z", "2021-01-01T1?:30:0?+09:00"}, {2, "2021-01-0?T11:30?", "2021-01-0?T11:30Z"}, {2, "2021-01-01T11:30-0?:00", "2021-01-01T11:30Z?"},
	}
	sym.Check("again", len(pairs), "one lexer on two sources one after the other, 8 pairs with 2 to 4 arbitrary bytes", func(c int) {
		p := pairs[c]
		f, ref, class := extra.DateStr(), h.Lexer(date), ":extra:DateStr"
		switch p.k {
		case 1:
			f, ref, class = extra.TimeStr(), clock, ":extra:TimeStr"
		case 2:
			f, ref, class = extra.DateTimeStr(), dateTime, ":extra:DateTimeStr"
		}
		h.Lex(f, ref, class, h.Pattern("s", p.a), 0, 1)
		h.Lex(f, ref, class, h.Pattern("t", p.b), 0, 0)
	})
}
