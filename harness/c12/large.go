package main

import (
	"strings"

	"github.com/shellyln/takenoco/extra"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/h"
	"verif/harness/sym"
)

var ats = []int{63, 64, 127, 128, 255, 256, 1023, 4096}

var around = []struct {
	pattern string
	off     int
}{
	{"@@", 1}, {"?a", 1}, {"a?", 1}, {".@", 1}, {"\u00e9@", 2}, {"@\u4e2d", 1}, {"@", 1}, {"@", 0},
}

// Boundaries deep inside a long source.
func far(c int) {
	a := around[c%len(around)]
	c /= len(around)
	at := ats[c%len(ats)]
	before := strings.Repeat("x", at)
	after := ""
	if c/len(ats)%2 == 1 {
		before, after = strings.Repeat("- ", at/2)[:at/2*2]+strings.Repeat("_", at%2), strings.Repeat("z", 70)
	}
	s := h.Pattern("s", before+a.pattern+after)
	decide(WordBoundary(), word, s, at+a.off)
	decide(extra.UnicodeWordBoundary(), uniWord, s, at+a.off)
}

// Every boundary of a text.
func along(c int) {
	s := h.Pattern("s", []string{
		"it's 5@$ - a_b\u00e9 \u4e2d\u6587@\u200d. " + strings.Repeat("word, ", 12),
		"\xff\x80a\xc3@b\xe4\xb8\xf0\x9f\x98\x80\u0301e\u0301@",
	}[c/2])
	for pos := 0; pos <= len(s); pos++ {
		if c%2 == 0 {
			decide(WordBoundary(), word, s, pos)
		} else {
			decide(extra.UnicodeWordBoundary(), uniWord, s, pos)
		}
	}
}

var _ = sym.And

func init() {
	sym.Check("far", len(around)*len(ats)*2, "both matchers at positions 63..4096 between arbitrary characters", far)
	sym.Check("along", 4, "both matchers at every position of two texts with arbitrary characters in them", along)
}
