package main

import (
	"strings"

	. "github.com/shellyln/takenoco/base"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/h"
	"verif/harness/sym"
)

var ats = []int{15, 63, 64, 127, 128, 255, 256, 1023, 4096}

// A character deep inside a long source, which ends 0..4 bytes behind it.
func far(c int) {
	k := classes[c%len(classes)]
	c /= len(classes)
	at := ats[c%len(ats)]
	tail := []string{"?", "??", "????", "????" + strings.Repeat("z", 70)}[c/len(ats)]
	decide(k.mk(), k.in, h.Pattern("s", strings.Repeat("x", at)+tail), at)
}

// Many ranges: fixed ones and one of arbitrary bounds among them.
func many(c int) {
	neg := c % 2
	n := []int{9, 17, 40}[c/2%3]
	at := []int{0, 1, n / 2, n - 2, n - 1}[c/6]
	var rr []RuneRange
	for i := 0; i < n; i++ {
		// decreasing, disjoint, of 1, 2 or 3 characters, some beyond ASCII
		lo := rune(7*(n-i) + 20)
		if i%5 == 4 {
			lo *= 300
		}
		rr = append(rr, RuneRange{Start: lo, End: lo + rune(i%3)})
	}
	rr[at] = RuneRange{Start: sym.Rune32("lo"), End: sym.Rune32("hi")}
	in := func(r rune) bool {
		in := false
		for _, x := range rr {
			in = sym.Or(in, sym.And(x.Start <= r, r <= x.End))
		}
		if neg == 1 {
			return !in
		}
		return in
	}
	p := CharRange(rr...)
	if neg == 1 {
		p = CharRangeN(rr...)
	}
	decide(p, in, h.Pattern("s", "x????"), 1)
}

// A matcher used again and again along a source.
func along(c int) {
	k := classes[c%len(classes)]
	p := k.mk()
	s := h.Pattern("s", "a 1\n\xe3\x80\x80_?\x80F9\xc2\x85?\xf0\x9f\x98\x80z\t"+strings.Repeat("7g\xc2\xa0", 20)+"?")
	for pos := 0; pos < len(s); pos++ {
		decide(p, k.in, s, pos)
	}
}

func init() {
	sym.Check("far", len(classes)*len(ats)*4, "the fixed character classes at positions 15, 63, 64, 127, 128, 255, 256, 1023 and 4096, 1..4 arbitrary bytes there", far)
	sym.Check("many", 2*3*5, "CharRange and CharRangeN with 9, 17 and 40 ranges, one of them arbitrary, over an arbitrary character", many)
	sym.Check("along", len(classes), "one matcher at every position of a source of 107 bytes, three of them arbitrary", along)
}
