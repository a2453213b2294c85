// C26: date and time lexers accept and normalise exactly ISO 8601 forms.
package main

import (
	"github.com/shellyln/takenoco/extra"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

// two is a two-digit number whose first digit is at most hi.
func two(s string, i int, hi byte) bool {
	return i+2 <= len(s) && sym.And(sym.And(s[i] >= '0', s[i] <= hi), h.Digit(s[i+1]))
}

func is(s string, i int, c byte) bool { return i < len(s) && s[i] == c }

func date(s string, i int) (string, int, bool) {
	j := i
	if is(s, j, '-') {
		j++
	}
	y := j
	for j < len(s) && h.Digit(s[j]) {
		j++
	}
	if j-y < 4 || !is(s, j, '-') || !two(s, j+1, '1') || !is(s, j+3, '-') || !two(s, j+4, '3') {
		return "", i, false
	}
	return s[i : j+6], j + 6, true
}

func clock(s string, i int) (string, int, bool) {
	if !two(s, i, '2') || !is(s, i+2, ':') || !two(s, i+3, '5') {
		return "", i, false
	}
	j := i + 5
	text := s[i:j]
	if !is(s, j, ':') || !two(s, j+1, '6') {
		return text + ":00.000000000", j, true
	}
	text += s[j : j+3]
	j += 3
	frac := ""
	if is(s, j, '.') {
		for k := j + 1; k < len(s) && len(frac) < 9 && h.Digit(s[k]); k++ {
			frac += s[k : k+1]
		}
		if frac != "" {
			j += 1 + len(frac)
		}
	}
	for len(frac) < 9 {
		frac += "0"
	}
	return text + "." + frac, j, true
}

func dateTime(s string, i int) (string, int, bool) {
	d, j, ok := date(s, i)
	if !ok || !is(s, j, 'T') {
		return "", i, false
	}
	t, j, ok := clock(s, j+1)
	if !ok {
		return "", i, false
	}
	if is(s, j, 'Z') {
		return d + "T" + t + "+00:00", j + 1, true
	}
	if j < len(s) && sym.Or(s[j] == '+', s[j] == '-') && two(s, j+1, '9') && is(s, j+3, ':') && two(s, j+4, '5') {
		return d + "T" + t + s[j:j+6], j + 6, true
	}
	return "", i, false
}

func decide(k int, s string, pos int) {
	switch k {
	case 0:
		h.Lex(extra.DateStr(), date, ":extra:DateStr", s, pos, 1)
	case 1:
		h.Lex(extra.TimeStr(), clock, ":extra:TimeStr", s, pos, 1)
	case 2:
		h.Lex(extra.DateTimeStr(), dateTime, ":extra:DateTimeStr", s, pos, 1)
	}
}

// prefixes of date-times, followed by n arbitrary bytes
var prefixes = []string{"2021-02-29T", "-12345-1#-0#T", "0000-0#-3#T2#:5#:", "1999-12-31T23:59:60.", "2000-01-01T00:00+", "2000-01-01T0#:0#:0#.123456789", "2000-01-01T00:00:00.12"}

func init() {
	dates, times, stamps, suffix := []int{0, 1, 3, 4, 5, 8, 9, 10, 11, 12, 13}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 17, 18, 19, 20}, []int{0, 10, 11, 17}, 11
	if sym.Thorough() {
		dates, times, stamps, suffix = nil, nil, nil, 24
		for n := 0; n <= 26; n++ {
			if n <= 18 {
				dates = append(dates, n)
			}
			if n <= 24 {
				times = append(times, n)
			}
			if n <= 22 {
				stamps = append(stamps, n)
			}
		}
	}
	for k, ns := range [][]int{dates, times, stamps} {
		sym.Check([]string{"date", "time", "datetime"}[k], len(ns)+1, []string{
			"DateStr on all sources of 11 lengths up to 13 (thorough 0..18) bytes",
			"TimeStr on all sources of 16 lengths up to 20 (thorough 0..24) bytes",
			"DateTimeStr on all sources of 0, 10, 11 and 17 (thorough 0..22) bytes",
		}[k], func(c int) {
			if c == len(ns) {
				decide(k, sym.String("s", 13), 2)
			} else {
				decide(k, sym.String("s", ns[c]), 0)
			}
		})
	}
	sym.Check("suffix", len(prefixes)*(suffix+1), "DateTimeStr on 7 beginnings followed by 0..11 (thorough 24) arbitrary bytes", func(c int) {
		s := prefixes[c%len(prefixes)]
		for range c / len(prefixes) {
			s += "?"
		}
		decide(2, h.Pattern("s", s), 0)
	})
}
