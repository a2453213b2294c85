package main

import (
	"strconv"

	"verif/harness/h"
	"verif/harness/sym"
)

// sizedSource: n bytes or elements, three of them arbitrary.
func sizedSource(n int) (string, h.Ints) {
	l, p := h.Ints{}, ""
	for i := 0; i < n; i++ {
		if i == 0 || i == n/2 || i == n-1 {
			l, p = append(l, int(sym.Int64("e"+strconv.Itoa(i)))), p+"?"
		} else {
			l, p = append(l, i*7), p+string(rune('a'+i%26))
		}
	}
	return h.Pattern("s", p), l
}

func init() {
	n, sizes := len(makers), []int{17, 40, 130}
	sym.Check("large", n*len(sizes)*3, "sources of 17, 40 and 130 bytes or elements", func(c int) {
		m, k := makers[c%n], sizes[c/n%3]
		s, l := sizedSource(k)
		switch c / n / 3 {
		case 0:
			fresh(m, s, l, tag(2))
		case 1:
			apartOn(m, makers[(c+1)%n], s, l)
		case 2:
			startOn(m, s, l)
		}
	})
}
