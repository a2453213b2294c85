package main

import (
	"strconv"
	"strings"

	"verif/harness/h"
	"verif/harness/sym"
)

var befores = []string{strings.Repeat("a", 40), strings.Repeat("1", 17), strings.Repeat("\n", 33) + "x", strings.Repeat("\xe4\xb8", 65)}

var afters = []string{strings.Repeat("a", 40), strings.Repeat("1", 20), strings.Repeat("\u4e2d", 17), strings.Repeat(" ab", 9)}

func init() {
	its := append(items(), composed...)
	n := len(its)
	sym.Check("long", n*len(befores), strconv.Itoa(n)+" parsers on texts they are made for followed by up to 51 more bytes, after up to 130 bytes and above up to 20 nodes", func(c int) {
		it := its[c%n]
		k := c / n
		src := it.One
		if (c+k)%2 == 1 {
			src = it.Two
		}
		decide(it.Mk, befores[k], h.Source("s", src)+afters[(c+k)%len(afters)], []int{1, 9}[c%2], []int{20, 2}[c%2], !fixed[it.Name])
	})
}
