package main

import (
	"strings"

	"github.com/shellyln/takenoco/_examples/csv"
	"github.com/shellyln/takenoco/_examples/formula"
	"github.com/shellyln/takenoco/_examples/torpn"
	"verif/harness/h"
	"verif/harness/sym"
)

const fill = "a1 b-\"c,.e+9_\xc3\xa9\x80(\n"

// instance k of a pattern: concrete characters for '?' and '#'
func instance(p string, k int) string {
	b := []byte(p)
	for i := range b {
		switch b[i] {
		case '?':
			b[i] = fill[(k*5+i*3)%len(fill)]
		case '#':
			b[i] = byte('0' + (k*7+i)%10)
		}
	}
	return string(b)
}

// many: the parse after many parses of all sorts of sources, long ones among
// them, is like one with a new parser.
func many(n int) func(int) {
	return func(c int) {
		it := h.Items[c]
		used := it.Mk()
		for k := 0; k < n; k++ {
			switch k % 4 {
			case 0:
				run(used, instance(it.One, k))
			case 1, 2:
				run(used, instance(it.Two, k))
			case 3:
				run(used, strings.Repeat(instance(it.One, k), 1+k))
			}
		}
		s := h.Source("t", it.Two)
		compare(run(used, s), run(it.Mk(), s))
	}
}

// The same for a source used before, with others in between.
func between(c int) {
	it := h.Items[c]
	used := it.Mk()
	s := h.Source("t", it.Two)
	first := run(used, s)
	for k := 0; k < 9; k++ {
		run(used, instance(it.One, k)+strings.Repeat(instance(it.Two, k), k*k))
	}
	compare(run(used, s), first)
}

func manyExamples(c int) {
	switch c {
	case 0:
		t := h.Source("t", "??,?")
		r0, e0 := csv.Parse(t)
		for k := 0; k < 20; k++ {
			csv.Parse(strings.Repeat(instance("?,\"?\"\n", k), 1+k))
		}
		r1, e1 := csv.Parse(t)
		sym.Assert(eqErr(e0, e1) && eqRows(r0, r1), "csv.Parse does not depend on earlier calls")
	case 1:
		t := h.Source("t", "#?#")
		r0, e0 := formula.Parse(t)
		for k := 0; k < 20; k++ {
			formula.Parse(strings.Repeat(instance("#+#*?-", k), 1+k) + "1")
		}
		r1, e1 := formula.Parse(t)
		sym.Assert(eqErr(e0, e1) && r0 == r1, "formula.Parse does not depend on earlier calls")
	case 2:
		t := h.Source("t", "#?#")
		r0, e0 := torpn.Parse(t)
		for k := 0; k < 20; k++ {
			torpn.Parse(strings.Repeat(instance("#+#*?-", k), 1+k) + "1")
		}
		r1, e1 := torpn.Parse(t)
		sym.Assert(eqErr(e0, e1) && eqAny(r0, r1), "torpn.Parse does not depend on earlier calls")
	}
}

func init() {
	n := 24
	if sym.Thorough() {
		n = 80
	}
	sym.Check("many", len(h.Items), "a parse of an arbitrary source after 24 (thorough 80) parses of other sources of up to some hundred bytes", many(n))
	sym.Check("between", len(h.Items), "two parses of an arbitrary source with 9 of others of up to some hundred bytes in between", between)
	sym.Check("manyExamples", 3, "the csv, formula and RPN parsers after 20 parses of long sources", manyExamples)
}
