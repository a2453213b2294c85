package main

import (
	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

// Look-behind over wide ranges of offsets, the position free around them.
func wideBehind(negative bool, lo, hi, nc int) {
	e := &h.Env{MaxCalls: nc*(hi-lo+1) + 1, Modes: 2}
	var ps []ParserFn
	for i := 0; i < nc; i++ {
		ps = append(ps, e.Child(i, i%2+1))
	}
	p := LookBehind(lo, hi, ps...)
	if negative {
		p = LookBehindN(lo, hi, ps...)
	}
	ctx, s := h.Begin(1)
	ats := []int{hi + 3, hi, (lo + hi) / 2, lo, lo - 1}
	at := ats[sym.Choose("at", len(ats))]
	if at < 0 {
		at = 0
	}
	ctx.Position, s.Pos = at, at
	out, err := p(ctx)
	v, k := behind(e, nc, lo, hi, s, hi)
	sym.Assert(k == len(e.Calls), "nothing else is run")
	result(v, negative, s, out, err)
}

// Look-arounds in look-arounds.
func nested(kind, d, stack int) {
	e := &h.Env{MaxCalls: d + 1, Modes: 3}
	p := e.Child(0, 2)
	want := 0
	for i := 0; i < d; i++ {
		k := kind
		if kind == 4 {
			k = i % 4
		}
		if k%2 == 1 {
			want++
		}
		switch k {
		case 0:
			p = LookAhead(p)
		case 1:
			p = LookAheadN(p)
		case 2:
			p = LookBehind(0, 0, p)
		default:
			p = LookBehindN(0, 0, p)
		}
	}
	ctx, s := h.Begin(stack)
	out, err := p(ctx)
	sym.Assert(len(e.Calls) == 1, "the innermost parser is run once")
	c := e.Calls[0]
	c.Saw(0, s, "nested look-arounds")
	v := verdict{holds: c.St == h.OK}
	if c.St == h.Err {
		v.err = &c
	}
	result(v, want%2 == 1, s, out, err)
}

func init() {
	sizes := []int{9, 17, 40}
	sym.Check("wide ahead", 2*len(sizes)*2, "look-ahead of 9, 17 and 40 children, 0 and 20 nodes on the stack", func(c int) {
		lookAhead(c%2 == 1, sizes[c/2%3], c/2/3*20, c%3)
	})
	rs := [][2]int{{0, 40}, {17, 40}, {8, 9}, {33, 33}, {40, 17}, {0, 17}}
	sym.Check("wide behind", 2*len(rs)*2, "look-behind from 0..40, 17..40, 8..9, 33..33, 40..17 and 0..17 back, positions before, inside and behind the range", func(c int) {
		r, nc := rs[c/4], 1
		if c/2%2 == 1 && r[1]-r[0] < 3 {
			nc = 17
		}
		wideBehind(c%2 == 1, r[0], r[1], nc)
	})
	sym.Check("nested", 5*3*2, "1, 6 and 13 look-arounds of each kind, and of all kinds, in each other", func(c int) {
		nested(c%5, []int{1, 6, 13}[c/5%3], c/15*9)
	})
}
