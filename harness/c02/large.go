package main

import (
	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

// A sequence of n parsers written as d sequences in each other.
func deep(kind, d, stack int) {
	e := &h.Env{MaxCalls: d, Modes: 2}
	var p ParserFn
	for i := d - 1; i >= 0; i-- {
		ps := []ParserFn{e.Child(i, 1)}
		if p != nil {
			ps = append(ps, p)
		}
		p = build(kind, ps)
	}
	ctx, s := h.Begin(stack)
	below := h.Clone(ctx.AstStack)
	out, err := p(ctx)
	sym.Assert(err == nil, "no error without an error")
	r := s
	for i := 0; i < d; i++ {
		sym.Assert(i < len(e.Calls), "every due child is run")
		c := e.Calls[i]
		sym.Assert(c.Child == i && c.Pos == r.Pos && c.Tag == r.Tag, "children run in order from where the one before ended")
		if c.St != h.OK {
			sym.Assert(len(e.Calls) == i+1, "nothing is run after a child that failed")
			sym.Assert(out.MatchStatus == MatchStatus_Unmatched, "unmatched")
			h.Is(out, s, "unmatched")
			sym.Cover("deep failed")
			return
		}
		r = r.After(i, c)
	}
	var want AstSlice
	for i := d - 1; i >= 0; i-- {
		want = wrap(kind, append(AstSlice{h.Node(100 * (i + 1))}, want...))
	}
	sym.Assert(out.MatchStatus == MatchStatus_Matched, "matched")
	sym.Assert(out.Position == r.Pos, "position")
	sym.Assert(h.EqAsts(out.AstStack, append(below, want...)), "the nodes form the tree that was written")
	sym.Cover("deep matched")
}

func init() {
	sizes := []int{9, 17, 40}
	if sym.Thorough() {
		sizes = append(sizes, 70, 130)
	}
	sym.Check("wide", kinds*len(sizes)*2, "sequences of 9, 17, 40 (thorough 70, 130) children, 0 and 20 nodes on the stack", func(c int) {
		sequence(c%kinds, sizes[c/kinds/2], c/kinds%2*20)
	})
	sym.Check("deep", kinds*2*2, "12 and 24 sequences in each other, 1 and 18 nodes on the stack", func(c int) {
		deep(c%kinds, 12+c/kinds%2*12, 1+c/kinds/2*17)
	})
}
