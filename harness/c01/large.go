package main

import (
	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

// Choices in choices: n alternatives written as choices of w each.
func grouped(n, w, stack int) {
	e := &h.Env{MaxCalls: n + 1, Modes: 3}
	var ps, group []ParserFn
	for i := 0; i < n; i++ {
		group = append(group, e.Child(i, i%3))
		if len(group) == w || i == n-1 {
			ps = append(ps, First(group...))
			group = nil
		}
	}
	ctx, s := h.Begin(stack)
	judge(n, e, s, First(ps...), ctx)
}

// An alternative that pushes many nodes before it fails or matches.
func long(n, stack int) {
	e := &h.Env{MaxCalls: n + 2, Modes: 2}
	var ps []ParserFn
	for i := 0; i < n; i++ {
		ps = append(ps, e.Child(i, i%3))
	}
	p := First(FlatGroup(ps...), e.Child(500, 1))
	ctx, s := h.Begin(stack)
	out, err := p(ctx)
	sym.Assert(err == nil, "no error without an error")
	r := s
	for i := 0; i < n; i++ {
		sym.Assert(i < len(e.Calls), "every due parser is run")
		c := e.Calls[i]
		c.Saw(i, r, "first alternative")
		if c.St == h.OK {
			r = r.After(i, c)
			continue
		}
		sym.Assert(len(e.Calls) == i+2, "the second alternative is tried, nothing else")
		c = e.Calls[i+1]
		c.Saw(500, s, "second alternative")
		if c.St == h.OK {
			sym.Assert(out.MatchStatus == MatchStatus_Matched, "the second alternative matches")
			h.Is(out, s.After(i+1, c), "second alternative")
		} else {
			sym.Assert(out.MatchStatus == MatchStatus_Unmatched, "both are unmatched")
			h.Is(out, s, "unmatched")
		}
		sym.Cover("long failed")
		return
	}
	sym.Assert(len(e.Calls) == n, "nothing else is run")
	sym.Assert(out.MatchStatus == MatchStatus_Matched, "the first alternative matches")
	h.Is(out, r, "first alternative")
	sym.Cover("long matched")
}

// Of n alternatives those before the k-th do not match, the k-th and the one
// after it are arbitrary, and all behind them match.
func kth(n, k, stack int) {
	e := &h.Env{MaxCalls: 2, Modes: 3}
	var ps []ParserFn
	ran := 0
	for i := 0; i < n; i++ {
		switch {
		case i == k || i == k+1:
			ps = append(ps, e.Child(i, i%3))
		case i < k:
			ps = append(ps, Unmatched())
		default:
			ps = append(ps, func(ctx ParserContext) (ParserContext, error) {
				ran++
				return Zero(Ast{Value: "behind"})(ctx)
			})
		}
	}
	ctx, s := h.Begin(stack)
	out, err := First(ps...)(ctx)
	for i := 0; i < 2 && k+i < n; i++ {
		sym.Assert(i < len(e.Calls), "every due alternative is run")
		c := e.Calls[i]
		c.Saw(k+i, s, "alternative")
		if c.St == h.OK {
			sym.Assert(err == nil && out.MatchStatus == MatchStatus_Matched, "the first alternative that matches decides")
			h.Is(out, s.After(i, c), "the first alternative that matches")
		} else if c.St >= h.Err {
			sym.Assert(err == c.Err && out.MatchStatus == MatchStatus_Error, "an error ends the choice")
		}
		if c.St == h.OK || c.St >= h.Err {
			sym.Assert(len(e.Calls) == i+1 && ran == 0, "no later alternative is run")
			sym.Cover("kth")
			return
		}
	}
	if k+2 < n {
		sym.Assert(ran == 1 && err == nil && out.MatchStatus == MatchStatus_Matched && len(out.AstStack) == stack+1, "the next alternative matches")
	} else {
		sym.Assert(err == nil && out.MatchStatus == MatchStatus_Unmatched, "unmatched")
		h.Is(out, s, "unmatched")
	}
	sym.Cover("neither")
}

func init() {
	sym.Check("kth", 70+40+17, "choices of 17, 40 and 70 alternatives that differ in which is the first that may match", func(c int) {
		switch {
		case c < 70:
			kth(70, c, 1)
		case c < 110:
			kth(40, c-70, 0)
		default:
			kth(17, c-110, 20)
		}
	})
	sizes := []int{9, 17, 33, 70}
	sym.Check("wide", len(sizes)*2, "9, 17, 33 and 70 alternatives, 0 and 20 nodes on the stack", func(c int) {
		choice(sizes[c/2], c%2*20)
	})
	sym.Check("grouped", 4*2, "40 alternatives written as choices of 2, 5, 13 and 39", func(c int) {
		grouped(40, []int{2, 5, 13, 39}[c/2], c%2*9)
	})
	sym.Check("long", len(sizes)*2, "a first alternative of 9, 17, 33 and 70 parsers that fails anywhere, 0 and 20 nodes on the stack", func(c int) {
		long(sizes[c/2], c%2*20)
	})
}
