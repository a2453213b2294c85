package main

import (
	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

var bounds = []Times{{20, 33}, {0, -1}, {40, 40}, {5, 38}, {16, -1}, {0, 17}, {33, 20}, {-1, -1}, {1, 64}}

// Up to rounds rounds, any outcome of each.
func many(b, nc, rounds, stack, off int) {
	t := bounds[b]
	e := &h.Env{MaxCalls: nc * rounds, Modes: 3}
	var ps []ParserFn
	for i := 0; i < nc; i++ {
		ps = append(ps, e.Child(i, (i+off)%3))
	}
	ctx, s := h.Begin(stack)
	fallback := &h.Env{Name: "f", MaxCalls: 1, Modes: 2}
	after := &h.Env{Name: "a", MaxCalls: 1, Modes: 2}
	out, err := First(FlatGroup(Repeat(t, ps...), after.Child(80, 1)), fallback.Child(90, 1))(ctx)
	judge(e, after, fallback, nc, t.Min, t.Max, s, out, err)
}

// n rounds that match, without branching.
func far(kind, n, nodes int) {
	runs := 0
	x := func(ctx ParserContext) (ParserContext, error) {
		ctx.MatchStatus = MatchStatus_Matched
		if runs == n {
			ctx.MatchStatus = MatchStatus_Unmatched
			return ctx, nil
		}
		runs++
		ctx.Position++
		ctx.Length = 1
		for i := 0; i < nodes; i++ {
			ctx.AstStack = append(ctx.AstStack, h.Node(runs))
		}
		return ctx, nil
	}
	ctx, s := h.Begin(1)
	p := ZeroOrMoreTimes(x)
	want := n
	switch kind {
	case 1:
		p = OneOrMoreTimes(x)
	case 2:
		p = Repeat(Times{Min: n, Max: n + 1}, x)
	case 3:
		p, want = Repeat(Times{Min: n / 2, Max: n - 1}, x), n-1
	case 4:
		p = Repeat(Times{Min: n + 1, Max: -1}, x)
	}
	out, err := p(ctx)
	sym.Assert(err == nil, "no error without an error")
	if kind == 4 {
		sym.Assert(out.MatchStatus == MatchStatus_Unmatched, "too few rounds")
		sym.Cover("far too few")
		return
	}
	sym.Assert(out.MatchStatus == MatchStatus_Matched, "enough rounds")
	sym.Assert(runs == want, "as many rounds as match, up to the maximum")
	sym.Assert(out.Position == s.Pos+want, "position behind the last round")
	sym.Assert(len(out.AstStack) == 1+want*nodes, "the nodes of every round")
	for i := 0; i < want*nodes; i++ {
		id, ok := out.AstStack[1+i].Value.(int)
		sym.Assert(ok && id == i/nodes+1, "the nodes of every round in order")
	}
	sym.Cover("far")
}

func init() {
	sym.Check("many", len(bounds)*4, "up to 42 rounds with Min/Max of 20/33, 0/-1, 40/40, 5/38, 16/-1, 0/17, 33/20, -1/-1 and 1/64", func(c int) {
		many(c/4, 1+c/2%2, 42, c%2*9, c%2)
	})
	n := 1100
	if sym.Thorough() {
		n = 3000
	}
	sym.Check("far", 5*2, "1100 (thorough 3000) rounds that match", func(c int) { far(c/2, n, c%2) })
}
