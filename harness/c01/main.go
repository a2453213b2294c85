// C01: First(p1..pn) gives the result of the first alternative that is not
// Unmatched, each alternative starting from the same state.
package main

import (
	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

func choice(n, stack int) {
	e := &h.Env{MaxCalls: n + 1, Modes: 6}
	var ps []ParserFn
	for i := 0; i < n; i++ {
		ps = append(ps, e.Child(i, i%3))
	}
	ctx, s := h.Begin(stack)
	judge(n, e, s, First(ps...), ctx)
}

func judge(n int, e *h.Env, s h.State, p ParserFn, ctx ParserContext) {
	out, err := p(ctx)
	for k, c := range e.Calls {
		sym.Assert(k < n, "no more alternatives are run than there are")
		c.Saw(k, s, "choice")
		switch c.St {
		case h.Unm:
			continue
		case h.OK:
			sym.Assert(k == len(e.Calls)-1, "no alternative is run after one that matched")
			sym.Assert(err == nil, "a matching alternative makes the choice match without error")
			sym.Assert(out.MatchStatus == MatchStatus_Matched, "a matching alternative makes the choice match")
			h.Is(out, s.After(k, c), "choice")
			sym.Cover("matched")
		default:
			sym.Assert(k == len(e.Calls)-1, "no alternative is run after an error")
			sym.Assert(out.MatchStatus == MatchStatus_Error, "an error ends the choice with error status")
			sym.Assert(err == c.Err, "an error is passed on")
			sym.Cover("error")
		}
		return
	}
	sym.Assert(len(e.Calls) == n, "every alternative is tried")
	sym.Assert(err == nil, "an unmatched choice is no error")
	if n > 0 {
		sym.Assert(out.MatchStatus == MatchStatus_Unmatched, "a choice without matching alternative is Unmatched")
	}
	h.Is(out, s, "unmatched choice")
	sym.Cover("unmatched")
}

// A choice inside a sequence inside a choice: what a failing alternative did
// is not visible after the choice either.
func nested(n, stack int) {
	e := &h.Env{MaxCalls: n + 4, Modes: 2}
	var ps []ParserFn
	for i := 0; i < n; i++ {
		ps = append(ps, FlatGroup(e.Child(i, 1), e.Child(100+i, 2)))
	}
	p := First(FlatGroup(First(ps...), e.Child(500, 1)), e.Child(600, 1))
	ctx, s := h.Begin(stack)
	out, err := p(ctx)
	sym.Assert(err == nil, "no error without an error")
	k := 0
	next := func(id int, st h.State) (h.State, bool) {
		sym.Assert(k < len(e.Calls), "every due parser is run")
		c := e.Calls[k]
		c.Saw(id, st, "nested choice")
		k++
		if c.St == h.OK {
			return st.After(k-1, c), true
		}
		return st, false
	}
	r, ok := s, false
	for i := 0; i < n && !ok; i++ {
		if r, ok = next(i, s); ok {
			r, ok = next(100+i, r)
		}
	}
	if ok {
		r, ok = next(500, r)
	}
	if !ok {
		r, ok = next(600, s)
		sym.Cover("fallback")
	}
	sym.Assert(k == len(e.Calls), "nothing else is run")
	if ok {
		sym.Assert(out.MatchStatus == MatchStatus_Matched, "nested choice matches")
		h.Is(out, r, "nested choice")
		sym.Cover("nested matched")
	} else {
		sym.Assert(out.MatchStatus == MatchStatus_Unmatched, "nested choice is unmatched")
		h.Is(out, s, "nested choice, unmatched")
	}
}

// An alternative that rewrites nodes it found on the stack, then fails.
func rewriting(n, stack int) {
	e := &h.Env{MaxCalls: 3, Modes: 2}
	m := Match(n)(Case{If: TopIsAny, Let: []TransformerFn{SetValue(AstType_Int, 5), Push(h.Node(900))}})
	p := First(FlatGroup(m, e.Child(0, 1)), FlatGroup(Match(n)(Case{If: TopIsAny, Let: []TransformerFn{Erase}}), e.Child(1, 1)), e.Child(2, 1))
	ctx, s := h.Begin(stack)
	before := h.Clone(ctx.AstStack)
	out, err := p(ctx)
	sym.Assert(err == nil, "no error without an error")
	k := len(e.Calls) - 1
	if out.MatchStatus != MatchStatus_Matched {
		sym.Assert(k == 2 && e.Calls[2].St == h.Unm, "unmatched when every alternative is")
		h.Is(out, s, "unmatched")
		return
	}
	sym.Assert(e.Calls[k].St == h.OK && e.Calls[k].Pos == s.Pos, "the first matching alternative, from the start")
	sp := stack - n
	if sp < 0 {
		sp = 0
	}
	want := h.Clone(before)
	switch k {
	case 0:
		x := h.Node(900)
		if sp < stack {
			want[sp].Value = 5
			x.SourcePosition = want[stack-1].SourcePosition
		}
		want = append(want, x)
	case 1:
		want = want[:sp]
		sym.Cover("second")
	}
	want = append(want, h.Node(100*(k+1)))
	sym.Assert(h.EqAsts(out.AstStack, want), "nodes of the committed alternative on the nodes from before the choice")
}

func init() {
	n := 5
	if sym.Thorough() {
		n = 8
	}
	sym.Check("choice", 3*n, "up to 4 (thorough 7) alternatives, 0..2 nodes on the stack, every outcome of every alternative", func(c int) {
		choice(c/3, c%3)
	})
	sym.Check("nested", 2*3, "2..4 alternatives of two parsers each inside a sequence inside a choice", func(c int) {
		nested(2+c%3, c/3)
	})
	sym.Check("rewriting", 4*4, "alternatives that rewrite 0..3 nodes of a stack of 0..3 nodes and then fail or match", func(c int) {
		rewriting(c%4, c/4)
	})
}
