package main

import (
	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

// d levels of a combinator, or of all in turn.
func deep(kind, d int) {
	// a repetition of a repetition of a ... runs 2^d rounds
	if kind == cRepeat || kind == cFn {
		d = 6
	}
	var ks []int
	for i := 0; i < d; i++ {
		if kind < combinators {
			ks = append(ks, kind)
		} else {
			ks = append(ks, (i*5+kind)%combinators)
		}
	}
	nest(4, 2, ks...)
}

// An error in the k-th of many rounds, children or alternatives.
func late(kind, n int) {
	e := &h.Env{MaxCalls: n, Modes: 3}
	ran := false
	child := func(id int) ParserFn {
		c := e.Child(id, 1)
		return func(ctx ParserContext) (ParserContext, error) {
			if k := len(e.Calls); k > 0 && e.Calls[k-1].St == h.Err {
				ran = true
			}
			return c(ctx)
		}
	}
	var ps []ParserFn
	for i := 0; i < n; i++ {
		ps = append(ps, child(i))
	}
	var p ParserFn
	switch kind {
	case 0:
		p = FlatGroup(ps...)
	case 1:
		p = Group(ps...)
	case 2:
		p = First(ps...)
	case 3:
		p = ZeroOrMoreTimes(ps[0])
	case 4:
		p = LookAhead(ps...)
	case 5:
		p = LookAheadN(ps...)
	case 6:
		p = LookBehind(0, n, ps[0])
	case 7:
		p = LookBehindN(0, n, ps[0])
	case 8:
		p = Trans(FlatGroup(ps...), func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
			return asts, nil
		})
	default:
		p = Repeat(Times{Min: n / 2, Max: n}, ps[0])
	}
	ctx, _ := h.Begin(0)
	ctx.Position = n
	out, err := First(FlatGroup(p, child(500)), child(600))(ctx)
	sym.Assert(!ran, "no parser is run after an error")
	last := e.Calls[len(e.Calls)-1]
	if last.St == h.Err {
		sym.Assert(out.MatchStatus == MatchStatus_Error && err == last.Err, "the parse returns the error that was reported")
		sym.Cover("late error")
	} else {
		sym.Assert(err == nil && out.MatchStatus != MatchStatus_Error, "no error without an error")
	}
}

func init() {
	sym.Check("deep", (combinators+4)*2, "6 and 12 levels of each combinator, and of all in turn", func(c int) {
		deep(c%(combinators+4), 6+c/(combinators+4)*6)
	})
	sym.Check("late", 10*2, "an error in any of 17 and 40 children, rounds, alternatives or offsets", func(c int) {
		late(c%10, []int{17, 40}[c/10])
	})
}
