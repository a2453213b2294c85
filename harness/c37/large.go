package main

import (
	"errors"
	"strconv"

	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

// fixed is a parser of which one position's outcome is free.
func fixed(id, free int) ParserFn {
	return func(ctx ParserContext) (ParserContext, error) {
		at := ctx.Position - begin
		ctx.MatchStatus = MatchStatus_Matched
		n := 1 + at%2
		if at == free {
			k := strconv.Itoa(id)
			switch sym.Choose("st"+k, 3) {
			case 1:
				ctx.MatchStatus = MatchStatus_Unmatched
				ctx.AstStack = nil
				ctx.Position++
				return ctx, nil
			case 2:
				ctx.MatchStatus = MatchStatus_Error
				return ctx, errors.New(k)
			}
			n = 1 + sym.Choose("n"+k, 2)
		}
		ctx.AstStack = append(ctx.AstStack, h.Node(id*100+ctx.Position))
		ctx.Position += n
		ctx.Length = n
		ctx.Tag = 1000*id + ctx.Position
		return ctx, nil
	}
}

// times is n times a.
func times(n int, a P) (r []P) {
	for i := 0; i < n; i++ {
		r = append(r, a)
	}
	return
}

type sized struct {
	name string
	eq   func(n int, a, b, c P) (P, P)
}

var sizedLaws = []sized{
	{"a{n} = a a ... a", func(n int, a, b, c P) (P, P) { return rep(n, n, a), FlatGroup(times(n, a)...) }},
	{"a{n,} = a{n} a*", func(n int, a, b, c P) (P, P) {
		a = FlatGroup(LookAheadN(far), a)
		return rep(n, -1, a), FlatGroup(rep(n, n, a), ZeroOrMoreTimes(a))
	}},
	{"a{n,2n} = a{n} a{0,n}", func(n int, a, b, c P) (P, P) { return rep(n, 2*n, a), FlatGroup(rep(n, n, a), rep(0, n, a)) }},
	{"(((a b) a) b) ... = a b a b ...", func(n int, a, b, c P) (P, P) {
		x, ps := Zero(), []P{}
		for i := 0; i < n; i++ {
			x, ps = FlatGroup(x, a, b), append(ps, a, b)
		}
		return x, FlatGroup(ps...)
	}},
	{"a (b (a ...)) = a b a b ...", func(n int, a, b, c P) (P, P) {
		x, ps := c, []P{}
		for i := 0; i < n; i++ {
			x, ps = FlatGroup(a, b, x), append(ps, a, b)
		}
		return x, FlatGroup(append(ps, c)...)
	}},
	{"fail/fail/.../a b = a b", func(n int, a, b, c P) (P, P) {
		return FlatGroup(First(append(times(n, Unmatched()), a)...), b), FlatGroup(a, b)
	}},
	{"(a c !/b/...) nested", func(n int, a, b, c P) (P, P) {
		x, ps := FlatGroup(a, b), []P{}
		for i := 0; i < n; i++ {
			ps = append(ps, FlatGroup(a, Unmatched()))
			x = First(FlatGroup(a, Unmatched()), x)
		}
		return x, First(append(ps, FlatGroup(a, b))...)
	}},
	{"Group(Group(a)) ...", func(n int, a, b, c P) (P, P) {
		x, y := a, a
		for i := 0; i < n; i++ {
			x, y = Group(x, b), Trans(FlatGroup(y, b), GroupingTransform)
		}
		return x, y
	}},
	{"&a &a ... a = a", func(n int, a, b, c P) (P, P) {
		return FlatGroup(append(times(n, LookAhead(a)), a)...), a
	}},
	{"!!...!!a = &a", func(n int, a, b, c P) (P, P) {
		x := a
		for i := 0; i < 2*n; i++ {
			x = LookAheadN(x)
		}
		return x, LookAhead(a)
	}},
	{"Trans(a, f, f, ...) = Trans(Trans(a, f), f) ...", func(n int, a, b, c P) (P, P) {
		x, fs := FlatGroup(a, b), []TransformerFn{}
		for i := 0; i < n; i++ {
			x, fs = Trans(x, f1, f2), append(fs, f1, f2)
		}
		return x, Trans(FlatGroup(a, b), fs...)
	}},
	{"a* = recursion", func(n int, a, b, c P) (P, P) {
		a = FlatGroup(LookAheadN(far), a)
		var s P
		s = ZeroOrOnce(a, Indirect(func() P { return s }))
		return ZeroOrMoreTimes(a), s
	}},
}

// far matches far into the source.
func far(ctx ParserContext) (ParserContext, error) {
	ctx.MatchStatus = MatchStatus_Unmatched
	if ctx.Position > begin+60 {
		ctx.MatchStatus = MatchStatus_Matched
	}
	return ctx, nil
}

func big(l sized, n, free int, use func(x, c P) P) {
	a, b, c := fixed(1, free), fixed(2, free), fixed(3, free+1)
	decideOn(l.name, c, use, func() (P, P) { return l.eq(n, a, b, c) })
}

func init() {
	k := len(sizedLaws)
	sizes := []int{7, 17, 40}
	sym.Check("large", k*len(sizes)*4*2, "12 laws with 7, 17 and 40 repetitions, alternatives, nested groups, look-aheads or transformations, the outcome of one position free, alone and within a choice", func(c int) {
		n := sizes[c/k%len(sizes)]
		free := []int{0, 1, n, 3*n/2 - 1}[c/k/len(sizes)%4]
		u := around[2*(c/k/len(sizes)/4)]
		big(sizedLaws[c%k], n, free, u.use)
	})
}
