package main

import (
	"errors"
	"strconv"

	. "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/h"
	"verif/harness/sym"
)

// given children match and push a node, but the one named free may do anything.
func given(free int) func(id int) ParserFn {
	return func(id int) ParserFn {
		return func(ctx ParserContext) (ParserContext, error) {
			ctx.MatchStatus = MatchStatus_Matched
			if id == free {
				switch sym.Concrete(sym.Int("st", 0, 3)) {
				case 1:
					ctx.MatchStatus = MatchStatus_Unmatched
				case 2:
					ctx.MatchStatus = MatchStatus_Error
					return ctx, errors.New("free")
				case 3:
					panic("free")
				}
				ctx.Position += sym.Int("adv", 0, 9)
				ctx.Tag = sym.Int("tag", 0, 9)
			} else {
				ctx.Position += id % 3
			}
			ctx.AstStack = append(ctx.AstStack, h.Node(id))
			return ctx, nil
		}
	}
}

// wide and deep grammars of n parsers or scopes
var sized = []func(w *world, n int) ParserFn{
	func(w *world, n int) ParserFn { // one scope with many parsers
		return w.trace("a", "t", func() (r []ParserFn) {
			for i := 0; i < n; i++ {
				r = append(r, w.c(i))
			}
			return
		})
	},
	func(w *world, n int) ParserFn { // many scopes
		var r []ParserFn
		for i := 0; i < n; i++ {
			i := i
			r = append(r, w.trace("a"+strconv.Itoa(i%4), "t"+strconv.Itoa(i%3), func() []ParserFn { return fns{w.c(i)} }), w.c(1000+i))
		}
		return FlatGroup(r...)
	},
	func(w *world, n int) ParserFn { // scopes in scopes
		var nest func(k int) ParserFn
		nest = func(k int) ParserFn {
			if k == n {
				return w.c(k)
			}
			return w.trace("s"+strconv.Itoa(k), "t"+strconv.Itoa(k%3), func() []ParserFn { return fns{nest(k + 1), w.c(2*n - k)} })
		}
		return FlatGroup(nest(0), w.c(-1))
	},
	func(w *world, n int) ParserFn { // many alternatives, in a scope of its own each
		return w.trace("a", "t", func() []ParserFn {
			var r []ParserFn
			for i := 0; i < n; i++ {
				i := i
				r = append(r, w.trace("b"+strconv.Itoa(i), "u", func() []ParserFn { return fns{w.c(i), w.p(Unmatched())} }))
			}
			return fns{w.p(First(append(r, w.c(2*n))...))}
		})
	},
	func(w *world, n int) ParserFn { // many rounds
		return w.trace("a", "t", func() []ParserFn {
			return fns{w.p(Repeat(Times{Min: n, Max: n + 2}, w.c(4), w.trace("b", "u", func() []ParserFn { return fns{w.c(5)} })))}
		})
	},
	func(w *world, n int) ParserFn { // long names
		name := ""
		for i := 0; i < n; i++ {
			name += "scope"
		}
		return w.trace(name, name, func() []ParserFn {
			return fns{w.c(0), w.trace(name, "t", func() []ParserFn { return fns{w.c(1), w.c(2)} }), w.c(3)}
		})
	},
}

func big(g func(w *world, n int) ParserFn, n, free int) {
	var outs [2]ParserContext
	var errs [2]error
	var pan [2]interface{}
	var recs [2]recorder
	for i := range outs {
		w := &world{traced: i == 1, rec: &recs[i], child: given(free)}
		before := w.c(-8)
		f := g(w, n)
		after := w.c(-9)
		ctx := ParserContext{Str: h.Text, Tag: 0, AstStack: AstSlice{h.Node(7)}}
		outs[i], errs[i], pan[i] = run(f, ctx)
		n := len(recs[i].log)
		run(before, ctx)
		run(after, ctx)
		sym.Assert(len(recs[i].log) == n, "parsers built before and afterwards are not traced")
	}
	sym.Assert(pan[0] == pan[1], "a panic continues")
	sym.Assert(sameErr(errs[0], errs[1]), "a traced parser returns the same error")
	sym.Assert(same(outs[0], outs[1]), "a traced parser returns the same result")
	balanced(recs[1].log)
	numbered(recs[1].log)
	sym.Assert(len(recs[0].log) == len(recs[1].log), "one pair of events for each invocation")
	for i, e := range recs[1].log {
		sym.Assert(equal(e, recs[0].log[i]), "an event carries its parser's scope and result")
	}
	sym.Cover("large")
}

var longTexts = []struct {
	pattern string
	mk      func() ParserFn
}{
	{"1234567890123456789012345678901234567890?", func() ParserFn { return OneOrMoreTimes(Number()) }},
	{"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa??", func() ParserFn { return FlatGroup(ZeroOrMoreTimes(First(Seq("b"), Alpha())), End()) }},
	{"-12_34_56_78_9?_1", func() ParserFn { return Trans(extra.IntegerNumberStr(), ParseInt) }},
	{"someRatherLongIdentifier_with_$_and_0123456789?", extra.AsciiIdentifierStr},
}

func init() {
	type shape struct{ g, n, free int }
	var shapes []shape
	for g, ns := range [][]int{{5, 9, 24}, {5, 17}, {5, 9, 18}, {5, 17}, {9, 20}, {10, 60}} {
		for _, n := range ns {
			for _, free := range []int{0, 1, 2, 4, 5, n - 1, n, 2 * n, 1000 + n - 1} {
				shapes = append(shapes, shape{g, n, free})
			}
		}
	}
	sym.Check("large", len(shapes), "6 grammars of up to 24 parsers in a scope, 17 scopes besides and 18 within each other, 17 alternatives, 20 rounds and names of 300 letters, one child of each free to match, fail, report an error or panic", func(c int) {
		s := shapes[c]
		big(sized[s.g], s.n, s.free)
	})
	sym.Check("long texts", len(longTexts), "4 string grammars on sources of up to 47 bytes, 1 or 2 of them arbitrary", func(c int) {
		textOn(longTexts[c].mk, h.Pattern("s", longTexts[c].pattern))
	})
}
