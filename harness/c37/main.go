// C37: equivalent spellings of a grammar are interchangeable.
package main

import (
	"errors"
	"strconv"

	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

const (
	begin = 4
)

var limit = 5 // children match nothing from begin+limit on

// child is an arbitrary parser whose outcome depends on the position only:
// no match, an error, or a match of least..2 characters with one node.
func child(id, least, modes int) ParserFn {
	return func(ctx ParserContext) (ParserContext, error) {
		k := strconv.Itoa(id) + "@" + strconv.Itoa(ctx.Position)
		st := h.Unm
		if ctx.Position < begin+limit {
			st = sym.Choose("st"+k, modes)
		}
		switch st {
		case h.OK:
			n := least + sym.Choose("n"+k, 3-least)
			ctx.AstStack = append(ctx.AstStack, h.Node(id*100+ctx.Position))
			ctx.Position += n
			ctx.Length = n
			ctx.Tag = 1000*id + ctx.Position
			ctx.MatchStatus = MatchStatus_Matched
		case h.Unm:
			ctx.AstStack = append(ctx.AstStack, h.Node(-1))
			ctx.Position++
			ctx.Tag = -1
			ctx.MatchStatus = MatchStatus_Unmatched
		default:
			ctx.MatchStatus = MatchStatus_Error
			return ctx, errors.New(k)
		}
		return ctx, nil
	}
}

func f1(_ ParserContext, a AstSlice) (AstSlice, error) {
	return append(AstSlice{h.Node(901)}, a...), nil
}
func f2(_ ParserContext, a AstSlice) (AstSlice, error) {
	w := AstSlice{}
	for i := len(a) - 1; i >= 0; i-- {
		w = append(w, a[i])
	}
	return w, nil
}

func rep(min, max int, p ...ParserFn) ParserFn { return Repeat(Times{Min: min, Max: max}, p...) }

type P = ParserFn

type law struct {
	name  string
	least int // shortest match of a child
	eq    func(a, b, c P) (P, P)
}

var laws = []law{
	// wrapping
	{"a = FlatGroup(a)", 0, func(a, b, c P) (P, P) { return a, FlatGroup(a) }},
	{"a = Once(a)", 0, func(a, b, c P) (P, P) { return a, Once(a) }},
	{"a = First(a)", 0, func(a, b, c P) (P, P) { return a, First(a) }},
	{"a = Trans(a)", 0, func(a, b, c P) (P, P) { return a, Trans(a) }},
	{"a = If(true, a, b)", 0, func(a, b, c P) (P, P) { return a, If(true, a, b) }},
	{"b = If(false, a, b)", 0, func(a, b, c P) (P, P) { return b, If(false, a, b) }},
	{"a = Indirect(a)", 0, func(a, b, c P) (P, P) { return a, Indirect(func() P { return a }) }},
	{"Group = grouped FlatGroup", 0, func(a, b, c P) (P, P) { return Group(a, b), Trans(FlatGroup(a, b), GroupingTransform) }},
	// sequences
	{"(a b) c = a b c", 0, func(a, b, c P) (P, P) { return FlatGroup(FlatGroup(a, b), c), FlatGroup(a, b, c) }},
	{"a (b c) = a b c", 0, func(a, b, c P) (P, P) { return FlatGroup(a, FlatGroup(b, c)), FlatGroup(a, b, c) }},
	{"a empty b = a b", 0, func(a, b, c P) (P, P) { return FlatGroup(a, Zero(), b), FlatGroup(a, b) }},
	{"empty a empty = a", 0, func(a, b, c P) (P, P) { return FlatGroup(Zero(), a, Zero()), a }},
	{"a fail = &a fail", 0, func(a, b, c P) (P, P) { return FlatGroup(a, Unmatched()), FlatGroup(LookAhead(a), Unmatched()) }},
	{"fail a = fail", 0, func(a, b, c P) (P, P) { return FlatGroup(Unmatched(), a), Unmatched() }},
	{"Once(a b) = a b", 0, func(a, b, c P) (P, P) { return Once(a, b), FlatGroup(a, b) }},
	// choices
	{"(a/b)/c = a/b/c", 0, func(a, b, c P) (P, P) { return First(First(a, b), c), First(a, b, c) }},
	{"a/(b/c) = a/b/c", 0, func(a, b, c P) (P, P) { return First(a, First(b, c)), First(a, b, c) }},
	{"a/fail = fail/a", 0, func(a, b, c P) (P, P) { return First(a, Unmatched()), First(Unmatched(), a) }},
	{"a/a = a", 0, func(a, b, c P) (P, P) { return First(a, a), a }},
	{"a/b = a / !a b", 0, func(a, b, c P) (P, P) { return First(a, b), First(a, FlatGroup(LookAheadN(a), b)) }},
	{"a b/a c = a (b/c)", 0, func(a, b, c P) (P, P) {
		return First(FlatGroup(a, b), FlatGroup(a, c)), FlatGroup(a, First(b, c))
	}},
	{"a/a b = a", 0, func(a, b, c P) (P, P) { return First(a, FlatGroup(a, b)), a }},
	{"empty/a = empty", 0, func(a, b, c P) (P, P) { return First(Zero(), a), Zero() }},
	{"(a/b) c = a c / !a b c", 0, func(a, b, c P) (P, P) {
		return FlatGroup(First(a, b), c), First(FlatGroup(a, c), FlatGroup(LookAheadN(a), b, c))
	}},
	// options and repetitions
	{"a? = a/empty", 0, func(a, b, c P) (P, P) { return ZeroOrOnce(a), First(a, Zero()) }},
	{"a? = a{0,1}", 0, func(a, b, c P) (P, P) { return ZeroOrOnce(a), rep(0, 1, a) }},
	{"(a b)? = (a b)?", 0, func(a, b, c P) (P, P) { return ZeroOrOnce(a, b), ZeroOrOnce(FlatGroup(a, b)) }},
	{"a{2,2} = a a", 0, func(a, b, c P) (P, P) { return rep(2, 2, a), FlatGroup(a, a) }},
	{"a{1,2} = a a?", 0, func(a, b, c P) (P, P) { return rep(1, 2, a), FlatGroup(a, ZeroOrOnce(a)) }},
	{"a{0,2} = (a a?)?", 0, func(a, b, c P) (P, P) { return rep(0, 2, a), ZeroOrOnce(a, ZeroOrOnce(a)) }},
	{"(a b){1,2} = a b (a b)?", 0, func(a, b, c P) (P, P) { return rep(1, 2, a, b), FlatGroup(a, b, ZeroOrOnce(a, b)) }},
	{"a{2,3} = a a a?", 1, func(a, b, c P) (P, P) { return rep(2, 3, a), FlatGroup(a, a, ZeroOrOnce(a)) }},
	{"a* = a{0,}", 1, func(a, b, c P) (P, P) { return ZeroOrMoreTimes(a), rep(0, -1, a) }},
	{"a+ = a{1,}", 1, func(a, b, c P) (P, P) { return OneOrMoreTimes(a), rep(1, -1, a) }},
	{"a+ = a a*", 1, func(a, b, c P) (P, P) { return OneOrMoreTimes(a), FlatGroup(a, ZeroOrMoreTimes(a)) }},
	{"a* = a+?", 1, func(a, b, c P) (P, P) { return ZeroOrMoreTimes(a), ZeroOrOnce(OneOrMoreTimes(a)) }},
	{"a{2,} = a a a*", 1, func(a, b, c P) (P, P) { return rep(2, -1, a), FlatGroup(a, a, ZeroOrMoreTimes(a)) }},
	{"a* = recursion", 1, func(a, b, c P) (P, P) {
		var s P
		s = ZeroOrOnce(a, Indirect(func() P { return s }))
		return ZeroOrMoreTimes(a), s
	}},
	{"a* a = a* fail", 1, func(a, b, c P) (P, P) {
		return FlatGroup(ZeroOrMoreTimes(a), a), FlatGroup(ZeroOrMoreTimes(a), Unmatched())
	}},
	{"a* a* = a*", 1, func(a, b, c P) (P, P) { return FlatGroup(ZeroOrMoreTimes(a), ZeroOrMoreTimes(a)), ZeroOrMoreTimes(a) }},
	{"(a b)* = (a b)*", 1, func(a, b, c P) (P, P) { return ZeroOrMoreTimes(a, b), ZeroOrMoreTimes(FlatGroup(a, b)) }},
	{"(a/b)* = (a+/b+)*", 1, func(a, b, c P) (P, P) {
		return ZeroOrMoreTimes(First(a, b)), ZeroOrMoreTimes(First(OneOrMoreTimes(a), b))
	}},
	// look-ahead
	{"&a = !!a", 0, func(a, b, c P) (P, P) { return LookAhead(a), LookAheadN(LookAheadN(a)) }},
	{"&&a = &a", 0, func(a, b, c P) (P, P) { return LookAhead(LookAhead(a)), LookAhead(a) }},
	{"!&a = !a", 0, func(a, b, c P) (P, P) { return LookAheadN(LookAhead(a)), LookAheadN(a) }},
	{"&(a b) = & a b", 0, func(a, b, c P) (P, P) { return LookAhead(a, b), LookAhead(FlatGroup(a, b)) }},
	{"!(a b) = ! a b", 0, func(a, b, c P) (P, P) { return LookAheadN(a, b), LookAheadN(FlatGroup(a, b)) }},
	{"&a a = a", 0, func(a, b, c P) (P, P) { return FlatGroup(LookAhead(a), a), a }},
	{"!a a = a fail", 0, func(a, b, c P) (P, P) { return FlatGroup(LookAheadN(a), a), FlatGroup(a, Unmatched()) }},
	{"!(a/b) = !a !b", 0, func(a, b, c P) (P, P) { return LookAheadN(First(a, b)), FlatGroup(LookAheadN(a), LookAheadN(b)) }},
	{"&(a/b) = &a/&b", 0, func(a, b, c P) (P, P) { return LookAhead(First(a, b)), First(LookAhead(a), LookAhead(b)) }},
	{"&a &b c", 0, func(a, b, c P) (P, P) {
		return FlatGroup(LookAhead(a), LookAhead(b), c), FlatGroup(FlatGroup(LookAhead(a), LookAhead(b)), c)
	}},
	{"&a/b = (&a)?...", 0, func(a, b, c P) (P, P) { return First(LookAhead(a), Zero()), ZeroOrOnce(LookAhead(a)) }},
	// look-behind
	{"<a{1,2} = <a{1}/<a{2}", 0, func(a, b, c P) (P, P) { return LookBehind(1, 2, a), First(LookBehind(1, 1, a), LookBehind(2, 2, a)) }},
	{"!<a{1,2} = !<a{1} !<a{2}", 0, func(a, b, c P) (P, P) {
		return LookBehindN(1, 2, a), FlatGroup(LookBehindN(1, 1, a), LookBehindN(2, 2, a))
	}},
	{"<a = !!<a", 0, func(a, b, c P) (P, P) { return LookBehind(0, 3, a), LookAheadN(LookBehindN(0, 3, a)) }},
	{"<a{0} = &a", 0, func(a, b, c P) (P, P) { return LookBehind(0, 0, a), LookAhead(a) }},
	{"<(a b) = < a b", 0, func(a, b, c P) (P, P) { return LookBehind(2, 3, a, b), LookBehind(2, 3, FlatGroup(a, b)) }},
	// transformations
	{"Trans(Trans(a,f),g) = Trans(a,f,g)", 0, func(a, b, c P) (P, P) { return Trans(Trans(a, f1), f2), Trans(a, f1, f2) }},
	{"Trans(a b, f) c", 0, func(a, b, c P) (P, P) {
		return FlatGroup(c, Trans(FlatGroup(a, b), f2)), FlatGroup(c, Trans(Once(a, b), f2))
	}},
	{"Trans(a/b, f) = Trans(a,f)/Trans(b,f)", 0, func(a, b, c P) (P, P) {
		return Trans(First(a, b), f1), First(Trans(a, f1), Trans(b, f1))
	}},
	{"Erase = look-ahead and skip", 0, func(a, b, c P) (P, P) { return LookAhead(Trans(a, Erase)), LookAhead(a) }},
}

// contexts in which both sides are used
var around = []struct {
	name string
	use  func(x, c P) P
}{
	{"alone", func(x, c P) P { return x }},
	{"after another", func(x, c P) P { return FlatGroup(c, x) }},
	{"before another, or else", func(x, c P) P { return First(FlatGroup(x, c), Zero(h.Node(777))) }},
	{"repeated", func(x, c P) P { return rep(0, 2, x) }},
	{"grouped in a choice", func(x, c P) P { return First(Group(x, Unmatched()), Group(x)) }},
	{"looked ahead", func(x, c P) P { return FlatGroup(LookAhead(x), c) }},
}

func decide(l law, use func(x, c P) P, modes int) {
	a, b, c := child(1, l.least, modes), child(2, l.least, modes), child(3, l.least, modes)
	decideOn(l.name, c, use, func() (P, P) { return l.eq(a, b, c) })
}

// decideOn compares two parsers in a context that uses c.
func decideOn(name string, c P, use func(x, c P) P, eq func() (P, P)) {
	x, y := eq()
	var outs [2]ParserContext
	var errs [2]error
	var below AstSlice
	for i, p := range []P{x, y} {
		ctx := ParserContext{Str: "source", Tag: 0, AstStack: make(AstSlice, 0, 8)}
		ctx.Position = begin
		ctx.AstStack = append(ctx.AstStack, h.Node(5))
		below = ctx.AstStack
		outs[i], errs[i] = use(p, c)(ctx)
		sym.Assert(len(below) == 1 && h.EqAst(below[0], h.Node(5)), "earlier nodes are kept")
	}
	o, q := outs[0], outs[1]
	// a parser of the user may leave anything behind when it does not match
	sym.Assert(o.MatchStatus == q.MatchStatus, name+": the same verdict")
	sym.Assert((errs[0] == nil) == (errs[1] == nil), name+": the same error")
	if errs[0] != nil {
		sym.Assert(errs[0].Error() == errs[1].Error(), name+": the same error")
		sym.Cover("error")
		return
	}
	if o.MatchStatus != MatchStatus_Matched {
		sym.Cover("unmatched")
		return
	}
	sym.Assert(o.Position == q.Position, name+": the same text")
	sym.Assert(h.EqAsts(o.AstStack, q.AstStack), name+": the same nodes")
	sym.Assert(h.TagOf(o) == h.TagOf(q), name+": the same tag")
	sym.Cover("matched")
}

func init() {
	n, contexts := len(laws), len(around)
	if sym.Thorough() {
		limit = 7
	}
	sym.Check("laws", 2*n*contexts, strconv.Itoa(n)+" laws over three children with an arbitrary outcome at each of 5 (thorough 7) positions (0..2 characters each), alone, after and before another parser or else another choice, repeated, grouped in a choice and looked ahead, with and without errors", func(c int) {
		l, k := laws[c%n], c/n%contexts
		modes := 2 + c/n/contexts
		u := around[k]
		if u.name == "repeated" {
			l.least = 1
		}
		decide(l, u.use, modes)
	})
}
