// C35: every parser keeps the parser contract, whatever the text.
package main

import (
	"strconv"

	. "github.com/shellyln/takenoco/base"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

// unplaced parsers add nodes whose positions are not those of their texts
var unplaced = map[string]bool{"Zero": true, "Roll": true, "Prepend": true, "Push": true, "PushPrepend": true, "ProductionRule": true, "BaseParser": true}

func panics(p ParserFn, ctx ParserContext) (out ParserContext, err error, r interface{}) {
	defer func() { r = recover() }()
	out, err = p(ctx)
	return
}

// contract runs a parser at pos of s and checks what every parser promises.
func contract(it h.Item, s string, pos, below int) {
	if it.Name == "Match" {
		below = 0 // it takes nodes from the stack
	}
	run(it.Mk(), s, pos, below, !unplaced[it.Name])
}

func run(p ParserFn, s string, pos, below int, placed bool) {
	ctx := h.At(s, pos, below)
	nodes := h.Clone(ctx.AstStack)
	out, err, r := panics(p, ctx)
	sym.Assert(r == nil, "no text makes a parser panic")
	sym.Assert(h.EqAsts(ctx.AstStack, nodes), "the caller's nodes are not changed")
	sym.Assert((err != nil) == (out.MatchStatus == MatchStatus_Error), "an error is a status and a value")
	sym.Assert(out.Str == s && out.Tag == 7, "the source and the tag are kept")
	switch out.MatchStatus {
	case MatchStatus_Error:
		sym.Cover("error")
	case MatchStatus_Unmatched:
		h.Unmoved(out, err, ctx, nodes)
		sym.Cover("unmatched")
	case MatchStatus_Matched:
		sym.Assert(pos <= out.Position && out.Position <= len(s), "a match ends inside the source")
		sym.Assert(len(out.AstStack) >= below && h.EqAsts(out.AstStack[:below], nodes), "a match keeps earlier nodes")
		at := pos
		for _, a := range out.AstStack[below:] {
			if placed && a.ClassName != ":base:Group" && a.ClassName != "g" && a.Value != "" && a.Type != AstType_Any {
				sym.Assert(at <= a.Position && a.Position+a.SourcePosition.Length <= out.Position && a.SourcePosition.Length >= 0, "new nodes lie in the matched text, in order")
				at = a.Position
			}
		}
		sym.Cover("matched")
	default:
		sym.Assert(false, "a parser returns a verdict")
	}
}

// spelled: the texts a parser is made for, from the start and after a prefix.
func spelled(c int) {
	it := h.Items[c/3]
	pre := c % 3
	pattern := it.One
	if pre == 1 {
		pattern = it.Two
	}
	s := h.Source("s", pattern)
	if pre > 0 {
		s = sym.String("pre", 1) + s
		pre = 1
	}
	contract(it, s, pre, (c+c/3)%3)
}

// wild: arbitrary bytes.
func wild(c, n int) {
	it := h.Items[c%len(h.Items)]
	pos := c / len(h.Items)
	contract(it, sym.String("s", n), pos, 1)
}

// cut: a text that ends in the middle.
func cut(c int) {
	it, k := h.Items[c%len(h.Items)], c/len(h.Items)
	pattern := it.One
	if k >= len(pattern) {
		return
	}
	contract(it, h.Source("s", pattern[:k]), 0, 0)
}

// pairs: a parser after, besides and within others.
func pairs(c int) {
	n := len(h.Items)
	a, b := h.Items[c%n], h.Items[(c*13+c/n*7+5)%n]
	var p ParserFn
	switch c % 4 {
	case 0:
		p = FlatGroup(a.Mk(), b.Mk())
	case 1:
		p = First(FlatGroup(a.Mk(), b.Mk()), b.Mk(), a.Mk())
	case 2:
		p = FlatGroup(Any(), ZeroOrOnce(a.Mk()), LookAhead(b.Mk()))
	case 3:
		p = FlatGroup(LookAheadN(a.Mk()), Repeat(Times{Min: 0, Max: 2}, b.Mk(), Any()))
	}
	below := 1
	if a.Name == "Match" || b.Name == "Match" {
		below = 0
	}
	run(p, h.Source("s", a.One+b.Two), 0, below, false)
}

// every: parsers that accept every character, on arbitrary bytes.
func every(c, n int) {
	p := []func() ParserFn{
		Any,
		func() ParserFn { return CharClassFn(func(rune) bool { return true }) },
		func() ParserFn { return CharRange(RuneRange{Start: 0, End: 0x10ffff}) },
		func() ParserFn { return CharRangeN() },
		func() ParserFn { return CharClassN() },
		func() ParserFn { return CharClassN("ab", "c") },
		func() ParserFn { return CharRangeN(RuneRange{Start: 'a', End: 'z'}) },
		func() ParserFn { return CharClassFn(func(r rune) bool { return r > 0x7f }) },
	}[c/2]()
	if c%2 == 1 {
		p = Trans(ZeroOrMoreTimes(p), Concat)
	}
	run(p, sym.String("s", n), 0, c%3, c%2 == 0)
}

// bare: combinators that give up after part of the text has matched.
func bare(c, n int) {
	some := []func() ParserFn{
		letter, func() ParserFn { return Trans(letter(), Erase) }, func() ParserFn { return FlatGroup(Any(), letter()) },
	}[c%3]()
	times := func(lo, hi int) ParserFn { return Repeat(Times{Min: lo, Max: hi}, some) }
	p := []ParserFn{
		times(2, -1), times(3, 3), times(2, 1), LookAheadN(some), LookAheadN(times(1, 2)), LookAhead(some, some), LookBehindN(0, 1, some),
		Trans(times(2, 3), Concat), First(times(2, 2), FlatGroup(some, Number())), FlatGroup(some, times(2, -1)), Group(times(2, 2)), Once(some, some),
		BaseParser("last", func(matched, bottom int, ctx ParserContext) (ParserContext, error) {
			if matched < 0 {
				ctx.MatchStatus = MatchStatus_Unmatched // the whole is refused
			}
			return ctx, nil
		}, nil, []ParserFn{some}, nil),
		BaseParser("not", nil, []interface{}{Negative{}}, []ParserFn{some}, nil),
		Repeat(Times{Min: 2, Max: 2}, times(2, 2)),
		LookAheadN(LookAheadN(some)),
	}[c/3]
	run(p, sym.String("s", n), 0, c%3, false)
}

func letter() ParserFn { return CharRange(RuneRange{Start: 'a', End: 'z'}) }

func init() {
	n, np, longest := len(h.Items), 1, 0
	for _, it := range h.Items {
		longest = max(longest, len(it.One))
	}
	sizes := []int{1, 2}
	if sym.Thorough() {
		sizes, np = []int{1, 2, 3, 4}, 4
	}
	sym.Check("spelled", 3*n, strconv.Itoa(n)+" parsers (every matcher, combinator, transformer and lexer) on texts they are made for with arbitrary bytes or digits, at the start and after an arbitrary byte", spelled)
	for _, k := range sizes {
		sym.Check("wild"+strconv.Itoa(k), n*(k+1), "the same parsers on all sources of "+strconv.Itoa(k)+" bytes at every position", func(c int) { wild(c, k) })
	}
	for k := range max(4, len(sizes)+1) {
		sym.Check("every"+strconv.Itoa(k), 16, "parsers that accept every character or many, once and repeated, on all sources of "+strconv.Itoa(k)+" bytes", func(c int) { every(c, k) })
	}
	for k := range 4 {
		sym.Check("bare"+strconv.Itoa(k), 16*3, "repetitions, look-around and choices that give up part-way, by themselves, on all sources of "+strconv.Itoa(k)+" bytes", func(c int) { bare(c, k) })
	}
	sym.Check("cut", n*longest, "the same parsers on every beginning of such texts", cut)
	sym.Check("pairs", np*n, "pairs of them in sequences, choices, repetitions and look-ahead", pairs)
}
