// C11: every token records its exact text and source span.
package main

import (
	. "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

type kind int

const (
	char    kind = iota // one character
	literal             // the bytes of the source, as long as the match
	zero                // zero-width
)

type matcher struct {
	class string
	k     kind
	n     int // length of a literal, -1: any
	mk    func() ParserFn
}

func vowel(c rune) bool { return c == 'a' || c == 'e' || c == 0xe9 || c > 0xffff }

var matchers = []matcher{
	{":string:Any", char, 0, Any},
	{":string:CharRange", char, 0, func() ParserFn {
		return CharRange(RuneRange{Start: 'a', End: 'c'}, RuneRange{Start: 0x80, End: sym.Rune32("hi")})
	}},
	{":string:CharRangeN", char, 0, func() ParserFn { return CharRangeN(RuneRange{Start: sym.Rune32("lo"), End: sym.Rune32("hi")}) }},
	{":string:CharClassN", char, 0, func() ParserFn { return CharClassN("a", sym.String("lit", 2)) }},
	{":string:CharClassFn", char, 0, func() ParserFn { return CharClassFn(vowel) }},
	{":string:Whitespace", char, 0, Whitespace},
	{":string:WhitespaceNoLineBreak", char, 0, WhitespaceNoLineBreak},
	{":string:LineBreak", char, 0, LineBreak},
	{":string:Alpha", char, 0, Alpha},
	{":string:Number", char, 0, Number},
	{":string:Alnum", char, 0, Alnum},
	{":string:BinNumber", char, 0, BinNumber},
	{":string:OctNumber", char, 0, OctNumber},
	{":string:HexNumber", char, 0, HexNumber},
	{":string:Seq", literal, 0, func() ParserFn { return Seq("") }},
	{":string:Seq", literal, 1, func() ParserFn { return Seq(sym.String("lit", 1)) }},
	{":string:Seq", literal, 3, func() ParserFn { return Seq(sym.String("lit", 3)) }},
	{":string:SeqI", literal, 2, func() ParserFn { return SeqI("aK") }},
	{":string:SeqI", literal, 2, func() ParserFn { return SeqI("\u00e9") }},
	{":string:CharClass", literal, -1, func() ParserFn { return CharClass(sym.String("l2", 2), sym.String("l1", 1), "\u4e2d") }},
	{":string:CharClass", literal, -1, func() ParserFn { return CharClass() }},
	{":string:End", zero, 0, End},
	{":base:Start", zero, 0, Start},
	{":string:WordBoundary", zero, 0, WordBoundary},
	{":base:Unmatched", zero, 0, Unmatched},
	{":base:Zero", zero, 0, func() ParserFn { return Zero() }},
	{":string:WordBoundary", zero, 0, extra.UnicodeWordBoundary},
}

type shape struct{ n, pos, below int }

// shapes: every source length and position; one source with an empty and a
// deeper stack.
func shapes(max int) (r []shape) {
	for n := 0; n <= max; n++ {
		for p := 0; p <= n; p++ {
			r = append(r, shape{n, p, 1})
		}
	}
	return append(r, shape{3, 1, 0}, shape{3, 2, 3})
}

func decide(m matcher, s string, pos, nbelow int) {
	p := m.mk()
	ctx := h.At(s, pos, nbelow)
	below := h.Clone(ctx.AstStack)
	out, err := p(ctx)
	if out.MatchStatus != MatchStatus_Matched {
		h.Unmoved(out, err, ctx, below)
		sym.Cover("unmatched")
		return
	}
	sym.Cover("matched")
	sym.Assert(err == nil, "no error with a match")
	sym.Assert(pos <= out.Position && out.Position <= len(s), "the position stays inside the source")
	if m.k == zero {
		sym.Assert(out.Position == pos, "a zero-width assertion does not move")
		sym.Assert(out.Length == 0, "a zero-width assertion matches an empty text")
		sym.Assert(h.EqAsts(out.AstStack, below), "a zero-width assertion adds no node")
		return
	}
	n := sym.Concrete(out.Position - pos)
	text := s[pos : pos+n]
	if m.k == char {
		r, w := h.DecodeRune(s, pos)
		sym.Assert(n == w && 0 < n, "one character is consumed")
		if r == 0xfffd && w == 1 {
			text = "\xef\xbf\xbd"
			sym.Cover("invalid byte")
		}
	} else if m.n >= 0 {
		sym.Assert(n == m.n, "the literal's length is consumed")
	}
	sym.Assert(out.Length == n, "the context's length is that of the token")
	sym.Assert(len(out.AstStack) == nbelow+1, "one node is added")
	sym.Assert(h.EqAsts(out.AstStack[:nbelow], below), "earlier nodes are kept")
	a := out.AstStack[nbelow]
	v, isStr := a.Value.(string)
	sym.Assert(isStr && a.Type == AstType_String, "the node is a string node")
	sym.Assert(v == text, "the node's value is the consumed text")
	sym.Assert(a.ClassName == m.class, "the node's class is the matcher's")
	sym.Assert(a.SourcePosition.Position == pos, "the node records where its text starts")
	sym.Assert(a.SourcePosition.Length == n, "the node records the length of its text")
	sym.Assert(out.Str == s, "the source is kept")
	sym.Assert(out.Tag == ctx.Tag, "the tag is kept")
}

func single(sh []shape) func(int) {
	return func(c int) {
		x := sh[c/len(matchers)]
		if matchers[c%len(matchers)].class == ":string:WordBoundary" && c%len(matchers) == len(matchers)-1 && x.n > 3 {
			x.n, x.pos = 3, x.pos%4 // the Unicode tables make longer ones costly
		}
		decide(matchers[c%len(matchers)], sym.String("s", x.n), x.pos, x.below)
	}
}

// Two tokens in sequence: spans lie end to end.
func pair(c int) {
	nm := len(matchers) - 1
	a, b := matchers[c%nm], matchers[(c*7+c/nm*5+3)%nm]
	s := sym.String("s", 4)
	p := FlatGroup(a.mk(), b.mk())
	ctx := h.At(s, 1, 1)
	below := h.Clone(ctx.AstStack)
	out, err := p(ctx)
	if out.MatchStatus != MatchStatus_Matched {
		h.Unmoved(out, err, ctx, below)
		return
	}
	sym.Cover("pair")
	want := 1
	pos := 1
	sym.Assert(out.Position <= len(s), "the position stays inside the source")
	for _, m := range []matcher{a, b} {
		if m.k == zero {
			continue
		}
		want++
		sym.Assert(len(out.AstStack) >= want, "one node for each token")
		node := out.AstStack[want-1]
		sym.Assert(node.ClassName == m.class, "nodes in source order")
		sym.Assert(node.SourcePosition.Position == pos, "a token starts where the previous one ended")
		if m.k == char {
			_, w := h.DecodeRune(s, pos)
			sym.Assert(node.SourcePosition.Length == w, "length of a character token")
		} else {
			sym.Assert(node.SourcePosition.Length == len(node.Value.(string)), "length of a literal token")
		}
		pos += sym.Concrete(node.SourcePosition.Length)
	}
	sym.Assert(len(out.AstStack) == want, "one node for each token")
	sym.Assert(out.Position == pos, "the position is the end of the last token")
}

// Zero with nodes: copies of them, placed where the parse stands.
func inserted(n, pos, nbelow int) {
	var given AstSlice
	for i := 0; i < n; i++ {
		k := string(rune('a' + i))
		given = append(given, Ast{OpCode: AstOpCodeType(sym.Int(k+"o", 0, 9)), ClassName: "z" + k, Type: AstType_String, Value: sym.String(k, 1),
			SourcePosition: SourcePosition{Position: sym.Int(k+"p", 0, 99), Length: sym.Int(k+"l", 0, 9)}})
	}
	kept := h.Clone(given)
	p := Zero(given...)
	for _, at := range []int{pos, 0, pos + 3} {
		ctx := h.At("abcdefgh", at, nbelow)
		below := h.Clone(ctx.AstStack)
		out, err := p(ctx)
		sym.Assert(err == nil && out.MatchStatus == MatchStatus_Matched, "Zero always matches")
		sym.Assert(out.Position == at && out.Length == 0, "a zero-width assertion does not move")
		sym.Assert(len(out.AstStack) == nbelow+n && h.EqAsts(out.AstStack[:nbelow], below), "the nodes are added to the earlier ones")
		for i, a := range out.AstStack[nbelow:] {
			want := kept[i]
			want.SourcePosition = SourcePosition{Position: at}
			sym.Assert(h.EqAst(a, want), "each is the given one, placed where the parse stands")
		}
		sym.Assert(h.EqAsts(given, kept), "the given nodes are not changed")
	}
	sym.Cover("inserted")
}

func init() {
	max, np := 4, 1
	if sym.Thorough() {
		max, np = 6, 4
	}
	sh := shapes(max)
	sym.Check("span", len(sh)*len(matchers), "every matcher on all sources of 0..4 (thorough 6) bytes at every position, after a token of arbitrary length, above 0..3 nodes", single(sh))
	sym.Check("inserted", 5*3*2, "Zero with 0..4 arbitrary nodes at three places, above 0 and 3 nodes, used three times", func(c int) {
		inserted(c%5, c/5%3, c/15*3)
	})
	sym.Check("pair", (len(matchers)-1)*np, "26 (thorough 104) pairs of matchers in sequence on sources of 4 bytes", pair)
}
