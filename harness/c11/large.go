package main

import (
	"strings"

	. "github.com/shellyln/takenoco/base"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/h"
	"verif/harness/sym"
)

var ats = []int{63, 64, 127, 128, 255, 256, 1023, 4096}

// A token deep inside a long source.
func far(c int) {
	m := matchers[c%len(matchers)]
	c /= len(matchers)
	at := ats[c%len(ats)]
	tail := "????"
	if m.class == ":string:WordBoundary" {
		tail = "@@"
	}
	decide(m, h.Pattern("s", strings.Repeat("x", at-1)+"\n"+tail), at, c%len(ats)%3)
}

// Long literals.
func long(c int) {
	n := []int{9, 33, 64, 256, 300}[c%5]
	at := []int{0, 255}[c/5]
	lit := strings.Repeat("lorem ipsum ", 30)[:n-1]
	m := matcher{":string:Seq", literal, n, func() ParserFn { return Seq(lit + sym.String("lit", 1)) }}
	decide(m, h.Pattern("s", strings.Repeat("y", at)+lit+"?!"), at, 1)
	m = matcher{":string:CharClass", literal, -1, func() ParserFn { return CharClass("zz", lit+"q", lit) }}
	decide(m, h.Pattern("s", strings.Repeat("y", at)+lit+"?!"), at, 1)
}

// Tokens one after the other over a long source: spans lie end to end.
func tokens(c int) {
	n := []int{9, 17, 40}[c%3]
	s := h.Pattern("s", strings.Repeat("ab \xc3\xa91\xff\xe4\xb8\xad", 5)[:n]+"?"+strings.Repeat("c\xf0\x9f\x98\x80", n))
	ctx := *NewStringParserContext(s)
	out, err := OneOrMoreTimes(First(CharClass("ab", "a"), CharRange(RuneRange{Start: 'a', End: 0xff}), Whitespace(), Seq("\xff"), Any()))(ctx)
	sym.Assert(err == nil && out.MatchStatus == MatchStatus_Matched && out.Position == len(s), "the source is consumed")
	pos := 0
	for _, a := range out.AstStack {
		sym.Assert(a.SourcePosition.Position == pos, "a token starts where the previous one ended")
		l := sym.Concrete(a.SourcePosition.Length)
		sym.Assert(0 < l && pos+l <= len(s), "a token lies in the source")
		v, ok := a.Value.(string)
		sym.Assert(ok, "a token is a string")
		_, w := h.DecodeRune(s, pos)
		sym.Assert(v == s[pos:pos+l] || w == 1 && l == 1 && v == "\xef\xbf\xbd", "a token's value is its text")
		pos += l
	}
	sym.Assert(pos == len(s), "tokens cover the source")
	sym.Cover("tokens")
}

func init() {
	sym.Check("far", len(matchers)*len(ats), "every matcher at positions 63..4096 of a source ending in 4 arbitrary bytes", far)
	sym.Check("long", 5*2, "literals of 9..300 bytes", long)
	sym.Check("tokens", 3, "the tokens of sources of 55, 103 and 241 bytes, one of them arbitrary", tokens)
}
