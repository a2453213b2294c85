// C12: word boundaries are exactly the word/non-word transitions.
package main

import (
	"unicode"

	. "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

func word(r rune) bool {
	in := func(lo, hi rune) bool { return sym.And(lo <= r, r <= hi) }
	return sym.Or(sym.Or(in('0', '9'), in('A', 'Z')), sym.Or(in('a', 'z'), sym.Or(r == '_', r == '$')))
}

// idContinue by its definition in UAX #31.
func idContinue(r rune) bool {
	in := false
	for _, t := range []*unicode.RangeTable{unicode.L, unicode.Nl, unicode.Other_ID_Start, unicode.Mn, unicode.Mc, unicode.Nd, unicode.Pc, unicode.Other_ID_Continue} {
		in = sym.Or(in, unicode.Is(t, r))
	}
	out := sym.Or(unicode.Is(unicode.Pattern_Syntax, r), unicode.Is(unicode.Pattern_White_Space, r))
	return sym.And(in, !out)
}

func uniWord(r rune) bool {
	return sym.Or(idContinue(r), sym.Or(r == '$', sym.Or(r == 0x200c, r == 0x200d)))
}

// boundary of s at pos, a position where a character starts.
func boundary(s string, pos int, w func(rune) bool) bool {
	prev, next := false, false
	if c, n := h.LastRune(s, pos); n > 0 {
		prev = w(c)
	}
	if c, n := h.DecodeRune(s, pos); n > 0 {
		next = w(c)
	}
	return prev != next
}

// starts reports whether pos is a character position: decoding from the start
// passes it.
func starts(s string, pos int) bool {
	at := 0
	for at < pos {
		_, n := h.DecodeRune(s, at)
		at += sym.Concrete(n)
	}
	return at == pos
}

func decide(p ParserFn, w func(rune) bool, s string, pos int) {
	if !starts(s, pos) {
		return
	}
	ctx := h.At(s, pos, 1)
	below := h.Clone(ctx.AstStack)
	out, err := p(ctx)
	sym.Assert(err == nil, "no error")
	sym.Assert(out.Position == pos && h.EqAsts(out.AstStack, below), "nothing is consumed or produced")
	if boundary(s, pos, w) {
		sym.Assert(out.MatchStatus == MatchStatus_Matched, "matched at a word/non-word transition")
		sym.Cover("boundary")
	} else {
		sym.Assert(out.MatchStatus == MatchStatus_Unmatched, "unmatched elsewhere")
		sym.Cover("none")
	}
}

type shape struct{ n, pos int }

func shapes(max int) (r []shape) {
	for n := 0; n <= max; n++ {
		for p := 0; p <= n; p++ {
			r = append(r, shape{n, p})
		}
	}
	return
}

func ascii(sh []shape) func(int) {
	return func(c int) { decide(WordBoundary(), word, sym.String("s", sh[c].n), sh[c].pos) }
}

func uni(sh []shape) func(int) {
	return func(c int) {
		decide(extra.UnicodeWordBoundary(), uniWord, sym.String("s", sh[c].n), sh[c].pos)
	}
}

// positions from 4-byte characters on both sides
var wide = []struct {
	pattern string
	pos     int
}{
	{"????a", 4}, {"????.", 4}, {"a????", 1}, {".????", 1}, {"\u00e9???", 2}, {"???\u4e2d", 3},
}

func uniWide(c int) {
	decide(extra.UnicodeWordBoundary(), uniWord, h.Pattern("s", wide[c].pattern), wide[c].pos)
}

func asciiWide(c int) {
	decide(WordBoundary(), word, h.Pattern("s", wide[c].pattern), wide[c].pos)
}

func init() {
	max, umax := 5, 3
	if sym.Thorough() {
		max, umax = 7, 4
	}
	sh, ush := shapes(max), shapes(umax)
	sym.Check("ascii", len(sh), "WordBoundary at every position of all sources of 0..5 (thorough 7) bytes", ascii(sh))
	sym.Check("unicode", len(ush), "UnicodeWordBoundary at every position of all sources of 0..3 (thorough 4) bytes", uni(ush))
	sym.Check("asciiWide", len(wide), "WordBoundary next to arbitrary characters of up to 4 bytes", asciiWide)
	sym.Check("unicodeWide", len(wide), "UnicodeWordBoundary next to arbitrary characters of up to 4 bytes", uniWide)
}
