// C25: identifier lexers take the longest documented identifier.
package main

import (
	"unicode"

	"github.com/shellyln/takenoco/extra"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

func asciiStart(c byte) bool {
	letter := sym.And(c|0x20 >= 'a', c|0x20 <= 'z')
	return sym.Or(letter, sym.Or(c == '_', c == '$'))
}

func ascii(s string, i int) (string, int, bool) {
	j := i
	for j < len(s) && sym.Or(asciiStart(s[j]), sym.And(j > i, h.Digit(s[j]))) {
		j++
	}
	return s[i:j], j, j > i
}

func pattern(r rune) bool {
	return sym.Or(unicode.Is(unicode.Pattern_Syntax, r), unicode.Is(unicode.Pattern_White_Space, r))
}

// idStart is ID_Start as defined by UAX #31.
func idStart(r rune) bool {
	in := sym.Or(unicode.Is(unicode.L, r), sym.Or(unicode.Is(unicode.Nl, r), unicode.Is(unicode.Other_ID_Start, r)))
	return sym.And(in, !pattern(r))
}

// idContinue is ID_Continue as defined by UAX #31.
func idContinue(r rune) bool {
	in := idStart(r)
	for _, t := range []*unicode.RangeTable{unicode.Mn, unicode.Mc, unicode.Nd, unicode.Pc, unicode.Other_ID_Continue} {
		in = sym.Or(in, sym.And(unicode.Is(t, r), !pattern(r)))
	}
	return in
}

func first(r rune) bool { return sym.Or(idStart(r), sym.Or(r == '_', r == '$')) }

func next(r rune) bool {
	return sym.Or(idContinue(r), sym.Or(r == '$', sym.Or(r == 0x200c, r == 0x200d)))
}

func uni(s string, i int) (string, int, bool) {
	j := i
	for {
		r, n := h.DecodeRune(s, j)
		if n == 0 || j == i && !first(r) || j > i && !next(r) {
			return s[i:j], j, j > i
		}
		j += n
	}
}

func decide(unicode bool, s string, pos int) {
	if unicode {
		h.Lex(extra.UnicodeIdentifierStr(), uni, ":extra:IdentifierStr", s, pos, 1)
	} else {
		h.Lex(extra.AsciiIdentifierStr(), ascii, ":extra:IdentifierStr", s, pos, 1)
	}
}

// char is an arbitrary character of a given encoded length.
func char(name string, n int) string {
	r := sym.Rune32(name)
	lo, hi := rune(0), rune(0x7f)
	switch n {
	case 2:
		lo, hi = 0x80, 0x7ff
	case 3:
		lo, hi = 0x800, 0xffff
		sym.Assume(sym.Or(r < 0xd800, r > 0xdfff))
	case 4:
		lo, hi = 0x10000, 0x10ffff
	}
	sym.Assume(sym.And(r >= lo, r <= hi))
	return h.EncodeRune(r)
}

var patterns = []string{
	"_$a0?Z9?", "\u00e9?\u4e2d?", "a\u200d??", "x\u0301?\u00b7?", "\u2118?_1?", "\U00020000?a?", "$\u0660?\u203f?", "A??\xff",
}

// mixes of characters by encoded length
var mixes = [][]int{{1, 1, 1}, {2, 1}, {3}, {4}, {1, 2}, {1, 3}, {1, 4}, {3, 1}, {2, 2}, {3, 2}, {4, 1}, {2, 3}, {3, 3}, {4, 4}, {1, 3, 1}, {2, 2, 2}}

func init() {
	amax, umax, nm := 6, 3, 11
	if sym.Thorough() {
		amax, umax, nm = 9, 4, len(mixes)
	}
	sym.Check("ascii", amax+3, "AsciiIdentifierStr on all sources of 0..6 (thorough 9) bytes, positions 0 and 2", func(c int) {
		if c > amax {
			decide(false, sym.String("s", 5), c-amax)
		} else {
			decide(false, sym.String("s", c), 0)
		}
	})
	sym.Check("bytes", umax+2, "UnicodeIdentifierStr on all sources of 0..3 (thorough 4) bytes", func(c int) {
		if c > umax {
			decide(true, sym.String("s", umax), 1)
		} else {
			decide(true, sym.String("s", c), 0)
		}
	})
	sym.Check("characters", nm, "UnicodeIdentifierStr on 11 (thorough 16) sequences of up to 3 arbitrary characters of given encoded lengths", func(c int) {
		s := ""
		for i, n := range mixes[c] {
			s += char("c"+string(rune('0'+i)), n)
		}
		decide(true, s, 0)
	})
	sym.Check("patterns", 2*len(patterns), "both lexers on 8 longer sources with 2 arbitrary bytes", func(c int) {
		decide(c%2 == 0, h.Pattern("s", patterns[c/2]), 0)
	})
}
