// C10: literal matchers match exactly the given text.
package main

import (
	"unicode"

	. "github.com/shellyln/takenoco/base"
	obj "github.com/shellyln/takenoco/object"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

type shape struct{ n, pos int }

func shapes(max int) (r []shape) {
	for n := 0; n <= max; n++ {
		for p := 0; p <= n; p++ {
			r = append(r, shape{n, p})
		}
	}
	return
}

// continues reports whether s continues with lit at pos.
func continues(s string, pos int, lit string) bool {
	if len(s) < pos+len(lit) {
		return false
	}
	eq := true
	for i := range []byte(lit) {
		eq = sym.And(eq, s[pos+i] == lit[i])
	}
	return eq
}

func is(out ParserContext, err error, ctx ParserContext, match bool, n int, what string) {
	sym.Assert(err == nil, what+": no error")
	if match {
		sym.Assert(out.MatchStatus == MatchStatus_Matched, what+": matched where the text stands")
		sym.Assert(out.Position == ctx.Position+n, what+": consumes the matched text")
		sym.Cover("matched")
	} else {
		sym.Assert(out.MatchStatus == MatchStatus_Unmatched, what+": unmatched where the text does not stand")
		sym.Assert(out.Position == ctx.Position, what+": nothing consumed without a match")
		sym.Cover("unmatched")
	}
}

// Seq with every literal
func seq(sh []shape, lits int) func(int) {
	return func(c int) {
		k := c % lits
		x := sh[c/lits]
		s, lit := sym.String("s", x.n), sym.String("lit", k)
		ctx := h.At(s, x.pos, 1)
		out, err := Seq(lit)(ctx)
		is(out, err, ctx, continues(s, x.pos, lit), k, "Seq")
	}
}

func lower(b byte) byte {
	if 'A' <= b && b <= 'Z' {
		return b + 'a' - 'A'
	}
	return b
}

// foldEq compares a character with one of a given literal under simple case
// folding.
func foldEq(a, lit rune) bool {
	eq := a == lit
	for f := unicode.SimpleFold(lit); f != lit; f = unicode.SimpleFold(f) {
		eq = sym.Or(eq, a == f)
	}
	return eq
}

func foldEqStr(a, lit string) bool {
	i, j := 0, 0
	for i < len(a) && j < len(lit) {
		x, n := h.DecodeRune(a, i)
		y, m := h.DecodeRune(lit, j)
		if !foldEq(x, y) {
			return false
		}
		i, j = i+n, j+m
	}
	return i == len(a) && j == len(lit)
}

// SeqI with every ASCII literal over sources of ASCII bytes
func seqIAscii(sh []shape, lits int) func(int) {
	return func(c int) {
		k := c % lits
		x := sh[c/lits]
		s, lit := sym.String("s", x.n), sym.String("lit", k)
		for i := range []byte(s) {
			sym.Assume(s[i] < 0x80)
		}
		for i := range []byte(lit) {
			sym.Assume(lit[i] < 0x80)
		}
		ctx := h.At(s, x.pos, 1)
		out, err := SeqI(lit)(ctx)
		match := false
		if x.pos+k <= len(s) {
			match = true
			for i := range []byte(lit) {
				match = sym.And(match, lower(lit[i]) == lower(s[x.pos+i]))
			}
		}
		is(out, err, ctx, match, k, "SeqI")
	}
}

// SeqI with given literals (letters with case orbits inside and outside
// ASCII, digits, invalid bytes) over arbitrary bytes
var lits = []string{
	"k", "s", "kk", "\u00e9", "\u00df", "\u017f", "\u03c3", "\u03a3a", "\u01c5", "\u212a", "\u1e9e", "s\u00e5", "\xff", "a\xc3", "\u0130", "\u4e2d", "\U00010400", "0_", "\u00b5", "ba",
}

func seqI(c int) {
	lit := lits[c/3]
	n := len(lit) + c%3
	if n == len(lit) {
		n--
	} else if n == len(lit)+1 {
		n--
	}
	pos := c % 3 / 2
	s := sym.String("s", n)
	ctx := h.At(s, pos, 1)
	out, err := SeqI(lit)(ctx)
	match := pos+len(lit) <= n && foldEqStr(s[pos:pos+len(lit)], lit)
	is(out, err, ctx, match, len(lit), "SeqI")
}

// CharClass and CharClassN with lists of arbitrary strings
var lists = [][]int{{}, {0}, {1}, {2}, {1, 1}, {1, 2}, {2, 1}, {3, 2}, {0, 1}, {1, 0}, {2, 3, 1}, {1, 1, 1}}

func classes(sh []shape, neg bool) func(int) {
	return func(c int) {
		list := lists[c%len(lists)]
		x := sh[c/len(lists)]
		s := sym.String("s", x.n)
		var cc []string
		for i, k := range list {
			cc = append(cc, sym.String("c"+string(rune('0'+i)), k))
		}
		ctx := h.At(s, x.pos, 1)
		first, n := false, 0
		for _, w := range cc {
			if continues(s, x.pos, w) {
				first, n = true, len(w)
				break
			}
		}
		if neg {
			out, err := CharClassN(cc...)(ctx)
			_, n := h.DecodeRune(s, x.pos)
			is(out, err, ctx, !first && 0 < n, n, "CharClassN")
			return
		}
		out, err := CharClass(cc...)(ctx)
		is(out, err, ctx, first, n, "CharClass")
	}
}

// Start and End, in strings and object sources
func ends(max int) func(int) {
	return func(c int) {
		n := c % (max + 1)
		s := sym.String("s", n)
		for pos := 0; pos <= n; pos++ {
			ctx := h.At(s, pos, 1)
			out, err := End()(ctx)
			is(out, err, ctx, pos == n, 0, "End")
			out, err = Start()(ctx)
			is(out, err, ctx, pos == 0, 0, "Start")
			ctx.Str, ctx.Slice = "", make(h.Ints, n)
			out, err = obj.End()(ctx)
			is(out, err, ctx, pos == n, 0, "object End")
			out, err = Start()(ctx)
			is(out, err, ctx, pos == 0, 0, "Start")
		}
	}
}

func init() {
	max, nl := 5, 4
	if sym.Thorough() {
		max, nl = 7, 6
	}
	sh := shapes(max)
	sym.Check("seq", len(sh)*nl, "Seq: arbitrary literals of 0..3 (thorough 5) bytes, arbitrary sources of 0..5 (7) bytes, every position", seq(sh, nl))
	sym.Check("seqIAscii", len(sh)*nl, "SeqI: arbitrary ASCII literals of 0..3 (thorough 5) bytes and ASCII sources of 0..5 (7) bytes", seqIAscii(sh, nl))
	sym.Check("seqI", len(lits)*3, "SeqI: 20 literals with case variants, arbitrary sources one byte short, equal and one byte longer", seqI)
	cs := shapes(4)
	sym.Check("class", len(cs)*len(lists), "CharClass: 12 list shapes of 0..3 arbitrary strings of 0..3 bytes, sources of 0..4 bytes, every position", classes(cs, false))
	sym.Check("classN", len(cs)*len(lists), "CharClassN: the same", classes(cs, true))
	sym.Check("ends", max+1, "Start and End at every position of string and object sources of 0..5 (thorough 7)", ends(max))
}
