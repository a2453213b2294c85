package main

import (
	"strings"

	. "github.com/shellyln/takenoco/string"
	"verif/harness/h"
	"verif/harness/sym"
)

const words = "The quick brown fox jumps over the lazy dog; \u00e9t\u00e9 \u03a3\u03af\u03c3\u03c5\u03c6\u03bf\u03c2 0123456789. "

func text(n int) []byte {
	return []byte(strings.Repeat(words, n/len(words)+1)[:n])
}

// long literals: equal texts but for free bytes in either at three places
func longSeq(c int) {
	n := []int{9, 16, 17, 33, 64, 65, 300}[c%7]
	at := []int{0, 1, 64, 255}[c/7%4]
	extra := c / 28 // bytes behind the literal in the source; -1: one short
	lit := text(n)
	src := append(text(at), lit...)
	if extra == 0 {
		src = src[:len(src)-1]
	} else {
		src = append(src, text(extra-1)...)
	}
	for i, k := range []int{0, n / 2, n - 1} {
		lit[k] = sym.Byte("l" + string(rune('0'+i)))
		if at+k < len(src) {
			src[at+k] = sym.Byte("s" + string(rune('0'+i)))
		}
	}
	s := string(src)
	ctx := h.At(s, at, 1)
	out, err := Seq(string(lit))(ctx)
	is(out, err, ctx, continues(s, at, string(lit)), n, "Seq")
	if extra > 0 {
		out, err = CharClass("\x00\x00", string(lit))(ctx)
		first := continues(s, at, "\x00\x00")
		if first {
			is(out, err, ctx, true, 2, "CharClass")
		} else {
			is(out, err, ctx, continues(s, at, string(lit)), n, "CharClass")
		}
	}
}

// long literals in any case
func longSeqI(c int) {
	n := []int{9, 16, 33, 65}[c%4]
	at := []int{0, 64}[c/4%2]
	lit := text(n)
	for i := range lit {
		if lit[i] >= 0x80 {
			lit[i] = 'Q'
		}
	}
	src := append(text(at), []byte(strings.ToUpper(string(lit)))...)
	src = append(src, text(c/8%2)...)
	for i, k := range []int{0, n / 2, n - 1} {
		b := sym.Byte("s" + string(rune('0'+i)))
		sym.Assume(b < 0x80)
		src[at+k] = b
		if c/16 == 1 {
			l := sym.Byte("l" + string(rune('0'+i)))
			sym.Assume(l < 0x80)
			lit[k] = l
		}
	}
	s := string(src)
	ctx := h.At(s, at, 1)
	out, err := SeqI(string(lit))(ctx)
	match := true
	for i := range lit {
		match = sym.And(match, lower(lit[i]) == lower(s[at+i]))
	}
	is(out, err, ctx, match, n, "SeqI")
}

// Many texts to choose from, with common beginnings, duplicates and one free
// text among them.
func manyWords(c int) {
	n := []int{9, 17, 40}[c%3]
	neg := c/3%2 == 1
	at := []int{0, 1, n / 2, n - 1}[c/6]
	var cc []string
	for i := 0; i < n; i++ {
		w := string(text(40)[i%7*5 : i%7*5+1+i%4])
		cc = append(cc, w)
	}
	cc[at] = sym.String("w", 2)
	s := sym.String("s", 4)
	ctx := h.At(s, 1, 1)
	first, k := false, 0
	for _, w := range cc {
		if continues(s, 1, w) {
			first, k = true, len(w)
			break
		}
	}
	if neg {
		out, err := CharClassN(cc...)(ctx)
		_, n := h.DecodeRune(s, 1)
		is(out, err, ctx, !first && 0 < n, n, "CharClassN")
		return
	}
	out, err := CharClass(cc...)(ctx)
	is(out, err, ctx, first, k, "CharClass")
}

// Many characters of one script, which have their first bytes in common.
func manyChars(c int) {
	n := []int{5, 9, 17, 40}[c%4]
	neg := c/4%2 == 1
	base := []rune{0x3041, 0x410, 0x1f600, 'A'}[c/8]
	var cc []string
	for i := 0; i < n; i++ {
		cc = append(cc, string(base+rune(i*7%40)))
	}
	k := len(cc[0])
	b := []byte(sym.String("s", 6))
	copy(b[1:], string(base)[:(k+1)/2-1+k/4])
	s := string(b)
	ctx := h.At(s, 1, 1)
	in := false
	for _, w := range cc {
		in = sym.Or(in, continues(s, 1, w))
	}
	if neg {
		out, err := CharClassN(cc...)(ctx)
		_, n := h.DecodeRune(s, 1)
		is(out, err, ctx, !in && 0 < n, n, "CharClassN")
		return
	}
	out, err := CharClass(cc...)(ctx)
	is(out, err, ctx, in, k, "CharClass")
}

func init() {
	sym.Check("longSeq", 7*4*3, "Seq and CharClass with texts of 9..300 bytes at positions 0, 1, 64 and 255, free bytes at the start, in the middle and at the end of literal and source, the source ending before, at and behind the literal's end", longSeq)
	sym.Check("longSeqI", 4*2*2*2, "SeqI with texts of 9..65 ASCII characters against the same in upper case with free characters at three places of the source or of both", longSeqI)
	sym.Check("manyChars", 4*2*4, "CharClass and CharClassN with 5, 9, 17 and 40 hiragana, Cyrillic letters, emoji and ASCII characters over arbitrary characters of that script", manyChars)
	sym.Check("manyWords", 3*2*4, "CharClass and CharClassN with 9, 17 and 40 texts, one of them free, over sources of 4 free bytes", manyWords)
}
