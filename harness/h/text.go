package h

import (
	"strconv"

	. "github.com/shellyln/takenoco/base"
	"verif/harness/sym"
)

func cont(b byte) bool { return b&0xc0 == 0x80 }

// DecodeRune is the character starting at s[i] by table 3-7 of the Unicode
// standard: its code point and length, U+FFFD of length 1 when no well-formed
// sequence starts there, length 0 at the end.
func DecodeRune(s string, i int) (rune, int) {
	n := len(s) - i
	if n <= 0 {
		return 0xfffd, 0
	}
	b0 := s[i]
	if b0 < 0x80 {
		return rune(b0), 1
	}
	if b0 < 0xc2 || b0 > 0xf4 || n < 2 {
		return 0xfffd, 1
	}
	b1 := s[i+1]
	if !cont(b1) {
		return 0xfffd, 1
	}
	if b0 < 0xe0 {
		return rune(b0&0x1f)<<6 | rune(b1&0x3f), 2
	}
	if n < 3 || !cont(s[i+2]) {
		return 0xfffd, 1
	}
	b2 := s[i+2]
	if b0 < 0xf0 {
		r := rune(b0&0x0f)<<12 | rune(b1&0x3f)<<6 | rune(b2&0x3f)
		if r < 0x800 || 0xd800 <= r && r <= 0xdfff {
			return 0xfffd, 1
		}
		return r, 3
	}
	if n < 4 || !cont(s[i+3]) {
		return 0xfffd, 1
	}
	r := rune(b0&0x07)<<18 | rune(b1&0x3f)<<12 | rune(b2&0x3f)<<6 | rune(s[i+3]&0x3f)
	if r < 0x10000 || r > 0x10ffff {
		return 0xfffd, 1
	}
	return r, 4
}

// LastRune is the character ending before s[end]: the well-formed sequence of
// 1..4 bytes ending there, else U+FFFD.
func LastRune(s string, end int) (rune, int) {
	for k := 1; k <= 4 && k <= end; k++ {
		if r, n := DecodeRune(s[:end], end-k); n == k && (r != 0xfffd || k == 3) {
			return r, k
		}
	}
	if 0 < end {
		return 0xfffd, 1
	}
	return 0xfffd, 0
}

// EncodeRune is the UTF-8 form of r (of U+FFFD for what is no code point).
func EncodeRune(r rune) string {
	if r < 0 || r > 0x10ffff || 0xd800 <= r && r <= 0xdfff {
		r = 0xfffd
	}
	if r < 0x80 {
		return string([]byte{byte(r)})
	}
	if r < 0x800 {
		return string([]byte{0xc0 | byte(r>>6), 0x80 | byte(r&0x3f)})
	}
	if r < 0x10000 {
		return string([]byte{0xe0 | byte(r>>12), 0x80 | byte(r>>6&0x3f), 0x80 | byte(r&0x3f)})
	}
	return string([]byte{0xf0 | byte(r>>18), 0x80 | byte(r>>12&0x3f), 0x80 | byte(r>>6&0x3f), 0x80 | byte(r&0x3f)})
}

// Pattern is a source in which '?' is an arbitrary byte, '#' an arbitrary
// decimal digit, '@' an arbitrary ASCII byte, and anything else itself.
func Pattern(name, pattern string) string {
	b := sym.String(name, len(pattern))
	r := make([]byte, len(pattern))
	for i := range r {
		switch pattern[i] {
		case '?':
			r[i] = b[i]
		case '#':
			// a number with a range: easier to decide than a byte with a condition
			r[i] = byte('0' + sym.Int(name+"#"+strconv.Itoa(i), 0, 9))
		case '@':
			sym.Assume(b[i] < 0x80)
			r[i] = b[i]
		default:
			r[i] = pattern[i]
		}
	}
	return string(r)
}

// At is a context for source s at position pos, holding below nodes and the
// traces of an earlier token of arbitrary length.
func At(s string, pos, below int) ParserContext {
	ctx := ParserContext{Str: s, AstStack: make(AstSlice, 0, below+8), Tag: 7, Quantity: 3}
	ctx.Position = pos
	ctx.Length = sym.Int("prevlen", 0, 3)
	for i := 0; i < below; i++ {
		ctx.AstStack = append(ctx.AstStack, Node(10+i))
	}
	return ctx
}

// Unmoved asserts that an unmatched parser left everything as it was.
func Unmoved(out ParserContext, err error, in ParserContext, below AstSlice) {
	sym.Assert(err == nil, "no error")
	sym.Assert(out.MatchStatus == MatchStatus_Unmatched, "unmatched")
	sym.Assert(out.Position == in.Position, "no match moves the position")
	sym.Assert(len(out.AstStack) == len(below) && EqAsts(out.AstStack, below), "no match adds or changes nodes")
}
