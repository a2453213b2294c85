// C24: number lexers accept exactly their number language.
package main

import (
	"strconv"

	. "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

// run consumes digits of a class and underscores, the first being a digit if
// first is set.
func run(s string, i int, in func(byte) bool, first bool) (text string, end int, ok bool) {
	for j := i; ; j++ {
		if j == len(s) {
			return text, j, j > i || !first
		}
		if in(s[j]) {
			text += s[j : j+1]
		} else if s[j] != '_' || first && j == i {
			return text, j, j > i || !first
		}
	}
}

func bin(c byte) bool { return sym.And(c >= '0', c <= '1') }
func oct(c byte) bool { return sym.And(c >= '0', c <= '7') }
func hex(c byte) bool {
	return sym.Or(h.Digit(c), sym.Or(sym.And(c >= 'a', c <= 'f'), sym.And(c >= 'A', c <= 'F')))
}

func radix(in func(byte) bool) h.Lexer {
	return func(s string, i int) (string, int, bool) { return run(s, i, in, true) }
}

func is(s string, i int, c byte) bool { return i < len(s) && s[i] == c }

func sign(s string, i int) (string, int) {
	if i < len(s) && sym.Or(s[i] == '+', s[i] == '-') {
		return s[i : i+1], i + 1
	}
	return "", i
}

// whole is the integer part: a zero and underscores, or digits and underscores.
func whole(s string, i int) (string, int, bool) {
	if is(s, i, '0') {
		for i++; is(s, i, '_'); i++ {
		}
		return "0", i, true
	}
	return run(s, i, h.Digit, true)
}

func exponent(s string, i int) (string, int) {
	if i < len(s) && sym.Or(s[i] == 'e', s[i] == 'E') {
		sg, j := sign(s, i+1)
		if d, end, ok := run(s, j, h.Digit, true); ok {
			return s[i:i+1] + sg + d, end
		}
	}
	return "", i
}

// point is a fraction without integer part.
func point(s string, i int) (string, int, bool) {
	if !is(s, i, '.') {
		return "", i, false
	}
	j := i + 1
	for is(s, j, '_') {
		j++
	}
	d, end, ok := run(s, j, h.Digit, true)
	return "." + d, end, ok
}

func integer(s string, i int) (string, int, bool) {
	sg, i := sign(s, i)
	t, end, ok := whole(s, i)
	return sg + t, end, ok
}

func float(s string, i int) (string, int, bool) {
	sg, i := sign(s, i)
	if t, j, ok := whole(s, i); ok {
		if is(s, j, '.') {
			f, k, _ := run(s, j+1, h.Digit, false)
			e, end := exponent(s, k)
			return sg + t + "." + f + e, end, true
		}
		e, end := exponent(s, j)
		return sg + t + e, end, end > j
	}
	t, j, ok := point(s, i)
	if !ok {
		return "", i, false
	}
	e, end := exponent(s, j)
	return sg + t + e, end, true
}

func numeric(s string, i int) (string, int, bool) {
	sg, i := sign(s, i)
	t, j, ok := whole(s, i)
	if ok && is(s, j, '.') {
		var f string
		f, j, _ = run(s, j+1, h.Digit, false)
		t += "." + f
	}
	if !ok {
		if t, j, ok = point(s, i); !ok {
			return "", i, false
		}
	}
	e, end := exponent(s, j)
	return sg + t + e, end, true
}

// valid is the format the conversions require of a text.
func valid(s string, base int, fraction bool) bool {
	i := 0
	if base == 10 {
		_, i = sign(s, 0)
	}
	digits := func() (n int) {
		for i < len(s) && (base == 2 && bin(s[i]) || base == 8 && oct(s[i]) || base == 10 && h.Digit(s[i]) || base == 16 && hex(s[i])) {
			i++
			n++
		}
		return
	}
	n := digits()
	if !fraction {
		return n > 0 && i == len(s)
	}
	if is(s, i, '.') {
		i++
		n += digits()
	}
	if n == 0 {
		return false
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		_, i = sign(s, i+1)
		if digits() == 0 {
			return false
		}
	}
	return i == len(s)
}

var lexers = []struct {
	class    string
	mk       func() ParserFn
	ref      h.Lexer
	base     int
	fraction bool
}{
	{":extra:BinaryNumberStr", extra.BinaryNumberStr, radix(bin), 2, false},
	{":extra:OctalNumberStr", extra.OctalNumberStr, radix(oct), 8, false},
	{":extra:HexNumberStr", extra.HexNumberStr, radix(hex), 16, false},
	{":extra:IntegerNumberStr", extra.IntegerNumberStr, integer, 10, false},
	{":extra:FloatNumberStr", extra.FloatNumberStr, float, 10, true},
	{":extra:NumericStr", extra.NumericStr, numeric, 10, true},
}

func decide(k int, s string, pos int) {
	l := lexers[k]
	text, ok := h.Lex(l.mk(), l.ref, l.class, s, pos, 1+pos%2)
	if ok {
		sym.Assert(valid(text, l.base, l.fraction), "the text has the form the conversion requires")
	}
}

// convert runs the conversion on what the lexer yields.
func convert(k int, s string) {
	l := lexers[k]
	out, err := l.mk()(h.At(s, 0, 0))
	if err != nil || out.MatchStatus != MatchStatus_Matched {
		return
	}
	_, err = strconv.ParseInt(out.AstStack[0].Value.(string), l.base, 64)
	sym.Assert(err == nil, "the conversion accepts the text")
	sym.Cover("converted")
}

// longer sources around the points where the grammar decides
var patterns = []string{
	"1_??_2.?5", "+0_.5e?3_?", "-.__?1e+?", ".?", "12_3e-?_?", "0??1", "??0_.e1", "9_9.?_?e1", "ff_??F_g?", "07_??8", "1_0??2",
	"12345678901234567890?", "-?.0e0?", "1.__??", "0_e?", "+?_1", "0.e?+", "1e+?",
}

func init() {
	max := 6
	if sym.Thorough() {
		max = 7
	}
	type shape struct{ n, pos int }
	var shapes []shape
	for n := max; n >= 0; n-- {
		shapes = append(shapes, shape{n, 0})
		if n > 0 && n < max {
			shapes = append(shapes, shape{n, 1})
		}
	}
	shapes = append(shapes, shape{4, 3}, shape{2, 2})
	sym.Check("sources", len(lexers)*len(shapes), "all 6 number lexers on all sources of 0..6 (thorough 7) bytes from the start, and of one less from later positions", func(c int) {
		s := shapes[c/len(lexers)]
		decide(c%len(lexers), sym.String("s", s.n), s.pos)
	})
	sym.Check("patterns", len(lexers)*len(patterns), "all lexers on 18 longer sources with up to 3 arbitrary bytes", func(c int) {
		decide(c%len(lexers), h.Pattern("s", patterns[c/len(lexers)]), 0)
	})
	sym.Check("convert", 4, "the integer conversions on what the lexers make of all sources of 4 bytes", func(c int) {
		convert(c, sym.String("s", 4))
	})
}
