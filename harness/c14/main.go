// C14: number conversions are exact or an error.
package main

import (
	"strconv"

	. "github.com/shellyln/takenoco/base"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

// nodes splits text into nodes at the given cut.
func nodes(text string, cut int) AstSlice {
	mk := func(i int, s string) Ast {
		return Ast{ClassName: "c" + strconv.Itoa(i), Type: AstType_String, Value: s, SourcePosition: SourcePosition{Position: 40 + i, Length: 2 + i}}
	}
	if cut < 0 {
		return AstSlice{mk(0, text)}
	}
	return AstSlice{mk(0, text[:cut]), mk(1, text[cut:])}
}

func digit(b byte) (uint64, bool) {
	in := func(lo, hi byte) bool { return sym.And(lo <= b, b <= hi) }
	if in('0', '9') {
		return uint64(b - '0'), true
	}
	if in('a', 'z') {
		return uint64(b-'a') + 10, true
	}
	if in('A', 'Z') {
		return uint64(b-'A') + 10, true
	}
	return 0, false
}

// number is the value of digits in the radix; ok is false when they are none
// or the value is above max.
func number(s string, radix int, max uint64) (v uint64, ok bool) {
	if len(s) == 0 {
		return 0, false
	}
	r := uint64(radix)
	for i := 0; i < len(s); i++ {
		d, good := digit(s[i])
		if !good || d >= r {
			return 0, false
		}
		// v*r+d <= max
		if v > max/r || v == max/r && d > max%r {
			for j := i + 1; j < len(s); j++ {
				if d, good := digit(s[j]); !good || d >= r {
					return 0, false
				}
			}
			return 0, false
		}
		v = v*r + d
	}
	return v, true
}

func is(out AstSlice, err error, in, before AstSlice, ok bool, typ AstType) bool {
	sym.Assert(h.EqAsts(in, before), "the given nodes are not changed")
	if !ok {
		sym.Assert(err != nil, "text that is no such number is an error")
		sym.Cover("error")
		return false
	}
	sym.Assert(err == nil, "a number is converted")
	sym.Assert(len(out) == 1, "one node")
	sym.Assert(out[0].Type == typ, "typed as the number it holds")
	sym.Assert(out[0].ClassName == "c0" && out[0].Position == 40 && out[0].Length == 2, "class name and position of the first node")
	sym.Cover("number")
	return true
}

func signed(text string, cut, radix int, plain bool) {
	in := nodes(text, cut)
	before := h.Clone(in)
	f := ParseIntRadix(radix)
	if plain {
		f = ParseInt
	}
	out, err := f(ParserContext{}, in)
	neg, rest := false, text
	if 0 < len(text) && (text[0] == '+' || text[0] == '-') {
		neg, rest = text[0] == '-', text[1:]
	}
	max := uint64(1<<63 - 1)
	if neg {
		max = 1 << 63
	}
	v, ok := number(rest, radix, max)
	if is(out, err, in, before, ok, AstType_Int) {
		x, isInt := out[0].Value.(int64)
		if neg {
			v = -v
		}
		sym.Assert(isInt && x == int64(v), "the value is the number spelled")
	}
}

func unsigned(text string, cut, radix int, plain bool) {
	in := nodes(text, cut)
	before := h.Clone(in)
	f := ParseUintRadix(radix)
	if plain {
		f = ParseUint
	}
	out, err := f(ParserContext{}, in)
	rest := text
	if 0 < len(text) && text[0] == '+' {
		rest = text[1:]
	}
	v, ok := number(rest, radix, 1<<64-1)
	if is(out, err, in, before, ok, AstType_Uint) {
		x, isUint := out[0].Value.(uint64)
		sym.Assert(isUint && x == v, "the value is the number spelled")
	}
}

var radixes = []int{2, 3, 8, 10, 11, 16, 35, 36}

type shape struct{ n, cut int }

type combo struct {
	shape
	radix int
}

// all short texts, in one node or cut into two
func short(all []combo) func(int) {
	return func(c int) {
		x, r := all[c/2].shape, all[c/2].radix
		text := sym.String("s", x.n)
		if c%2 == 0 {
			signed(text, x.cut, r, r == 10)
		} else {
			unsigned(text, x.cut, r, r == 10)
		}
	}
}

// texts around the limits of 64 bits with free digits
type limit struct {
	radix int
	text  string
}

var limits = []limit{
	{10, "922337203685477580?"}, {10, "-922337203685477580?"}, {10, "+92233720368547758?7"}, {10, "9223372036854775?07"},
	{10, "1844674407370955161?"}, {10, "+184467440737095516?5"}, {10, "1844674407?709551615"}, {10, "?8446744073709551615"},
	{10, "-?223372036854775808"}, {10, "9?23372036854775807"}, {10, "000000000000000000000000??"}, {10, "??00000000000000000"},
	{10, "??000000000000000000"}, {10, "1844674407370955161??"}, {10, "92233720368547758??"}, {10, "-92233720368547758??"},
	{16, "7ffffffffffffff?"}, {16, "fffffffffffffff?"}, {16, "?fffffffffffffff"}, {16, "-?000000000000000"}, {16, "1000000000000000?"}, {16, "?000000000000000?"},
	{16, "FFFFFFFF?FFFFFFF"}, {8, "77777777777777777777?"}, {8, "?777777777777777777777"}, {8, "177777777777777777777?"},
	{2, "111111111111111111111111111111111111111111111111111111111111111?"}, {2, "?111111111111111111111111111111111111111111111111111111111111111"},
	{2, "?0000000000000000000000000000000000000000000000000000000000000000"},
	{36, "1y2p0ij32e8e?"}, {36, "3w5e11264sgs?"}, {36, "?w5e11264sgsf"}, {3, "1112022221201202?"}, {10, "0x1?"}, {10, "1_00?"}, {16, "0x?f"}, {10, "1e?"}, {10, " 1?"}, {10, "+-?"}, {10, "--?"},
}

func near(c int) {
	l := limits[c/2]
	text := h.Pattern("s", l.text)
	if c%2 == 0 {
		signed(text, -1, l.radix, c%4 < 2 && l.radix == 10)
	} else {
		unsigned(text, 3, l.radix, c%4 < 2 && l.radix == 10)
	}
}

// ParseFloat: the standard library's reading of exactly the joined text
var floats = []string{"", "?", "??", "???", "#.#", "-#e#", "+.#", "1?.5", "#e?#", "i?f", "N?N", "0x1p?", "1_?", "?1.5", "1.5?", "1e30?", "-1e3?9", "1797693134862315?e293", "4.9e-32?"}

func float(c int) {
	text := h.Pattern("s", floats[c/2])
	cut := -1
	if c%2 == 1 {
		cut = len(text) / 2
	}
	in := nodes(text, cut)
	before := h.Clone(in)
	want, werr := strconv.ParseFloat(text, 64)
	out, err := ParseFloat(ParserContext{}, in)
	if is(out, err, in, before, werr == nil, AstType_Float) {
		x, isF := out[0].Value.(float64)
		sym.Assert(isF && sym.SameFloat(x, want), "the value is the number spelled")
	}
}

var concreteFloats = []string{"0", "-0", "1", "1.5", ".5", "5.", "1e3", "1E-3", "+2.25", "-1e400", "1e400", "1e-400", "inf", "+Inf", "-infinity", "nan", "0x1p-2", "0x", "1_0", "1__0", "", "+", ".", "e1", "1e", "1 ", " 1", "1,5", "9007199254740993", "179769313486231570814527423731704356798070e267", "179769313486231580793e289", "4.940656458412465441765687928682213723651e-324", "1.000000000000000111022302462515654042363166809082031250", "\xff",
	"1_", "_1", "1,000", "1.000,5", "0x_1p0", "0x1p", "0X1.8P+1", "1.5.2", "1e5e", "++1", "+-1", "1+", "1-", "-.", "5.e1", ".e1", "1\n", "\t1", "\u0661", "\u22121", "1f", "1d", "0b1", "0o7", "infinit", "in", "na", "+nan", "1e+", "1E+5", "1e-5", "1e5.0", "00012.50", "1\x00", "1%", "$1", "(1)", "1/2", "\u00bd", "\u221e", "\uff11", "1\u00a0", "1'000", "1 000", "0x1", "1p3", "1e400_0"}

// short texts over the characters numbers are written with, each decided by
// the standard library itself
const numerals = "015.,_e+-xpinfaI "

func written(c int) {
	k := len(numerals)
	text := string([]byte{numerals[c%k], numerals[c/k], numerals[sym.Choose("c2", k)]})
	in := nodes(text, 1)
	before := h.Clone(in)
	want, werr := strconv.ParseFloat(text, 64)
	out, err := ParseFloat(ParserContext{}, in)
	if is(out, err, in, before, werr == nil, AstType_Float) {
		x, isF := out[0].Value.(float64)
		sym.Assert(isF && sym.SameFloat(x, want), "the value is the number spelled")
	}
}

func float1(c int) {
	text := concreteFloats[c]
	for cut := -1; cut <= len(text); cut++ {
		in := nodes(text, cut)
		before := h.Clone(in)
		want, werr := strconv.ParseFloat(text, 64)
		out, err := ParseFloat(ParserContext{}, in)
		if is(out, err, in, before, werr == nil, AstType_Float) {
			x, isF := out[0].Value.(float64)
			sym.Assert(isF && sym.SameFloat(x, want), "the value is the number spelled")
		}
	}
}

// nodes that are no strings, and no nodes at all
func bad(c int) {
	fs := []TransformerFn{ParseInt, ParseUint, ParseFloat, ParseIntRadix(16), ParseUintRadix(2)}
	f := fs[c%len(fs)]
	var in AstSlice
	switch c / len(fs) {
	case 0: // no nodes: the empty text
	case 1:
		in = AstSlice{{Type: AstType_Int, Value: int64(5)}}
	case 2:
		in = AstSlice{{Type: AstType_String, Value: "1"}, {Type: AstType_Uint, Value: uint64(5)}}
	case 3:
		in = AstSlice{{Type: AstType_String, Value: ""}, {Type: AstType_String, Value: ""}}
	}
	_, err := f(ParserContext{}, in)
	sym.Assert(err != nil, "no number in the text is an error")
}

func init() {
	var all []combo
	add := func(sh []shape, rs ...int) {
		for _, x := range sh {
			for _, r := range rs {
				all = append(all, combo{x, r})
			}
		}
	}
	two := []shape{{0, -1}, {1, -1}, {2, -1}, {2, 1}}
	three := []shape{{3, -1}}
	if sym.Thorough() {
		for r := 2; r <= 36; r++ {
			add(two, r)
			add(three, r)
		}
		add([]shape{{3, 0}, {3, 2}, {4, -1}, {4, 1}}, 2, 8, 10, 16)
	} else {
		add(two, 2, 3, 8, 10, 11, 16, 35, 36)
		add(three, 2, 10, 16)
		add([]shape{{3, 2}}, 10)
	}
	sym.Check("short", len(all)*2, "ParseInt and ParseUint in radixes 2, 3, 8, 10, 11, 16, 35 and 36 (thorough: all) on all texts of 0..2 bytes, in radixes 2, 10, 16 of 3 (thorough: all of 3; 2, 8, 10, 16 of 4) bytes, in one or two nodes", short(all))
	sym.Check("near", len(limits)*2, "texts around the 64-bit limits and near-misses with one or two arbitrary bytes", near)
	sym.Check("float", len(floats)*2, "ParseFloat against the standard library's reading of the same text (an unknown function), texts with arbitrary bytes", float)
	sym.Check("float1", len(concreteFloats), "ParseFloat on given texts cut at every place", float1)
	sym.Check("written", len(numerals)*len(numerals), "ParseFloat on the texts of three of 17 characters", written)
	sym.Check("bad", 20, "no nodes, empty texts, nodes that are not strings", bad)
}
