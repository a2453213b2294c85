package main

import (
	"strconv"
	"strings"

	. "github.com/shellyln/takenoco/base"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/h"
	"verif/harness/sym"
)

// The limits of 64 bits in every radix, one digit free.
func limitsOf(c int) {
	radix := 2 + c%35
	c /= 35
	var text string
	switch c % 5 {
	case 0:
		text = strconv.FormatUint(1<<63-1, radix)
	case 1:
		text = "-" + strconv.FormatUint(1<<63, radix)
	case 2:
		text = strconv.FormatUint(1<<64-1, radix)
	case 3:
		text = strconv.FormatUint((1<<64-1)/uint64(radix), radix) + "0"
	case 4:
		text = "000" + strconv.FormatUint(1<<63, radix)
	}
	b := []byte(text)
	at := []int{len(b) - 1, 1, len(b) / 2}[c/5]
	b[at] = '?'
	text = h.Pattern("s", string(b))
	signed(text, at, radix, radix == 10)
	unsigned(text, -1, radix, radix == 10)
}

// Many nodes: each a digit or nothing, two of them free.
func many(c int) {
	n := []int{9, 17, 40, 130}[c%4]
	text := ""
	var in AstSlice
	for i := 0; i < n; i++ {
		t := "0"
		switch {
		case i == n/2:
			t = h.Pattern("s", "?")
		case i == n-1:
			t = h.Pattern("t", "?")
		case i > n-8:
			t = string(rune('0' + i%10))
		case i%3 == 1:
			t = ""
		}
		in = append(in, Ast{ClassName: "c" + strconv.Itoa(i), Type: AstType_String, Value: t, SourcePosition: SourcePosition{Position: 40 + i, Length: 2 + i}})
		text += t
	}
	before := h.Clone(in)
	if c/4 == 0 {
		out, err := ParseInt(ParserContext{}, in)
		v, ok := number(text, 10, 1<<63-1)
		if is(out, err, in, before, ok, AstType_Int) {
			x, isInt := out[0].Value.(int64)
			sym.Assert(isInt && x == int64(v), "the value is the number spelled")
		}
		return
	}
	out, err := ParseUintRadix(16)(ParserContext{}, in)
	v, ok := number(text, 16, 1<<64-1)
	if is(out, err, in, before, ok, AstType_Uint) {
		x, isUint := out[0].Value.(uint64)
		sym.Assert(isUint && x == v, "the value is the number spelled")
	}
}

// Zeros in front of a number, and numbers far too large.
func zeros(c int) {
	n := []int{20, 64, 65, 300}[c%4]
	text := []string{strings.Repeat("0", n) + "#?", "-" + strings.Repeat("0", n) + "?#", "#" + strings.Repeat("0", n) + "?", "+" + strings.Repeat("9", n) + "?"}[c/4%4]
	text = h.Pattern("s", text)
	if c/16 == 0 {
		signed(text, n/2, 10, true)
	} else {
		unsigned(text, n/2, 10, true)
	}
}

// Floats with many digits, in many nodes.
func longFloat(c int) {
	ts := []string{strings.Repeat("1", 40), "0." + strings.Repeat("0", 60) + "12345678901234567890123", "1" + strings.Repeat("0", 308), "1" + strings.Repeat("0", 309),
		strings.Repeat("9", 17) + "e-" + "30", "0.1000000000000000055511151231257827021181583404541015625", "2.2250738585072011e-308", "1" + strings.Repeat("0", 80) + "e-80", "1e000000000000000000000000000000000001"}
	text := ts[c]
	for _, step := range []int{1, 3, 17, 400} {
		var in AstSlice
		for i := 0; i < len(text); i += step {
			in = append(in, Ast{ClassName: "c0", Type: AstType_String, Value: text[i:min(i+step, len(text))], SourcePosition: SourcePosition{Position: 40, Length: 2}})
		}
		before := h.Clone(in)
		want, werr := strconv.ParseFloat(text, 64)
		out, err := ParseFloat(ParserContext{}, in)
		if is(out, err, in, before, werr == nil, AstType_Float) {
			x, isF := out[0].Value.(float64)
			sym.Assert(isF && sym.SameFloat(x, want), "the value is the number spelled")
		}
	}
}

func init() {
	sym.Check("limits of every radix", 35*5*3, "the largest and smallest 64-bit numbers and one more digit's worth in radixes 2..36, the last, the second or the middle digit free", limitsOf)
	sym.Check("many", 8, "numbers spelled by 9, 17, 40 and 130 nodes, two of them free", many)
	sym.Check("zeros", 32, "20, 64, 65 and 300 leading or trailing zeros or nines, free characters at the ends", zeros)
	sym.Check("longFloat", 9, "floats of up to 310 digits in 1..310 nodes", longFloat)
}
