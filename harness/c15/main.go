// C15: rune, integer and string conversions keep the code point and type
// their node rightly.
package main

import (
	. "github.com/shellyln/takenoco/base"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

func node(t AstType, v interface{}) Ast {
	a := Ast{OpCode: 9, ClassName: sym.String("class", 2), Type: t, Value: v}
	a.Position = sym.Int("pos", 0, 1000)
	a.Length = sym.Int("len", 0, 1000)
	return a
}

// point is an arbitrary rune or, with scalar, one that is a character.
func point(scalar bool) rune {
	r := sym.Rune32("r")
	if scalar {
		sym.Assume(sym.And(0 <= r, r <= 0x10ffff))
		sym.Assume(sym.Or(r < 0xd800, 0xdfff < r))
	}
	return r
}

// describes reports whether t is the type of v.
func describes(t AstType, v interface{}) bool {
	switch v.(type) {
	case nil:
		return t == AstType_Nil
	case rune:
		return t == AstType_Rune
	case int64:
		return t == AstType_Int
	case uint64:
		return t == AstType_Uint
	case float64:
		return t == AstType_Float
	case bool:
		return t == AstType_Bool
	case string:
		return t == AstType_String
	}
	return false
}

type conv struct {
	name string
	f    TransformerFn
	from AstType
}

var convs = []conv{
	{"RuneFromInt", RuneFromInt, AstType_Int},
	{"IntFromRune", IntFromRune, AstType_Rune},
	{"StringFromInt", StringFromInt, AstType_Int},
	{"StringFromRune", StringFromRune, AstType_Rune},
}

func given(t AstType, r rune) Ast {
	if t == AstType_Int {
		return node(t, int64(r))
	}
	return node(t, r)
}

func apply(f TransformerFn, in AstSlice) Ast {
	before := h.Clone(in)
	out, err := f(ParserContext{}, in)
	sym.Assert(err == nil, "a code point is converted without error")
	sym.Assert(0 < len(out), "the converted node is returned")
	if len(in) == 1 {
		sym.Assert(len(out) == 1, "one node stays one node")
	}
	sym.Assert(h.EqAsts(in, before), "the given nodes are not changed")
	sym.Assert(out[0].ClassName == before[0].ClassName, "the class name is kept")
	sym.Assert(out[0].SourcePosition == before[0].SourcePosition, "the source position is kept")
	sym.Assert(describes(out[0].Type, out[0].Value), "the node's type describes its value")
	return out[0]
}

// one conversion
func one(c int) {
	k := convs[c%len(convs)]
	r := point(k.name[0] == 'S')
	in := AstSlice{given(k.from, r)}
	if c/len(convs) == 1 {
		in = append(in, Ast{Type: AstType_String, Value: "next"})
	}
	a := apply(k.f, in)
	switch k.name {
	case "RuneFromInt":
		v, ok := a.Value.(rune)
		sym.Assert(ok && v == r, "the rune is the code point")
	case "IntFromRune":
		v, ok := a.Value.(int64)
		sym.Assert(ok && v == int64(r), "the integer is the code point")
	default:
		v, ok := a.Value.(string)
		sym.Assert(ok && v == h.EncodeRune(r), "the string is the character")
	}
	sym.Cover(k.name)
}

// conversions in a row
func chain(c int) {
	r := point(c > 1)
	switch c {
	case 0:
		a := apply(IntFromRune, AstSlice{apply(RuneFromInt, AstSlice{given(AstType_Int, r)})})
		v, ok := a.Value.(int64)
		sym.Assert(ok && v == int64(r) && a.Type == AstType_Int, "int to rune to int is the identity")
	case 1:
		a := apply(RuneFromInt, AstSlice{apply(IntFromRune, AstSlice{given(AstType_Rune, r)})})
		v, ok := a.Value.(rune)
		sym.Assert(ok && v == r && a.Type == AstType_Rune, "rune to int to rune is the identity")
	case 2:
		a := apply(StringFromRune, AstSlice{apply(RuneFromInt, AstSlice{given(AstType_Int, r)})})
		b := apply(StringFromInt, AstSlice{given(AstType_Int, r)})
		sym.Assert(h.EqAst(a, b), "both ways to the string agree")
	case 3:
		a := apply(StringFromInt, AstSlice{apply(IntFromRune, AstSlice{given(AstType_Rune, r)})})
		b := apply(StringFromRune, AstSlice{given(AstType_Rune, r)})
		sym.Assert(h.EqAst(a, b), "both ways to the string agree")
	}
	sym.Cover("chain")
}

// Later transformers take a converted node for what it is.
func later(c int) {
	r := point(true)
	k := convs[c%len(convs)]
	a := apply(k.f, AstSlice{given(k.from, r)})
	out, err := Concat(ParserContext{}, AstSlice{a, a})
	if k.name[0] == 'S' {
		sym.Assert(err == nil && len(out) == 1, "a converted string can be joined")
		s, ok := out[0].Value.(string)
		sym.Assert(ok && s == h.EncodeRune(r)+h.EncodeRune(r), "and gives its text")
	} else {
		sym.Assert(err != nil, "a node that is no string cannot be joined")
	}
	if k.name == "RuneFromInt" {
		ctx := AstSlice{a}
		sym.Assert(TopIsRune(r)(ctx), "a rune node is a rune to the predicates")
		sym.Assert(!TopIsStr(h.EncodeRune(r))(ctx), "and no string")
	}
	if k.name == "IntFromRune" {
		ctx := AstSlice{a}
		sym.Assert(TopIsInt(int64(r))(ctx), "an int node is an int to the predicates")
	}
	if k.name[0] == 'S' {
		ctx := AstSlice{a}
		sym.Assert(TopIsStr(h.EncodeRune(r))(ctx), "a string node is a string to the predicates")
	}
}

// Through a grammar: digits to int to rune to string.
func grammar(c int) {
	s := h.Pattern("s", []string{"##", "###", "#####"}[c])
	p := FlatGroup(Trans(OneOrMoreTimes(Number()), ParseInt, RuneFromInt, StringFromRune), End())
	n := 0
	for i := range []byte(s) {
		n = n*10 + int(s[i]-'0')
	}
	sym.Assume(sym.Or(n < 0xd800, 0xdfff < n))
	out, err := p(*NewStringParserContext(s))
	sym.Assert(err == nil && out.MatchStatus == MatchStatus_Matched && len(out.AstStack) == 1, "matched")
	v, ok := out.AstStack[0].Value.(string)
	sym.Assert(ok && v == h.EncodeRune(rune(n)), "the text is the numbered character")
	sym.Assert(out.AstStack[0].Position == 0, "at the first digit's position")
}

func init() {
	sym.Check("one", len(convs)*2, "each conversion of every 32-bit rune (strings: every scalar value), alone and before another node", one)
	sym.Check("chain", 4, "round trips of every 32-bit rune (strings: every scalar value)", chain)
	sym.Check("later", len(convs), "Concat and the TopIs predicates on converted nodes", later)
	sym.Check("grammar", 3, "a grammar converting 2, 3 and 5 arbitrary digits", grammar)
}
