package h

import (
	. "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	obj "github.com/shellyln/takenoco/object"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/sym"
)

// Source is a text in which the characters of the pattern stand for themselves, '?' for an arbitrary byte, '#' for an arbitrary digit.
func Source(name, pattern string) string {
	b := sym.String(name, len(pattern))
	r := make([]byte, len(pattern))
	for i := range r {
		switch pattern[i] {
		case '?':
			r[i] = b[i]
		case '#':
			sym.Assume(sym.And(b[i] >= '0', b[i] <= '9'))
			r[i] = b[i]
		default:
			r[i] = pattern[i]
		}
	}
	return string(r)
}

// Item is a parser with patterns of texts it can matc
type Item struct {
	Name     string
	One, Two string
	Mk       func() ParserFn
}

func isVowel(c rune) bool { return c == 'a' || c == 'e' || c == 'i' || c == 'o' || c == 'u' }

func letter() ParserFn { return CharRange(RuneRange{Start: 'a', End: 'z'}) }

func tr(ts ...TransformerFn) func() ParserFn {
	return func() ParserFn {
		return FlatGroup(ZeroOrMoreTimes(Seq(" ")), Trans(ZeroOrMoreTimes(letter()), ts...), ZeroOrOnce(letter()))
	}
}

func node() Ast {
	return Ast{ClassName: "new", Type: AstType_String, Value: "new"}
}

// Items has every matcher, combinator, transformer and lexer in some use.
var Items = []Item{
	{"Any", "??", "??", func() ParserFn { return FlatGroup(Any(), Any(), End()) }},
	{"Seq", "??", "??", func() ParserFn { return First(Seq("ab"), Seq("b"), SeqI("Cd")) }},
	{"CharRange", "??", "??", func() ParserFn {
		return OneOrMoreTimes(First(CharRange(RuneRange{Start: 'a', End: 'c'}), CharRangeN(RuneRange{Start: 0, End: 'x'})))
	}},
	{"CharClass", "??", "??", func() ParserFn { return OneOrMoreTimes(First(CharClass("ab", "a"), CharClassN("b", "c"))) }},
	{"CharClassFn", "??", "??", func() ParserFn { return OneOrMoreTimes(CharClassFn(isVowel)) }},
	{"classes", "??", "??", func() ParserFn {
		return OneOrMoreTimes(First(WhitespaceNoLineBreak(), LineBreak(), Whitespace(), BinNumber(), OctNumber(), Number(), HexNumber(), Alpha(), Alnum()))
	}},
	{"WordBoundary", "??", "??", func() ParserFn {
		return FlatGroup(ZeroOrOnce(WordBoundary(), Any()), WordBoundary(), ZeroOrMoreTimes(Any()))
	}},
	{"UnicodeWordBoundary", "a?", "?b", func() ParserFn {
		return FlatGroup(ZeroOrOnce(extra.UnicodeWordBoundary(), Any()), extra.UnicodeWordBoundary(), ZeroOrMoreTimes(Any()))
	}},
	{"Group", "??", "??", func() ParserFn { return Group(ZeroOrMoreTimes(Group(letter(), ZeroOrOnce(Number()))), End()) }},
	{"lookaround", "??", "??", func() ParserFn {
		return FlatGroup(LookAhead(letter()), Any(), LookAheadN(Number()), LookBehind(1, 2, Seq("a")), LookBehindN(1, 1, Seq("b")))
	}},
	{"Indirect", "??", "??", func() ParserFn {
		var p ParserFn
		p = FlatGroup(letter(), ZeroOrOnce(Indirect(func() ParserFn { return p })))
		return p
	}},
	{"Error", "??", "??", func() ParserFn {
		return First(Seq("ab"), FlatGroup(Seq("a"), Error("b expected")), Unmatched(), Start())
	}},
	{"Zero", " ??", "??", func() ParserFn {
		return FlatGroup(ZeroOrMoreTimes(Seq(" ")), Zero(node(), node()), ZeroOrMoreTimes(letter()))
	}},
	{"Erase", " ??", "??", tr(Erase)},
	{"TransformError", " ??", "??", func() ParserFn { return First(Trans(Seq("a"), TransformError("a is no good")), letter()) }},
	{"Grouping", " ??", "??", tr(GroupingTransform, ChangeClassName("g"))},
	{"SetOpCode", " ??", "??", tr(SetOpCode(3), SetOpCodeAndClassName(4, "c"), SetValue(AstType_String, "v"))},
	{"Prepend", " ??", "??", tr(Prepend(node()))},
	{"Push", " ??", "??", tr(Push(node()))},
	{"PushPrepend", " ??", "??", tr(Push(node()), Prepend(node()), Exchange, Pop)},
	{"Roll", " ??", "??", tr(Roll(1), Roll(-2))},
	{"Concat", " ??", "??", tr(Concat, ChangeClassName("s"))},
	{"Trim", "???", "???", func() ParserFn { return Trans(ZeroOrMoreTimes(First(letter(), Seq(" "))), Trim) }},
	{"TrimEnds", "???", "???", func() ParserFn {
		return FlatGroup(Trans(ZeroOrMoreTimes(Seq(" "), letter()), TrimStart), Trans(ZeroOrMoreTimes(letter(), Seq(" ")), TrimEnd))
	}},
	{"ParseInt", "?#", "##", func() ParserFn { return Trans(OneOrMoreTimes(First(Number(), CharClass("-", "+"))), ParseInt) }},
	{"ParseUint", "?#", "##", func() ParserFn { return Trans(ZeroOrMoreTimes(First(Number(), CharClass("+"))), ParseUint) }},
	{"ParseRadix", "?#", "#?", func() ParserFn {
		return First(Trans(OneOrMoreTimes(HexNumber()), ParseIntRadix(16), StringFromInt), Trans(ZeroOrMoreTimes(HexNumber()), ParseUintRadix(16)))
	}},
	{"runes", "?#", "##", func() ParserFn {
		return Trans(OneOrMoreTimes(Number()), ParseInt, RuneFromInt, IntFromRune, RuneFromInt, StringFromRune)
	}},
	{"Match", "??", "??", func() ParserFn {
		return OneOrMoreTimes(First(letter(), FlatGroup(Number(), Match(2)(
			Case{If: TopIsStr("1", "2"), Let: []TransformerFn{Concat}},
			Case{If: TopIs("3"), Let: []TransformerFn{Push(node())}},
			Case{If: TopIsAny, Let: []TransformerFn{Erase}},
		))))
	}},
	{"BinaryNumberStr", "1??", "1??", extra.BinaryNumberStr},
	{"OctalNumberStr", "1??", "1??", extra.OctalNumberStr},
	{"HexNumberStr", "1??", "1??", extra.HexNumberStr},
	{"IntegerNumberStr", "???", "???", extra.IntegerNumberStr},
	{"FloatNumberStr", "?.?", "1??", extra.FloatNumberStr},
	{"NumericStr", "?.?", "1??", extra.NumericStr},
	{"AsciiIdentifierStr", "??", "??", extra.AsciiIdentifierStr},
	{"UnicodeIdentifierStr", "a?", "??", extra.UnicodeIdentifierStr},
	{"DateStr", "20##-1#-0#", "-20#1-?2-28", extra.DateStr},
	{"TimeStr", "1#:0#:5#", "0#:00", extra.TimeStr},
	{"TimeStr fraction", "1#:0#:50.?##", "0#:00:10", extra.TimeStr},
	{"DateTimeStr", "2001-02-03T04:05:0#.#?Z", "2001-02-03T04:0#+0?:00", extra.DateTimeStr},
	{"ParseDate", "200#-0#-1#", "2021-0#-2?", func() ParserFn { return Trans(extra.DateStr(), extra.ParseDate) }},
	{"BaseParser", "??", "??", func() ParserFn {
		return BaseParser("custom", func(n, bottom int, ctx ParserContext) (ParserContext, error) {
			ctx.AstStack = append(ctx.AstStack, Ast{ClassName: "n", Type: AstType_Int, Value: int64(n*100 + bottom + ctx.Quantity)})
			return ctx, nil
		}, []interface{}{Times{Min: 0, Max: -1}, ThereExists{}}, []ParserFn{letter(), Number()}, []TransformerFn{Push(node())})
	}},
	{"ProductionRule", "?+?", "?+#", func() ParserFn {
		sum := Trans(FlatGroup(obj.Any(), obj.ObjClassFn(func(c interface{}) bool { return c.(Ast).Value == "+" }), obj.Any()),
			func(_ ParserContext, asts AstSlice) (AstSlice, error) {
				return AstSlice{{ClassName: "sum", Type: AstType_ListOfAst, Value: AstSlice{asts[0].Value.(Ast), asts[2].Value.(Ast)}}}, nil
			})
		return Trans(FlatGroup(First(Number(), letter()), Seq("+"), First(Number(), letter())),
			ProductionRule([]Precedence{{Rules: []ParserFn{sum}}}, FlatGroup(Start(), obj.Any(), obj.End())))
	}},
}
