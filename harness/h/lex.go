package h

import (
	. "github.com/shellyln/takenoco/base"
	"verif/harness/sym"
)

// Lexer is the reference for a lexer: the text produced and the end of the
// match at s[i:].
type Lexer func(s string, i int) (text string, end int, ok bool)

// Lex decides that p does at s[pos:] what ref says.
func Lex(p ParserFn, ref Lexer, class, s string, pos, below int) (text string, ok bool) {
	ctx := At(s, pos, below)
	nodes := Clone(ctx.AstStack)
	text, end, ok := ref(s, pos)
	out, err := p(ctx)
	if !ok {
		Unmoved(out, err, ctx, nodes)
		sym.Cover("unmatched")
		return "", false
	}
	sym.Cover("matched")
	sym.Assert(err == nil && out.MatchStatus == MatchStatus_Matched, "the text is matched")
	sym.Assert(out.Position == end, "the whole text and no more is consumed")
	sym.Assert(len(out.AstStack) == below+1 && EqAsts(out.AstStack[:below], nodes), "one node is added")
	a := out.AstStack[below]
	v, isStr := a.Value.(string)
	sym.Assert(isStr && a.Type == AstType_String, "the node is a string node")
	sym.Assert(v == text, "the produced text is right")
	sym.Assert(a.ClassName == class, "the node's class is the lexer's")
	return text, true
}

func Digit(c byte) bool { return sym.And(c >= '0', c <= '9') }
