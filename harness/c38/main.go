// C38: a new context stands at the start of its source with nothing parsed.
package main

import (
	. "github.com/shellyln/takenoco/base"
	obj "github.com/shellyln/takenoco/object"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

type maker struct {
	isStr  bool
	tagged bool
	mk     func(s string, l SliceLike, tag interface{}) *ParserContext
}

var makers = []maker{
	{true, false, func(s string, l SliceLike, tag interface{}) *ParserContext { return NewStringParserContext(s) }},
	{true, true, func(s string, l SliceLike, tag interface{}) *ParserContext {
		return NewStringParserContextWithTag(s, tag)
	}},
	{false, false, func(s string, l SliceLike, tag interface{}) *ParserContext { return obj.NewObjectParserContext(l) }},
	{false, true, func(s string, l SliceLike, tag interface{}) *ParserContext {
		return obj.NewObjectParserContextWithTag(l, tag)
	}},
}

func tag(k int) interface{} {
	switch k {
	case 0:
		return nil
	case 1:
		return sym.Int("tag", 0, 1000)
	case 2:
		return sym.String("tags", 2)
	}
	return &struct{ a int }{sym.Int("taga", 0, 9)}
}

func fresh(m maker, s string, l h.Ints, t interface{}) {
	ctx := m.mk(s, l, t)
	sym.Assert(ctx.Position == 0 && ctx.SourcePosition.Length == 0, "it stands at the start")
	sym.Assert(len(ctx.AstStack) == 0, "it holds no nodes")
	if m.isStr {
		sym.Assert(ctx.Str == s, "it holds the source")
	} else {
		sym.Assert(ctx.Slice != nil && ctx.Slice.Len() == len(l), "it holds the source")
		for i := range l {
			sym.Assert(ctx.Slice.Get(i).(int) == l[i], "it holds the source")
		}
	}
	if m.tagged {
		sym.Assert(ctx.Tag == t, "it holds the tag")
	} else {
		sym.Assert(ctx.Tag == nil, "it holds no tag")
	}
	sym.Cover("fresh")
}

func source(n int) (string, h.Ints) {
	l := h.Ints{}
	for i := 0; i < n; i++ {
		l = append(l, int(sym.Int64("e"+string(rune('0'+i)))))
	}
	return sym.String("s", n), l
}

func count(m maker) ParserFn {
	if m.isStr {
		return OneOrMoreTimes(Any())
	}
	return OneOrMoreTimes(obj.Any())
}

// apart: contexts share nothing: parses in either, in any order, give what a
// single parse gives.
func apart(a, b maker, n int) {
	s, l := source(n)
	apartOn(a, b, s, l)
}

func apartOn(a, b maker, s string, l h.Ints) {
	n := len(l)
	t := tag(1)
	x, y := a.mk(s, l, t), b.mk(s, l, t)
	x2, err := count(a)(*x)
	sym.Assert(err == nil, "no error")
	before := h.Clone(x2.AstStack)
	sym.Assert(len(y.AstStack) == 0 && y.Position == 0, "another context is not changed")
	y2, err := FlatGroup(Zero(h.Node(1), h.Node(2)), count(b))(*y)
	sym.Assert(err == nil, "no error")
	sym.Assert(h.EqAsts(x2.AstStack, before), "results of one context are not changed by a parse of another")
	z := b.mk(s, l, t)
	sym.Assert(len(z.AstStack) == 0 && z.Position == 0, "a later context is new")
	z2, err := FlatGroup(Zero(h.Node(1), h.Node(2)), count(b))(*z)
	sym.Assert(err == nil && h.EqAsts(y2.AstStack, z2.AstStack) && y2.Position == z2.Position, "a later parse gives the same")
	sym.Assert(h.EqAsts(x2.AstStack, before), "results of one context are not changed by a parse of another")
	if a.isStr {
		sym.Assert(len(x2.AstStack) >= sym.IfInt(n > 0, 1, 0), "the text is parsed")
	} else {
		sym.Assert(len(x2.AstStack) == n, "every element is parsed")
		for i := range x2.AstStack {
			sym.Assert(x2.AstStack[i].Value.(int) == l[i], "the node has the element")
		}
	}
	sym.Assert(x2.Tag == x.Tag && y2.Tag == y.Tag, "the tag is kept")
	sym.Cover("apart")
}

// start: Start matches exactly at the start, the first parser sees the first element.
func start(m maker, n int) {
	s, l := source(n)
	startOn(m, s, l)
}

func startOn(m maker, s string, l h.Ints) {
	n := len(l)
	any := Any
	if !m.isStr {
		any = obj.Any
	}
	out, err := FlatGroup(Start(), any(), LookAheadN(Start()))(*m.mk(s, l, nil))
	sym.Assert(err == nil, "no error")
	sym.Assert((out.MatchStatus == MatchStatus_Matched) == (n > 0), "a parse starts at the start")
	if n > 0 {
		sym.Assert(len(out.AstStack) == 1 && out.AstStack[0].Position == 0, "the first node is at the start")
	}
	sym.Cover("start")
}

func init() {
	k := 4
	if sym.Thorough() {
		k = 7
	}
	n := len(makers)
	sym.Check("fresh", n*4*k, "4 constructors, sources of 0..3 (thorough 6) arbitrary bytes or elements, tags of 4 kinds", func(c int) {
		s, l := source(c / n / 4)
		fresh(makers[c%n], s, l, tag(c/n%4))
	})
	sym.Check("apart", n*n*k, "two contexts, parsed one after the other, then a third", func(c int) {
		apart(makers[c%n], makers[c/n%n], c/n/n)
	})
	sym.Check("start", n*k, "the first parser of a parse", func(c int) { start(makers[c%n], c/n) })
}
