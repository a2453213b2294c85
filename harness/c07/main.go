// C07: Trans hands its parser's nodes, and only those, through the
// transformers and puts the result in their place.
package main

import (
	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

type step struct {
	got AstSlice // what the transformer was given
	ret AstSlice // what it returned
}

type rec struct {
	steps []step
	ctxs  []ParserContext
}

// transformer k returns an arbitrary list: some of its nodes, new nodes, in
// fresh memory or in place.
func (r *rec) transformer(k int) TransformerFn {
	return func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		st := step{got: h.Clone(asts)}
		var ret AstSlice
		switch sym.Choose("t"+string(rune('0'+k)), 7) {
		case 0:
			ret = asts
		case 1:
			ret = asts[0:0]
		case 2:
			ret = AstSlice{h.Node(1000 + k)}
		case 3:
			ret = append(AstSlice{h.Node(1000 + k)}, asts...)
		case 4:
			if 0 < len(asts) {
				ret = asts[:len(asts)-1]
			} else {
				ret = nil
			}
		case 5:
			for i := len(asts) - 1; i >= 0; i-- {
				ret = append(ret, asts[i])
			}
		case 6:
			ret = append(asts, h.Node(1000+k), h.Node(2000+k))
		}
		st.ret = h.Clone(ret)
		r.steps = append(r.steps, st)
		r.ctxs = append(r.ctxs, ctx)
		return ret, nil
	}
}

// Around a parser pushing nodes nodes, with spare capacity or not.
func trans(nodes, nt, stack, room int) {
	e := &h.Env{MaxCalls: 2, Modes: 3}
	r := &rec{}
	var ts []TransformerFn
	for k := 0; k < nt; k++ {
		ts = append(ts, r.transformer(k))
	}
	p := Trans(e.Child(0, nodes), ts...)
	ctx, s := h.Begin(stack)
	below := h.Clone(ctx.AstStack)
	orig := ctx.AstStack
	if room == 0 {
		ctx.AstStack = ctx.AstStack[:stack:stack]
	}
	out, err := p(ctx)
	sym.Assert(len(e.Calls) == 1, "the parser is run once")
	c := e.Calls[0]
	c.Saw(0, s, "Trans")
	if c.St != h.OK {
		sym.Assert(len(r.steps) == 0, "transformers run only after a match")
		if c.St == h.Unm {
			sym.Assert(err == nil && out.MatchStatus == MatchStatus_Unmatched, "Trans is unmatched when its parser is")
			h.Is(out, s, "unmatched")
			sym.Cover("unmatched")
		}
		return
	}
	sym.Cover("matched")
	var cur AstSlice
	for j := 0; j < nodes; j++ {
		cur = append(cur, h.Node(100+j))
	}
	sym.Assert(len(r.steps) == nt, "every transformer is run once")
	for k, st := range r.steps {
		sym.Assert(h.EqAsts(st.got, cur), "a transformer is given exactly its parser's nodes or its predecessor's result")
		cur = st.ret
		_ = k
	}
	for _, x := range r.ctxs {
		sym.Assert(x.Position == s.Pos && x.Str == h.Text && x.Tag == 0 && h.EqAsts(x.AstStack, below), "a transformer is told where its parser began")
	}
	sym.Assert(err == nil && out.MatchStatus == MatchStatus_Matched, "the verdict is the parser's")
	sym.Assert(out.Position == s.Pos+c.Adv, "the position is the parser's")
	sym.Assert(h.TagOf(out) == c.Sets, "the context tag is the parser's")
	sym.Assert(len(out.AstStack) == stack+len(cur), "the result replaces the parser's nodes")
	sym.Assert(h.EqAsts(out.AstStack[:stack], below), "nodes below are kept")
	sym.Assert(h.EqAsts(out.AstStack[stack:], cur), "the last result is on the stack")
	sym.Assert(h.EqAsts(orig, below), "the caller's nodes are not written")
}

// Nested Trans: the outer transformers see the inner result with the
// neighbours' nodes.
func nested(nodes, stack int) {
	e := &h.Env{MaxCalls: 4, Modes: 2}
	r := &rec{}
	in := Trans(e.Child(1, nodes), r.transformer(0))
	p := Trans(FlatGroup(e.Child(0, 1), in, ZeroOrOnce(e.Child(2, 1))), r.transformer(1))
	ctx, s := h.Begin(stack)
	below := h.Clone(ctx.AstStack)
	out, err := p(ctx)
	sym.Assert(err == nil, "no error without an error")
	if len(e.Calls) < 3 {
		sym.Assert(out.MatchStatus == MatchStatus_Unmatched && len(r.steps) == 0, "no transformer without a match")
		h.Is(out, s, "unmatched")
		return
	}
	sym.Assert(len(r.steps) == 2, "each transformer runs once")
	var cur AstSlice
	for j := 0; j < nodes; j++ {
		cur = append(cur, h.Node(200+j))
	}
	sym.Assert(h.EqAsts(r.steps[0].got, cur), "the inner transformer sees its parser's nodes")
	want := append(AstSlice{h.Node(100)}, r.steps[0].ret...)
	if e.Calls[2].St == h.OK {
		want = append(want, h.Node(300))
		sym.Cover("with neighbour")
	}
	sym.Assert(h.EqAsts(r.steps[1].got, want), "the outer transformer sees all nodes of its parser in order")
	sym.Assert(out.MatchStatus == MatchStatus_Matched, "matched")
	sym.Assert(h.EqAsts(out.AstStack[:stack], below), "nodes below are kept")
	sym.Assert(h.EqAsts(out.AstStack[stack:], r.steps[1].ret), "the last result is on the stack")
}

// The library's transformers keep the nodes below too: here with ones that
// shrink, keep and grow the list, repeated so that the stack is reused.
func repeated(kind, stack int) {
	e := &h.Env{MaxCalls: 6, Modes: 2}
	var t TransformerFn
	switch kind {
	case 0:
		t = Erase
	case 1:
		t = Pop
	case 2:
		t = Prepend(h.Node(5000))
	case 3:
		t = Push(h.Node(5000))
	case 4:
		t = GroupingTransform
	case 5:
		t = SetOpCodeAndClassName(77, "x")
	case 6:
		t = SetValue(AstType_Int, 77)
	default:
		t = Exchange
	}
	p := FlatGroup(Repeat(Times{Min: 0, Max: 2}, Trans(FlatGroup(e.Child(0, 1), e.Child(1, 2)), t)), e.Child(2, 1))
	ctx, s := h.Begin(stack)
	below := h.Clone(ctx.AstStack)
	out, err := p(ctx)
	sym.Assert(err == nil, "no error without an error")
	want := h.Clone(below)
	k, pos := 0, s.Pos
	for round := 0; round < 2; round++ {
		if k+1 < len(e.Calls) && e.Calls[k].Child == 0 && e.Calls[k].St == h.OK && e.Calls[k+1].St == h.OK {
			a, b, c := h.Node(100*(k+1)), h.Node(100*(k+2)), h.Node(100*(k+2)+1)
			n := h.Node(5000)
			switch kind {
			case 0:
			case 1:
				want = append(want, a, b)
			case 2:
				n.SourcePosition = a.SourcePosition
				want = append(want, n, a, b, c)
			case 3:
				n.SourcePosition = c.SourcePosition
				want = append(want, a, b, c, n)
			case 4:
				want = append(want, Ast{ClassName: ":base:Group", Type: AstType_ListOfAst, Value: AstSlice{a, b, c}})
			case 5:
				a.OpCode, a.ClassName = 77, "x"
				want = append(want, a, b, c)
			case 6:
				a.Value = 77
				want = append(want, a, b, c)
			default:
				want = append(want, a, c, b)
			}
			pos += e.Calls[k].Adv + e.Calls[k+1].Adv
			k += 2
		}
	}
	if out.MatchStatus != MatchStatus_Matched {
		h.Is(out, s, "unmatched")
		return
	}
	last := len(e.Calls) - 1
	want = append(want, h.Node(100*(last+1)))
	sym.Assert(h.EqAsts(out.AstStack, want), "transformed nodes stand in place of the parser's, in order")
	sym.Assert(out.Position == pos+e.Calls[last].Adv, "position")
	sym.Cover("repeated")
}

// placed: what the transformers of a sequence are told about its place.
func placed(nodes, stack, first int) {
	e := &h.Env{MaxCalls: 4, Modes: 2}
	r := &rec{}
	seq := []ParserFn{e.Child(0, nodes), e.Child(1, 1), e.Child(2, nodes)}
	p := Trans(FlatGroup(seq[first:]...), r.fixed(0), r.fixed(1))
	if first > 0 {
		p = FlatGroup(seq[0], p)
	}
	ctx, s := h.Begin(stack)
	below := h.Clone(ctx.AstStack)
	p(ctx)
	if len(r.steps) == 0 {
		return
	}
	at, tag := s.Pos, s.Tag
	if first > 0 {
		at += e.Calls[0].Adv
		tag = e.Calls[0].Sets
		for j := 0; j < nodes; j++ {
			below = append(below, h.Node(100+j))
		}
	}
	for _, x := range r.ctxs {
		sym.Assert(x.Position == at && x.Str == h.Text && h.TagOf(x) == tag, "a transformer is told where its parser began")
		sym.Assert(h.EqAsts(x.AstStack, below), "a transformer is shown the nodes before its parser's")
	}
	sym.Assert(len(r.ctxs) == 2, "every transformer is run once")
	sym.Cover("placed")
}

func init() {
	nt := 3
	if sym.Thorough() {
		nt = 4
	}
	sym.Check("trans", 4*nt*3*2, "0..3 nodes, 0..2 (thorough 3) arbitrary transformers, 0..2 nodes below, with and without spare stack capacity", func(c int) {
		trans(c%4, c/4%nt, c/4/nt%3, c/4/nt/3)
	})
	sym.Check("placed", 3*3*2, "two and three parsers in sequence, 0..2 nodes each, the first before Trans or within", func(c int) { placed(c%3, c/3%3, c/9) })
	sym.Check("nested", 3*2, "nested Trans with neighbours", func(c int) { nested(c%3, c/3) })
	sym.Check("repeated", 8*2, "library transformers in a repetition", func(c int) { repeated(c%8, c/8) })
}
