package main

import (
	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

// Trans in Trans, d levels, each adding a node in front and dropping the last.
func deep(d, nodes, stack int) {
	e := &h.Env{MaxCalls: 1, Modes: 2}
	p := e.Child(0, nodes)
	runs := 0
	okIn := true
	want := AstSlice{}
	for j := 0; j < nodes; j++ {
		want = append(want, h.Node(100+j))
	}
	for i := 0; i < d; i++ {
		i := i
		p = Trans(p, func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
			okIn = okIn && runs == i && h.EqAsts(asts, want)
			runs++
			r := append(AstSlice{h.Node(1000 + i)}, asts...)
			if i%3 != 0 {
				r = r[:len(r)-1]
			}
			want = h.Clone(r)
			return r, nil
		})
	}
	ctx, s := h.Begin(stack)
	below := h.Clone(ctx.AstStack)
	out, err := p(ctx)
	sym.Assert(err == nil, "no error without an error")
	if e.Calls[0].St != h.OK {
		sym.Assert(runs == 0 && out.MatchStatus == MatchStatus_Unmatched, "no transformer without a match")
		h.Is(out, s, "unmatched")
		return
	}
	sym.Assert(runs == d, "each transformer runs once")
	sym.Assert(okIn, "each transformer is given its parser's nodes, the inner ones first")
	sym.Assert(out.MatchStatus == MatchStatus_Matched && out.Position == s.Pos+e.Calls[0].Adv, "the verdict is the parser's")
	sym.Assert(h.EqAsts(out.AstStack, append(below, want...)), "the result replaces the parser's nodes")
	sym.Cover("deep")
}

func init() {
	sizes := []int{9, 17, 40}
	sym.Check("many nodes", len(sizes)*2*2, "9, 17 and 40 nodes through 1 and 2 arbitrary transformers, 0 and 20 nodes below", func(c int) {
		trans(sizes[c%3], c/3%2+1, c/6*20, c%2)
	})
	sym.Check("many transformers", 3, "8, 14 and 20 transformers in a row on 2 nodes, any one of them arbitrary", func(c int) {
		chain(2, 8+c*6)
	})
	sym.Check("deep", 4, "9 and 20 Trans in each other", func(c int) { deep(9+c%2*11, 2, c/2*18) })
}

// n transformers in one Trans, one of them arbitrary, the others alternating.
func chain(nodes, n int) {
	e := &h.Env{MaxCalls: 1, Modes: 2}
	r := &rec{}
	at := sym.Choose("at", n)
	var ts []TransformerFn
	for k := 0; k < n; k++ {
		if k == at {
			ts = append(ts, r.transformer(0))
		} else {
			ts = append(ts, r.fixed(k))
		}
	}
	ctx, s := h.Begin(3)
	below := h.Clone(ctx.AstStack)
	out, err := Trans(e.Child(0, nodes), ts...)(ctx)
	sym.Assert(err == nil, "no error without an error")
	if e.Calls[0].St != h.OK {
		sym.Assert(len(r.steps) == 0 && out.MatchStatus == MatchStatus_Unmatched, "no transformer without a match")
		h.Is(out, s, "unmatched")
		return
	}
	var cur AstSlice
	for j := 0; j < nodes; j++ {
		cur = append(cur, h.Node(100+j))
	}
	sym.Assert(len(r.steps) == n, "every transformer is run once")
	for _, st := range r.steps {
		sym.Assert(h.EqAsts(st.got, cur), "a transformer is given its predecessor's result")
		cur = st.ret
	}
	sym.Assert(h.EqAsts(out.AstStack, append(below, cur...)), "the last result is on the stack")
	sym.Cover("chain")
}

func (r *rec) fixed(k int) TransformerFn {
	return func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		st := step{got: h.Clone(asts)}
		ret := asts
		switch k % 3 {
		case 0:
			ret = append(asts, h.Node(3000+k))
		case 1:
			ret = append(AstSlice{h.Node(4000 + k)}, asts...)
		case 2:
			if len(asts) > 2 {
				ret = asts[:len(asts)-1]
			}
		}
		st.ret = h.Clone(ret)
		r.steps = append(r.steps, st)
		r.ctxs = append(r.ctxs, ctx)
		return ret, nil
	}
}
