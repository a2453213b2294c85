package main

import (
	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

var rolls = []int{1, -1, 8, 9, 16, 17, -17, 19, 20, 21, -20, 39, 40, 41, -39, 1000, -1001, 1 << 31, -1 << 31, 1<<63 - 1, -1 << 63}

func rolled(c int) {
	n := []int{9, 17, 20, 40}[c%4]
	by := rolls[c/4]
	agree(Roll(by), func(in AstSlice) AstSlice {
		var w AstSlice
		for i := range in {
			k := (i + by%n) % n
			if k < 0 {
				k += n
			}
			w = append(w, in[k])
		}
		return w
	}, n, "Roll")
}

// Transformers applied in a row, the list growing and shrinking.
func row(c int) {
	n := 3 + c%3*15
	_, given := list(n)
	before := h.Clone(given)
	cur := given
	want := h.Clone(given)
	for k := 0; k < 24; k++ {
		o := ops[(k*k+c*5+k)%len(ops)]
		if o.name == "Grouping" && k%2 == 0 || o.name == "Erase" && k > 3 || len(want) == 0 {
			o = ops[10] // Push
		}
		f := o.mk()
		out, err := f(ParserContext{}, cur)
		sym.Assert(err == nil, "no error")
		empty := len(want) == 0
		want = h.Clone(o.want(h.Clone(want)))
		sym.Assert(len(out) == len(want), o.name+" in a row: number of nodes")
		if empty {
			want[0].SourcePosition = out[0].SourcePosition
		}
		if o.name == "Grouping" {
			want[0].OpCode, want[0].SourcePosition = out[0].OpCode, out[0].SourcePosition
		}
		sym.Assert(h.EqAsts(out, want), o.name+" in a row: the documented nodes")
		cur = out
	}
	sym.Assert(h.EqAsts(given, before), "the nodes given first are not changed")
	sym.Cover("row")
}

// The transformer of a parser among others, the list being part of the parse.
func inParse(c int) {
	o := ops[c%len(ops)]
	n := []int{1, 2, 9, 13, 17, 33, 70}[c/len(ops)]
	_, given := list(n)
	before, after := h.Node(1), h.Node(98)
	p := FlatGroup(Zero(before), Trans(Zero(given...), o.mk()), Zero(after), Zero(after))
	ctx := ParserContext{AstStack: make(AstSlice, 0, 8+c%3*50)}
	out, err := p(ctx)
	sym.Assert(err == nil && out.MatchStatus == MatchStatus_Matched, o.name+": in a parse")
	in := h.Clone(given)
	for i := range in {
		in[i].SourcePosition = ctx.SourcePosition
	}
	want := o.want(h.Clone(in))
	m := len(out.AstStack)
	sym.Assert(m == len(want)+3, o.name+" in a parse: number of nodes")
	got := out.AstStack[1 : m-2]
	sym.Assert(out.AstStack[0].Value == before.Value && out.AstStack[m-1].Value == after.Value && out.AstStack[m-2].Value == after.Value, o.name+" in a parse: the nodes around")
	if o.name == "Grouping" {
		sym.Assert(got[0].ClassName == want[0].ClassName && got[0].Type == want[0].Type && h.EqVal(got[0].Value, want[0].Value), "Grouping in a parse: one list node of exactly the nodes")
	} else {
		sym.Assert(h.EqAsts(got, want), o.name+" in a parse: the documented nodes")
	}
	sym.Cover("in a parse")
}

func init() {
	sizes := []int{9, 17, 33, 70}
	sym.Check("long", len(sizes)*len(ops), "13 transformers on lists of 9, 17, 33 and 70 arbitrary nodes", func(c int) {
		o := ops[c%len(ops)]
		agree(o.mk(), o.want, sizes[c/len(ops)], o.name)
	})
	sym.Check("long roll", 4*len(rolls), "Roll by 21 amounts on lists of 9, 17, 20 and 40 nodes", rolled)
	sym.Check("in a parse", 7*len(ops), "13 transformers of a parser among others, 1, 2, 9, 13, 17, 33 and 70 arbitrary nodes, node stacks of little and much room", inParse)
	sym.Check("row", 15, "24 transformers in a row on lists of 3, 18 and 33 nodes", row)
}
