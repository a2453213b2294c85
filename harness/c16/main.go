// C16: the AST-list transformers compute their documented result.
package main

import (
	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

func id(i int) string { return string(rune('0' + i)) }

// list of n nodes with arbitrary contents, standing inside a larger list
func list(n int) (all, given AstSlice) {
	all = append(make(AstSlice, 0, n+5), h.Node(1))
	for i := 0; i < n; i++ {
		a := Ast{OpCode: AstOpCodeType(sym.Uint64("op" + id(i))), ClassName: sym.String("cn"+id(i), 1)}
		a.Position, a.Length = sym.Int("pos"+id(i), 0, 1000), sym.Int("len"+id(i), 0, 1000)
		switch i % 3 {
		case 0:
			a.Type, a.Value = AstType_Int, sym.Int64("v"+id(i))
		case 1:
			a.Type, a.Value = AstType_String, sym.String("v"+id(i), 1)
		case 2:
			a.Type, a.Value = AstType_ListOfAst, AstSlice{{Type: AstType_Bool, Value: sym.Bool("v" + id(i))}}
		}
		all = append(all, a)
	}
	// and nodes that follow
	all = append(all, h.Node(98), h.Node(99))
	return all, all[1 : 1+n]
}

type op struct {
	name string
	mk   func() TransformerFn
	want func(in AstSlice) AstSlice // from a private copy
}

func fresh() Ast {
	return Ast{OpCode: 44, ClassName: "new", Type: AstType_String, Value: sym.String("new", 1), SourcePosition: SourcePosition{Position: 7, Length: 8}}
}

func first(f func(a *Ast)) func(AstSlice) AstSlice {
	return func(in AstSlice) AstSlice {
		if 0 < len(in) {
			f(&in[0])
		}
		return in
	}
}

var ops = []op{
	{"Erase", func() TransformerFn { return Erase }, func(in AstSlice) AstSlice { return nil }},
	{"Grouping", func() TransformerFn { return GroupingTransform }, func(in AstSlice) AstSlice {
		return AstSlice{{ClassName: ":base:Group", Type: AstType_ListOfAst, Value: in}}
	}},
	{"SetOpCode", func() TransformerFn { return SetOpCode(AstOpCodeType(sym.Uint64("c"))) },
		first(func(a *Ast) { a.OpCode = AstOpCodeType(sym.Uint64("c")) })},
	{"ChangeClassName", func() TransformerFn { return ChangeClassName(sym.String("n", 2)) },
		first(func(a *Ast) { a.ClassName = sym.String("n", 2) })},
	{"SetOpCodeAndClassName", func() TransformerFn {
		return SetOpCodeAndClassName(AstOpCodeType(sym.Uint64("c")), sym.String("n", 2))
	}, first(func(a *Ast) { a.OpCode, a.ClassName = AstOpCodeType(sym.Uint64("c")), sym.String("n", 2) })},
	{"SetValue", func() TransformerFn { return SetValue(AstType_Uint, sym.Uint64("c")) },
		first(func(a *Ast) { a.Type, a.Value = AstType_Uint, sym.Uint64("c") })},
	{"SetValue to nil", func() TransformerFn { return SetValue(AstType_Nil, nil) },
		first(func(a *Ast) { a.Type, a.Value = AstType_Nil, nil })},
	{"SetValue of any type", func() TransformerFn { return SetValue(AstType(sym.Byte("t")), sym.String("c", 1)) },
		first(func(a *Ast) { a.Type, a.Value = AstType(sym.Byte("t")), sym.String("c", 1) })},
	{"SetValue to a list", func() TransformerFn { return SetValue(AstType_ListOfAst, AstSlice{fresh()}) },
		first(func(a *Ast) { a.Type, a.Value = AstType_ListOfAst, AstSlice{fresh()} })},
	{"Prepend", func() TransformerFn { return Prepend(fresh()) }, func(in AstSlice) AstSlice {
		a := fresh()
		if 0 < len(in) {
			a.SourcePosition = in[0].SourcePosition
		}
		return append(AstSlice{a}, in...)
	}},
	{"Push", func() TransformerFn { return Push(fresh()) }, func(in AstSlice) AstSlice {
		a := fresh()
		if 0 < len(in) {
			a.SourcePosition = in[len(in)-1].SourcePosition
		}
		return append(in, a)
	}},
	{"Pop", func() TransformerFn { return Pop }, func(in AstSlice) AstSlice {
		if 0 < len(in) {
			return in[:len(in)-1]
		}
		return in
	}},
	{"Exchange", func() TransformerFn { return Exchange }, func(in AstSlice) AstSlice {
		if n := len(in); 2 <= n {
			in[n-1], in[n-2] = in[n-2], in[n-1]
		}
		return in
	}},
}

func agree(f TransformerFn, want func(AstSlice) AstSlice, n int, what string) {
	all, given := list(n)
	before := h.Clone(all)
	ctx := ParserContext{Tag: 5}
	out, err := f(ctx, given)
	sym.Assert(err == nil, what+": no error")
	sym.Assert(h.EqAsts(all, before), what+": the given nodes and those around them are not changed")
	w := want(h.Clone(given))
	empty := n == 0 && (what == "Prepend" || what == "Push")
	sym.Assert(len(out) == len(w), what+": number of nodes")
	if empty {
		// no neighbour to take a position from
		out[0].SourcePosition = w[0].SourcePosition
	}
	if what == "Grouping" {
		sym.Assert(out[0].ClassName == w[0].ClassName && out[0].Type == w[0].Type && h.EqVal(out[0].Value, w[0].Value), "Grouping: one list node of exactly the given nodes")
	} else {
		sym.Assert(h.EqAsts(out, w), what+": the documented nodes")
	}
	sym.Cover(what)
	// a second application (of the same transformer) to the same nodes gives the same
	out2, err := f(ctx, given)
	sym.Assert(err == nil && len(out2) == len(w), what+": applied again")
	if what != "Grouping" && !empty {
		sym.Assert(h.EqAsts(out2, w), what+": applied again")
	}
}

func each(c int) {
	o := ops[c%len(ops)]
	agree(o.mk(), o.want, c/len(ops), o.name)
}

// Roll by every amount
func roll(c int) {
	n := c % 6
	by := sym.Concrete(sym.Int("by", 0, 14)) - 7
	agree(Roll(by), func(in AstSlice) AstSlice {
		var w AstSlice
		for i := range in {
			k := (i + by) % n
			if k < 0 {
				k += n
			}
			w = append(w, in[k])
		}
		return w
	}, n, "Roll")
}

// Roll by any 64-bit amount: node i of the result is node (i+by) mod n
func rollAny(c int) {
	n := c + 1
	by := sym.Int64("by")
	all, given := list(n)
	before := h.Clone(all)
	out, err := Roll(int(by))(ParserContext{}, given)
	sym.Assert(err == nil && len(out) == n, "Roll: as many nodes")
	sym.Assert(h.EqAsts(all, before), "Roll: the given nodes are not changed")
	m := int(by % int64(n))
	if m < 0 {
		m += n
	}
	m = sym.Concrete(m)
	for i := range out {
		sym.Assert(h.EqAst(out[i], given[(i+m)%n]), "Roll: rotated by n")
	}
}

// The worked examples of the documentation.
func documented(c int) {
	mk := func(ids ...int) (s AstSlice) {
		for _, i := range ids {
			s = append(s, h.Node(i))
		}
		return
	}
	out, err := Roll([]int{2, -2}[c])(ParserContext{}, mk(0, 1, 2, 3, 4))
	want := [][]int{{2, 3, 4, 0, 1}, {3, 4, 0, 1, 2}}[c]
	sym.Assert(err == nil && h.EqIds(h.Ids(out), want), "Roll: the documented example")
}

// Transformers keep their own captured values: a list node given to Push does
// not change when results are used.
func independent(c int) {
	o := ops[c]
	f := o.mk()
	all, given := list(3)
	before := h.Clone(all)
	out, _ := f(ParserContext{}, given)
	if o.name == "Grouping" {
		// the group holds a list of its own
		g := out[0].Value.(AstSlice)
		g[0], g[2] = h.Node(77), h.Node(78)
		sym.Assert(h.EqAsts(all, before), "the group's list is its own")
		return
	}
	_, given2 := list(2)
	if o.name != "Erase" && o.name != "Pop" {
		for i := range out {
			out[i].ClassName = "changed"
		}
	}
	out2, _ := f(ParserContext{}, given2)
	w := o.want(h.Clone(given2))
	sym.Assert(h.EqAsts(out2, w), "later results do not depend on what was done with earlier ones")
}

func raise(c int) {
	_, given := list(c % 3)
	msg := []string{"", "m1", "another"}[c/3]
	_, err := TransformError(msg)(ParserContext{}, given)
	sym.Assert(err != nil && err.Error() == msg, "TransformError fails with its message")
}

func init() {
	max := 5
	if sym.Thorough() {
		max = 7
	}
	sym.Check("each", max*len(ops), "13 transformers on lists of 0..4 (thorough 6) arbitrary nodes", each)
	sym.Check("roll", 6, "Roll(-7..7) on lists of 0..5 nodes", roll)
	sym.Check("rollAny", 4, "Roll by any 64-bit amount on lists of 1..4 nodes", rollAny)
	sym.Check("documented", 2, "the documentation's examples of Roll", documented)
	sym.Check("independent", len(ops), "results and later results are independent", independent)
	sym.Check("raise", 9, "TransformError", raise)
}
