// C13: Concat, Trim, TrimStart and TrimEnd.
package main

import (
	. "github.com/shellyln/takenoco/base"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

func space(r rune) bool {
	return sym.Or(sym.And(9 <= r, r <= 13), sym.Or(r == 0x20, sym.Or(r == 0x85, r == 0xa0)))
}

func id(i int) string { return string(rune('0' + i)) }

// nodes with arbitrary texts of the given lengths, class names, positions
func nodes(lens []int) AstSlice {
	var r AstSlice
	for i, n := range lens {
		a := Ast{ClassName: sym.String("class"+id(i), 1), Type: AstType_String, Value: sym.String("v"+id(i), n), OpCode: AstOpCodeType(sym.Uint64("op" + id(i)))}
		a.Position = sym.Int("pos"+id(i), 0, 1000)
		a.Length = sym.Int("len"+id(i), 0, 1000)
		r = append(r, a)
	}
	return r
}

func join(s AstSlice) string {
	t := ""
	for _, a := range s {
		t += a.Value.(string)
	}
	return t
}

func trimStart(t string) string {
	for {
		r, n := h.DecodeRune(t, 0)
		if n == 0 || !space(r) {
			return t
		}
		t = t[n:]
	}
}

func trimEnd(t string) string {
	for {
		r, n := h.LastRune(t, len(t))
		if n == 0 || !space(r) {
			return t
		}
		t = t[:len(t)-n]
	}
}

type op struct {
	name string
	f    TransformerFn
	want func(string) string
}

var ops = []op{
	{"Concat", Concat, func(s string) string { return s }},
	{"Trim", Trim, func(s string) string { return trimEnd(trimStart(s)) }},
	{"TrimStart", TrimStart, trimStart},
	{"TrimEnd", TrimEnd, trimEnd},
}

var quick = [][]int{{}, {0}, {1}, {2}, {3}, {0, 0}, {1, 1}, {2, 1}, {1, 2}, {0, 2}, {1, 0, 1}, {1, 1, 1}, {4}, {2, 2}}
var deep = [][]int{{5}, {3, 2}, {1, 1, 1, 1}, {2, 0, 3}, {6}}

func strs(lists [][]int) func(int) {
	return func(c int) {
		o, in := ops[c%len(ops)], nodes(lists[c/len(ops)])
		// given as the middle part of a larger list
		all := append(append(AstSlice{h.Node(1)}, in...), h.Node(2))
		given := all[1 : 1+len(in)]
		before := h.Clone(all)
		out, err := o.f(ParserContext{Tag: 5}, given)
		sym.Assert(err == nil, "strings are joined without error")
		sym.Assert(len(out) == 1, "one node")
		sym.Assert(out[0].Type == AstType_String, "a string node")
		v, ok := out[0].Value.(string)
		sym.Assert(ok, "a string value")
		sym.Assert(v == o.want(join(before[1:1+len(in)])), "the value is the joined text, trimmed")
		if 0 < len(in) {
			sym.Assert(out[0].ClassName == before[1].ClassName, "class name of the first node")
			sym.Assert(out[0].SourcePosition == before[1].SourcePosition, "position of the first node")
		}
		sym.Assert(h.EqAsts(all[:1+len(in)], before[:1+len(in)]), "the given nodes are not changed")
		sym.Cover(o.name)
	}
}

func kinds() []Ast {
	return []Ast{
		{Type: AstType_Nil}, {Type: AstType_Rune, Value: 'x'}, {Type: AstType_Int, Value: int64(1)}, {Type: AstType_Uint, Value: uint64(1)},
		{Type: AstType_Float, Value: 1.5}, {Type: AstType_Bool, Value: true}, {Type: AstType_ListOfAst, Value: AstSlice{}},
		{Type: AstType_AstCons, Value: AstCons{}}, {Type: AstType_ListOfAny, Value: h.Ints{}}, {Type: AstType_Any, Value: "text"}, {Type: AstType(99), Value: "text"},
	}
}

// A node that is no string, first, in the middle or last.
func others(c int) {
	o := ops[c%len(ops)]
	c /= len(ops)
	k := kinds()[c%len(kinds())]
	at := c / len(kinds())
	in := nodes([]int{1, 1})
	list := make(AstSlice, 0, 3)
	list = append(list, in[:at]...)
	list = append(list, k)
	list = append(list, in[at:]...)
	_, err := o.f(ParserContext{}, list)
	sym.Assert(err != nil, "a node that is not a string is an error")
	sym.Assert(h.EqAsts(list[:at], in[:at]) && h.EqAsts(list[at+1:], in[at:]), "the given nodes are not changed")
}

func init() {
	lists := quick
	if sym.Thorough() {
		lists = append(lists, deep...)
	}
	sym.Check("strings", len(lists)*len(ops), "0..3 (thorough 4) string nodes with arbitrary texts of together 0..4 (6) bytes", strs(lists))
	sym.Check("others", len(ops)*len(kinds())*3, "a node of any other type among two string nodes", others)
}
