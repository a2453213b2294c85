package main

import (
	. "github.com/shellyln/takenoco/base"
	"verif/harness/sym"
)

// Call histories: the transformer is applied to one list, the result is
// overwritten, and it is applied to another.
func second(o op, texts ...string) {
	var in AstSlice
	for i, t := range texts {
		in = append(in, Ast{ClassName: "c" + id(i), Type: AstType_String, Value: t})
	}
	out, err := o.f(ParserContext{}, in)
	sym.Assert(err == nil && len(out) == 1, "one node")
	v, ok := out[0].Value.(string)
	sym.Assert(ok && v == o.want(join(in)), "the value is the joined text, trimmed")
	sym.Assert(out[0].ClassName == "c0" && out[0].Type == AstType_String, "class name of the first node")
	out[0] = Ast{ClassName: "gone", Type: AstType_String, Value: "gone"}
}

func init() {
	lens := [][4]int{{1, 0, 1, 0}, {1, 1, 1, 1}, {2, 0, 1, 1}, {0, 1, 1, 0}, {2, 0, 2, 0}, {1, 1, 2, 0}}
	sym.Check("again", len(lens)*len(ops), "two applications to lists of one or two nodes with arbitrary texts of together 1 or 2 bytes", func(c int) {
		n, o := lens[c/len(ops)], ops[c%len(ops)]
		second(o, sym.String("s", n[0]), sym.String("t", n[1]))
		second(o, sym.String("u", n[2]), sym.String("v", n[3]))
	})
}
