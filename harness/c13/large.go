package main

import (
	"strings"

	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

func list(texts []string) AstSlice {
	var r AstSlice
	for i, t := range texts {
		a := Ast{ClassName: "c" + id(i%10), Type: AstType_String, Value: t, OpCode: AstOpCodeType(i)}
		a.Position = sym.Int("pos", 0, 1000) + i
		a.Length = len(t)
		r = append(r, a)
	}
	return r
}

func judge(o op, in AstSlice) {
	all := append(append(AstSlice{h.Node(1)}, in...), h.Node(2))
	given := all[1 : 1+len(in)]
	before := h.Clone(all)
	out, err := o.f(ParserContext{Tag: 5}, given)
	sym.Assert(err == nil, "strings are joined without error")
	sym.Assert(len(out) == 1, "one node")
	sym.Assert(out[0].Type == AstType_String, "a string node")
	v, ok := out[0].Value.(string)
	sym.Assert(ok, "a string value")
	sym.Assert(v == o.want(join(before[1:1+len(in)])), "the value is the joined text, trimmed")
	sym.Assert(out[0].ClassName == before[1].ClassName, "class name of the first node")
	sym.Assert(out[0].SourcePosition == before[1].SourcePosition, "position of the first node")
	sym.Assert(h.EqAsts(all[:1+len(in)], before[:1+len(in)]), "the given nodes are not changed")
	sym.Cover("large " + o.name)
}

// Many nodes with free characters in three of them.
func many(c int) {
	o := ops[c%len(ops)]
	n := []int{9, 17, 40, 130}[c/len(ops)%4]
	var ts []string
	for i := 0; i < n; i++ {
		switch {
		case i == 0 || i == n/2 || i == n-1:
			ts = append(ts, sym.String("v"+string(rune('0'+i*2/n)), 1))
		case c/len(ops)/4 == 0:
			ts = append(ts, []string{" ", "\t\n", "", "\u00a0", " "}[i%5])
		default:
			ts = append(ts, []string{"lorem", " ", "", "\u00e9", "x\n"}[i%5])
		}
	}
	judge(o, list(ts))
}

// Long texts with much or little white space around a free character.
func long(c int) {
	o := ops[c%len(ops)]
	n := []int{15, 16, 33, 64, 65, 300}[c/len(ops)%6]
	sp := []string{" ", "\t \r\n\u0085", "\u3000", "\u00a0"}[c/len(ops)/6]
	b := strings.Repeat(sp, n/len(sp)+1)
	t := b + h.Pattern("v", "?") + b + "z" + b + h.Pattern("w", "?") + b
	judge(o, list([]string{t}))
}

func init() {
	sym.Check("many", len(ops)*4*2, "9, 17, 40 and 130 nodes, free characters in the first, the middle and the last", many)
	sym.Check("long", len(ops)*6*4, "texts of up to 1200 bytes with runs of white space of 15..300 bytes next to free characters", long)
}
