// C20: AST slices behave as values and compare structurally.
package main

import (
	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

func digit(i int) string { return string(rune('0' + i)) }

// leaf is a node of any type that has no nodes in it.
func leaf(name string, kind int) Ast {
	a := frame(name)
	a.Type = AstType(sym.Int(name+"ty", 0, 15))
	sym.Assume(sym.And(a.Type != AstType_AstCons, a.Type != AstType_ListOfAst))
	switch kind {
	case 0:
		a.Value = sym.Int64(name + "i")
	case 1:
		a.Value = sym.String(name+"s", 2)
	case 2:
		a.Value = sym.Uint64(name + "i")
	case 3:
		a.Value = []interface{}{sym.Int64(name + "i"), sym.Bool(name + "b")}
	case 4:
		a.Value = rune(sym.Int32(name + "r"))
	case 5:
		f := sym.Float64(name + "f")
		sym.Assume(f == f)
		a.Value = f
	case 6:
		a.Value = sym.String(name+"s", 1)
	case 7:
		a.Value = sym.Bool(name + "b")
	}
	return a
}

func frame(name string) Ast {
	return Ast{
		OpCode:         AstOpCodeType(sym.Uint64(name + "op")),
		ClassName:      sym.String(name+"cls", 1),
		SourcePosition: SourcePosition{Position: sym.Int(name+"pos", 0, 9), Length: sym.Int(name+"len", 0, 9)},
	}
}

// tree is an arbitrary node: a leaf, a cons cell or a list of up to width nodes.
func tree(name string, depth, leaves, width int) Ast {
	kinds := leaves
	if depth > 0 {
		kinds += 2 + width
	}
	k := sym.Choose(name+"kind", kinds)
	if k < leaves {
		return leaf(name, k)
	}
	a := frame(name)
	if k == leaves {
		a.Type = AstType_AstCons
		a.Value = AstCons{Car: tree(name+"0", depth-1, leaves, width), Cdr: tree(name+"1", depth-1, leaves, width)}
		return a
	}
	n := k - leaves - 1
	l := AstSlice{}
	for i := 0; i < n; i++ {
		l = append(l, tree(name+digit(i), depth-1, leaves, width))
	}
	a.Type = AstType_ListOfAst
	a.Value = l
	return a
}

// equal is structural equality.
func equal(a, b Ast) bool {
	same := sym.And(a.ClassName == b.ClassName, a.Type == b.Type)
	switch x := a.Value.(type) {
	case AstCons:
		y, ok := b.Value.(AstCons)
		return ok && sym.And(same, sym.And(equal(x.Car, y.Car), equal(x.Cdr, y.Cdr)))
	case AstSlice:
		y, ok := b.Value.(AstSlice)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			same = sym.And(same, equal(x[i], y[i]))
		}
		return same
	case []interface{}:
		y, ok := b.Value.([]interface{})
		return ok && sym.And(same, sym.And(x[0].(int64) == y[0].(int64), x[1].(bool) == y[1].(bool)))
	case float64:
		y, ok := b.Value.(float64)
		return ok && sym.And(same, x == y)
	}
	return sym.And(same, h.EqVal(a.Value, b.Value))
}

func compare(a, b Ast) {
	var s AstSlice
	want := equal(a, b)
	ab := s.ItemEquals(a, b)
	sym.Assert(ab == want, "two nodes are equal exactly when class, type and value agree")
	sym.Assert(s.ItemEquals(b, a) == ab, "equality is symmetric")
	sym.Assert(s.ItemEquals(a, a), "equality is reflexive")
	full := AstSlice{a, b}
	sym.Assert(full.ItemEquals(full.Get(0), full.Get(1)) == ab, "equality does not depend on the slice")
	if sym.Decide(ab) {
		sym.Cover("equal")
	} else {
		sym.Cover("different")
	}
}

func transitive(a, b, c Ast) {
	var s AstSlice
	if s.ItemEquals(a, b) && s.ItemEquals(b, c) {
		sym.Assert(s.ItemEquals(a, c), "equality is transitive")
		sym.Cover("transitive")
	}
}

func nodes(name string, n int) AstSlice {
	s := make(AstSlice, n, n+2)
	for i := range s {
		s[i] = leaf(name+digit(i), i%3)
	}
	return s
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func is(s SliceLike, want []Ast, what string) {
	sym.Assert(s.Len() == len(want), what+": length")
	for i, a := range want {
		got, ok := s.Get(i).(Ast)
		sym.Assert(ok && h.EqAst(got, a), what+": elements")
	}
}

func operations(n, from, to int) {
	s := nodes("s", n)
	other := leaf("other", 0)
	orig := append([]Ast{}, s...)
	is(s, orig, "slice")
	sym.Assert(panics(func() { s.Get(n) }) && panics(func() { s.Get(-1) }), "no element outside the slice")
	sym.Assert(panics(func() { s.Set(n, other) }), "no element outside the slice")

	// copies
	cp := s.Copy(from, to)
	_, ok := cp.(AstSlice)
	sym.Assert(ok, "a copy is an AST slice")
	is(cp, orig[from:to], "copy")
	for i := 0; i < cp.Len(); i++ {
		cp.Set(i, other)
		is(s, orig, "source of a changed copy")
		sym.Assert(h.EqAst(cp.Get(i).(Ast), other), "Set sets")
	}
	cp = s.Copy(from, to)
	for i := range s {
		s.Set(i, other)
	}
	is(cp, orig[from:to], "copy of a changed source")
	for i := range s {
		s.Set(i, orig[i])
	}
	is(s, orig, "slice set back")
	cp = append(s.Copy(from, to).(AstSlice), other)
	is(s, orig, "source of an appended copy")

	// sections
	re := s.Reslice(from, to)
	is(re, orig[from:to], "section")
	sym.Assert(panics(func() { s.Reslice(0, cap(s)+1) }), "no section beyond the capacity")
	if from < to {
		re.Set(0, other)
		want := append([]Ast{}, orig...)
		want[from] = other
		is(s, want, "slice of a changed section")
		for i := range s {
			if i != from {
				s.Set(i, other)
				want[i] = other
				is(s, want, "slice")
				is(re, want[from:to], "section of a changed slice")
			}
		}
	}

	mk := s.Make(n, n+to)
	ms, ok := mk.(AstSlice)
	sym.Assert(ok && len(ms) == n && cap(ms) == n+to, "Make makes a slice of that length and capacity")
	for i := range ms {
		sym.Assert(h.EqAst(ms[i], Ast{}), "of empty nodes")
	}
	for i := range ms {
		ms.Set(i, other)
	}
	sym.Cover("operations")
}

func init() {
	max := 4
	depth, width := 1, 2
	if sym.Thorough() {
		max = 6
		width = 3
	}
	type r struct{ n, from, to int }
	var rs []r
	for n := 0; n <= max; n++ {
		for f := 0; f <= n; f++ {
			for t := f; t <= n; t++ {
				rs = append(rs, r{n, f, t})
			}
		}
	}
	sym.Check("operations", len(rs), "slices of 0..4 (thorough 6) arbitrary nodes, all sections", func(c int) {
		operations(rs[c].n, rs[c].from, rs[c].to)
	})
	sym.Check("leaves", 64, "all pairs of leaves: 8 kinds of value, every type, class, opcode and position", func(c int) {
		compare(leaf("a", c/8), leaf("b", c%8))
	})
	sym.Check("trees", 1, "all pairs of trees of depth 1, up to 2 (thorough 3) nodes per list, 2 kinds of leaf", func(int) {
		compare(tree("a", depth, 2, width), tree("b", depth, 2, width))
	})
	sym.Check("deep", 1, "all pairs of trees of depth 2 (thorough 3) with lists of up to 1 node", func(int) {
		d := 2
		if sym.Thorough() {
			d = 3
		}
		compare(tree("a", d, 1, 1), tree("b", d, 1, 1))
	})
	sym.Check("transitive", 1, "triples of trees of depth 1", func(int) {
		transitive(tree("a", 1, 1, 1), tree("b", 1, 1, 1), tree("c", 1, 1, 1))
	})
}
