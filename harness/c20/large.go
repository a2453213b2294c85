package main

import (
	"strconv"

	. "github.com/shellyln/takenoco/base"
	"verif/harness/sym"
)

// Wide lists that agree but for one free element or one free part of it.
func wide(n, at, kind int) {
	mk := func(name string) Ast {
		a := frame("f")
		a.Type = AstType_ListOfAst
		l := AstSlice{}
		for i := 0; i < n; i++ {
			x := leaf("same"+strconv.Itoa(i), i%8)
			if i == at {
				x = leaf(name, kind)
			}
			l = append(l, x)
		}
		a.Value = l
		return a
	}
	compare(mk("a"), mk("b"))
}

// One list a beginning of the other.
func prefix(n, m int) {
	mk := func(n int) Ast {
		l := AstSlice{}
		for i := 0; i < n; i++ {
			l = append(l, leaf("same"+strconv.Itoa(i), i%8))
		}
		return Ast{ClassName: "l", Type: AstType_ListOfAst, Value: l}
	}
	compare(mk(n), mk(m))
	compare(mk(m), mk(n))
}

// Deep trees that agree but for a free leaf at the end and a free class name
// half-way.
func deepTree(d, kind int) {
	mk := func(name string) Ast {
		x := leaf(name, 1)
		for i := 0; i < d; i++ {
			y := Ast{ClassName: "n", Type: AstType_ListOfAst, OpCode: AstOpCodeType(sym.Uint64(name + "op"))}
			if i == d/2 {
				y.ClassName = sym.String(name+"half", 1)
			}
			switch (kind + i*(kind%2)) % 3 {
			case 0:
				y.Value = AstSlice{leaf("l", 0), x}
			case 1:
				y.Type, y.Value = AstType_AstCons, AstCons{Car: x, Cdr: leaf("l", 2)}
			case 2:
				y.Type, y.Value = AstType_AstCons, AstCons{Car: leaf("l", 4), Cdr: x}
			}
			x = y
		}
		return x
	}
	compare(mk("a"), mk("b"))
}

func init() {
	type r struct{ n, from, to int }
	var rs []r
	for _, n := range []int{9, 17, 40} {
		rs = append(rs, r{n, 0, n}, r{n, 0, n - 1}, r{n, 1, n}, r{n, n / 2, n}, r{n, 3, 5}, r{n, n, n})
	}
	sym.Check("large operations", len(rs), "slices of 9, 17 and 40 arbitrary nodes, six sections", func(c int) {
		operations(rs[c].n, rs[c].from, rs[c].to)
	})
	sizes := []int{9, 17, 40}
	sym.Check("wide", 3*4*8, "pairs of lists of 9, 17 and 40 nodes that differ in at most one node of any kind at four places", func(c int) {
		n := sizes[c%3]
		wide(n, []int{0, n / 2, n - 2, n - 1}[c/3%4], c/12)
	})
	sym.Check("prefix", 4, "a list and a longer one that begins the same", func(c int) {
		prefix([]int{0, 8, 16, 39}[c], []int{1, 9, 40, 40}[c])
	})
	sym.Check("deep trees", 6*2, "pairs of trees of depth 12 and 24", func(c int) { deepTree(12+c/6*12, c%6) })
}
