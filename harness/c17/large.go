package main

import (
	"strconv"

	. "github.com/shellyln/takenoco/base"
	obj "github.com/shellyln/takenoco/object"
	"verif/harness/sym"
)

// Long expressions: given operators but for two that are free.
func longExpression(n, seed int) {
	x := uint32(seed*7919 + 17)
	rnd := func(k int) int {
		x = x*1664525 + 1013904223
		return int(x>>16) % k
	}
	var toks AstSlice
	for i := 0; i <= n; i++ {
		if rnd(4) == 0 {
			toks = append(toks, Ast{ClassName: "u", Value: "-"})
		}
		toks = append(toks, val(string(rune('a'+i))))
		if i == n {
			break
		}
		op := string(binary[rnd(len(binary))])
		if i == n/3 || i == n-1 {
			op = operator("op" + strconv.Itoa(i))
		}
		toks = append(toks, Ast{ClassName: "b", Value: op})
	}
	want, _ := climb(toks, 0, 0)
	got, err := grammar()(ParserContext{}, toks)
	sym.Assert(err == nil, "an expression is reduced")
	sym.Assert(len(got) == 1 && got[0].Value == want, "grouping by precedence and associativity")
	sym.Cover("long expression")
}

// Many levels: operator 'a'+i on level i binds tighter than those after it;
// every third level is right-associative; every level has two operators.
func manyLevels(levels, n, seed int) {
	var ps []Precedence
	for l := 0; l < levels; l++ {
		rules := []ParserFn{bin(opName(l, 0)), bin(opName(l, 1))}
		ps = append(ps, Precedence{Rules: rules, Rtol: l%3 == 1})
	}
	x := uint32(seed*104729 + 3)
	rnd := func(k int) int {
		x = x*1664525 + 1013904223
		return int(x>>16) % k
	}
	var toks AstSlice
	lv := make([]int, n)
	for i := 0; i <= n; i++ {
		toks = append(toks, val(string(rune('A'+i))))
		if i == n {
			break
		}
		lv[i] = rnd(levels)
		if i == n/2 {
			lv[i] = sym.Choose("level", levels)
		}
		toks = append(toks, Ast{ClassName: "b", Value: opName(lv[i], rnd(2))})
	}
	want := reference(toks, lv, levels)
	got, err := ProductionRule(ps, FlatGroup(Start(), operand(), obj.End()))(ParserContext{}, toks)
	sym.Assert(err == nil, "an expression is reduced")
	sym.Assert(len(got) == 1 && got[0].Value == want, "grouping by precedence and associativity")
	sym.Cover("many levels")
}

func opName(l, k int) string { return strconv.Itoa(l) + []string{"+", "*"}[k] }

// reference groups by splitting at the loosest operator: the last of its level, or the first when that associates to the right.
func reference(toks AstSlice, lv []int, levels int) string {
	if len(lv) == 0 {
		return toks[0].Value.(string)
	}
	at := 0
	for i, l := range lv {
		if l > lv[at] || l == lv[at] && l%3 != 1 {
			at = i
		}
	}
	return "(" + reference(toks[:2*at+1], lv[:at], levels) + toks[2*at+1].Value.(string) + reference(toks[2*at+2:], lv[at+1:], levels) + ")"
}

// chain is an expression of n operators of one level, three of them free.
func chain(n int, rtol bool) {
	toks := AstSlice{val("x")}
	var ops []string
	for i := 0; i < n; i++ {
		op := "+"
		if i == 0 || i == n/2 || i == n-1 {
			op = []string{"+", "-"}[sym.Choose("op"+strconv.Itoa(i), 2)]
		}
		ops = append(ops, op)
		toks = append(toks, Ast{ClassName: "b", Value: op}, val(string(rune('a'+i%26))))
	}
	// the value is the operators' text in the order of the reductions
	p := Trans(FlatGroup(operand(), opIs("b", "+", "-"), operand()), func(ctx ParserContext, a AstSlice) (AstSlice, error) {
		x, y := a[0].Value.(string), a[2].Value.(string)
		if rtol {
			x, y = y, x
		}
		return AstSlice{val(x + a[1].Value.(string) + y)}, nil
	})
	got, err := ProductionRule([]Precedence{{Rules: []ParserFn{p}, Rtol: rtol}}, FlatGroup(Start(), operand(), obj.End()))(ParserContext{}, toks)
	sym.Assert(err == nil, "an expression is reduced")
	want := "x"
	for i, op := range ops {
		want += op + string(rune('a'+i%26))
	}
	if rtol {
		want = string(rune('a' + (n-1)%26))
		for i := n - 2; i >= -1; i-- {
			want += ops[i+1]
			if i >= 0 {
				want += string(rune('a' + i%26))
			} else {
				want += "x"
			}
		}
	}
	sym.Assert(len(got) == 1 && got[0].Value == want, "grouping by associativity")
	sym.Cover("chain")
}

func init() {
	t := 1
	if sym.Thorough() {
		t = 4
	}
	sym.Check("long expression", 12*t, "12 (thorough 48) expressions of 10, 15 and 22 operands over 6 operators of 4 levels, two operators free", func(c int) {
		longExpression([]int{9, 14, 21}[c%3], c)
	})
	sym.Check("chain", 2*t, "140 (thorough also 280, 420 and 560) operators of one left- or right-associative level, three of them free", func(c int) {
		chain(140*(1+c/2), c%2 == 1)
	})
	sym.Check("many levels", 12*t, "12 (thorough 48) expressions of 9, 13 and 17 operands over 6, 12 and 20 levels of two operators, one operator's level free", func(c int) {
		manyLevels([]int{6, 12, 20}[c%3], []int{8, 12, 16}[c/3%3], c)
	})
}
