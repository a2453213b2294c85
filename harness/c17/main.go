// C17: production rules reduce by precedence and associativity.
package main

import (
	"errors"
	"strconv"

	. "github.com/shellyln/takenoco/base"
	obj "github.com/shellyln/takenoco/object"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

// world is an arbitrary grammar: what a rule does at a position of a list, and
// whether the check accepts a list, are free choices that depend on nothing
// else. Lists made by more than max reductions are in normal form.
type world struct {
	max   int
	modes int // outcomes of a rule: unmatched, matched, error
}

const (
	unmatched = iota
	matched
	failed
)

func key(list AstSlice) (k string, depth int) {
	for _, id := range h.Ids(list) {
		k += "." + strconv.Itoa(id)
		depth = max(depth, id/1000)
	}
	return
}

type effect struct {
	st    int
	width int
	out   AstSlice
}

func (w world) rule(r int, list AstSlice, pos int) (e effect) {
	k, depth := key(list)
	k = "r" + strconv.Itoa(r) + "@" + strconv.Itoa(pos) + k
	modes := w.modes
	if depth >= w.max {
		return
	}
	e.st = sym.Choose(k, modes)
	if e.st == matched {
		e.width = sym.Choose(k+"w", len(list)-pos+1)
		n := sym.Choose(k+"n", 3)
		for i := 0; i < n; i++ {
			e.out = append(e.out, h.Node(1000*(depth+1)+100*r+10*pos+i))
		}
		if n == 0 || e.width == len(list) && n == 2 {
			// the depth has to grow even so
			e.out = AstSlice{h.Node(1000*(depth+1) + 100*r + 10*pos + 7)}
		}
	}
	return
}

func (w world) accepts(list AstSlice) bool {
	k, _ := key(list)
	return sym.Choose("check"+k, 2) == 1
}

func whole(ctx ParserContext) AstSlice { return ctx.Slice.(AstSlice) }

func arbitrary(n int, levels []Precedence, w world) {
	var in AstSlice
	for i := 0; i < n; i++ {
		in = append(in, h.Node(i+1))
	}
	orig := h.Clone(in)
	accept := 0
	check := func(ctx ParserContext) (ParserContext, error) {
		sym.Assert(ctx.Position == 0 && len(ctx.AstStack) == 0 && ctx.Tag == "tag", "the check sees the whole list from its start")
		if !w.accepts(whole(ctx)) {
			ctx.MatchStatus = MatchStatus_Unmatched
			if _, depth := key(whole(ctx)); depth%2 == n%2 {
				// another way of saying no
				ctx.MatchStatus = MatchStatus_Error
				return ctx, errors.New("not yet")
			}
		} else {
			accept++
			ctx.MatchStatus = MatchStatus_Matched
		}
		return ctx, nil
	}
	var ps []Precedence
	id := 0
	for _, l := range levels {
		p := Precedence{Rtol: l.Rtol}
		for range l.Rules {
			r := id
			id++
			p.Rules = append(p.Rules, func(ctx ParserContext) (ParserContext, error) {
				sym.Assert(ctx.Tag == "tag" && len(ctx.AstStack) == 0, "a rule starts with an empty stack and the caller's tag")
				e := w.rule(r, whole(ctx), ctx.Position)
				switch e.st {
				case failed:
					ctx.MatchStatus = MatchStatus_Error
					return ctx, errors.New("rule " + strconv.Itoa(r))
				case matched:
					ctx.AstStack = append(ctx.AstStack, e.out...)
					ctx.Position += e.width
					ctx.MatchStatus = MatchStatus_Matched
				default:
					ctx.MatchStatus = MatchStatus_Unmatched
				}
				return ctx, nil
			})
		}
		ps = append(ps, p)
	}
	got, err := ProductionRule(ps, check)(ParserContext{Tag: "tag", SourcePosition: SourcePosition{Position: 5}, AstStack: AstSlice{h.Node(99)}}, in)
	want, werr := w.reduce(orig, ps)
	if werr != nil {
		sym.Assert(err != nil, "a list that cannot be reduced, and a rule's error, is an error")
		if *werr != "" {
			sym.Assert(err.Error() == *werr, "a rule's error is returned as is")
			sym.Cover("rule error")
		} else {
			sym.Cover("stuck")
		}
	} else {
		sym.Assert(err == nil, "a reducible list is reduced")
		sym.Assert(h.EqAsts(got, want), "the list is what the rules make of it")
		sym.Cover("reduced")
	}
	sym.Assert(h.EqAsts(in, orig), "the list passed in is not changed")
}

// reduce is the reference.
func (w world) reduce(cur AstSlice, ps []Precedence) (AstSlice, *string) {
	for {
		next, found, e := w.step(cur, ps)
		if e != nil {
			return nil, e
		}
		if found {
			cur = next
		}
		if w.accepts(cur) {
			return cur, nil
		}
		if !found {
			stuck := ""
			return nil, &stuck
		}
	}
}

func (w world) step(cur AstSlice, ps []Precedence) (AstSlice, bool, *string) {
	first := 0
	for _, p := range ps {
		for i := range len(cur) + 1 {
			pos := i
			if p.Rtol {
				pos = len(cur) - i
			}
			for r := range p.Rules {
				switch e := w.rule(first+r, cur, pos); e.st {
				case failed:
					msg := "rule " + strconv.Itoa(first+r)
					return nil, false, &msg
				case matched:
					next := append(AstSlice{}, cur[:pos]...)
					next = append(next, e.out...)
					return append(next, cur[pos+e.width:]...), true, nil
				}
			}
		}
		first += len(p.Rules)
	}
	return nil, false, nil
}

func level(rules int, rtol bool) Precedence {
	return Precedence{Rules: make([]ParserFn, rules), Rtol: rtol}
}

var shapes = []struct {
	n      int
	levels []Precedence
	max    int
	modes  int
}{
	{0, nil, 1, 3},
	{2, nil, 1, 3},
	{0, []Precedence{level(1, false)}, 2, 3},
	{1, []Precedence{level(1, false)}, 2, 3},
	{2, []Precedence{level(1, false)}, 1, 3},
	{2, []Precedence{level(1, true)}, 1, 3},
	{2, []Precedence{level(1, false)}, 2, 2},
	{2, []Precedence{level(1, true)}, 2, 2},
	{3, []Precedence{level(1, false)}, 1, 3},
	{3, []Precedence{level(1, true)}, 1, 3},
	{1, []Precedence{level(2, false)}, 1, 3},
	{2, []Precedence{level(2, true)}, 1, 2},
	{1, []Precedence{level(1, true), level(1, false)}, 1, 3},
	{2, []Precedence{level(1, false), level(1, true)}, 1, 3},
	{2, []Precedence{level(1, true), level(1, true), level(1, false)}, 1, 2},
	{1, []Precedence{level(0, true), level(3, false)}, 1, 3},
	{1, []Precedence{level(1, false), level(1, false)}, 2, 2},
	// thorough
	{3, []Precedence{level(1, false)}, 2, 3},
	{3, []Precedence{level(2, true), level(1, false)}, 1, 3},
	{2, []Precedence{level(1, true), level(1, false)}, 2, 3},
	{4, []Precedence{level(1, true), level(2, false)}, 1, 3},
}

// A concrete grammar built from the library's object parsers: binary
// operators ^ (right), * and / (left), + and - (left), < (right, same level as
// nothing else), prefix '-' binding tightest. The list of operators is free.
const binary = "^*/+-<"

// operator is an arbitrary binary operator.
func operator(name string) string {
	s := sym.String(name, 1)
	in := false
	for i := range binary {
		in = sym.Or(in, s[0] == binary[i])
	}
	sym.Assume(in)
	return s
}

func prec(op string) (level int, right bool) {
	c := op[0]
	l := sym.IfInt(c == '^', 3, sym.IfInt(sym.Or(c == '*', c == '/'), 2, sym.IfInt(sym.Or(c == '+', c == '-'), 1, 0)))
	return l, sym.Or(c == '^', c == '<')
}

func unwrap(ctx ParserContext, asts AstSlice) (AstSlice, error) {
	return AstSlice{asts[0].Value.(Ast)}, nil
}

func opIs(class string, ops ...string) ParserFn {
	return Trans(obj.ObjClassFn(func(v interface{}) bool {
		a, ok := v.(Ast)
		if !ok || a.ClassName != class {
			return false
		}
		for _, o := range ops {
			if o == a.Value.(string) {
				return true
			}
		}
		return false
	}), unwrap)
}

func operand() ParserFn {
	return Trans(obj.ObjClassFn(func(v interface{}) bool {
		a, ok := v.(Ast)
		return ok && a.ClassName == "v"
	}), unwrap)
}

func val(s string) Ast { return Ast{ClassName: "v", Type: AstType_String, Value: s} }

func bin(ops ...string) ParserFn {
	return Trans(FlatGroup(operand(), opIs("b", ops...), operand()),
		func(ctx ParserContext, a AstSlice) (AstSlice, error) {
			return AstSlice{val("(" + a[0].Value.(string) + a[1].Value.(string) + a[2].Value.(string) + ")")}, nil
		})
}

func grammar() TransformerFn {
	return ProductionRule([]Precedence{
		{Rules: []ParserFn{
			Trans(FlatGroup(opIs("u", "-"), operand()),
				func(ctx ParserContext, a AstSlice) (AstSlice, error) {
					return AstSlice{val("(-" + a[1].Value.(string) + ")")}, nil
				})}, Rtol: true},
		{Rules: []ParserFn{bin("^")}, Rtol: true},
		{Rules: []ParserFn{bin("*"), bin("/")}},
		{Rules: []ParserFn{bin("+", "-")}},
		{Rules: []ParserFn{bin("<")}, Rtol: true},
	}, FlatGroup(Start(), operand(), obj.End()))
}

// climb is a precedence climbing parser over the same tokens.
func climb(toks AstSlice, i, lowest int) (string, int) {
	neg := 0
	for toks[i].ClassName == "u" {
		neg++
		i++
	}
	left := toks[i].Value.(string)
	i++
	for ; neg > 0; neg-- {
		left = "(-" + left + ")"
	}
	for i < len(toks) {
		op := toks[i].Value.(string)
		l, right := prec(op)
		if l < lowest {
			break
		}
		next := l + 1
		if right {
			next = l
		}
		var r string
		r, i = climb(toks, i+1, next)
		left = "(" + left + op + r + ")"
	}
	return left, i
}

func expression(nops, minus int) {
	var toks AstSlice
	for i := 0; i <= nops; i++ {
		is := strconv.Itoa(i)
		for j := sym.Choose("minus"+is, minus+1); j > 0; j-- {
			toks = append(toks, Ast{ClassName: "u", Value: "-"})
		}
		toks = append(toks, val(string(rune('a'+i))))
		if i < nops {
			toks = append(toks, Ast{ClassName: "b", Value: operator("op" + is)})
		}
	}
	want, _ := climb(toks, 0, 0)
	got, err := grammar()(ParserContext{}, toks)
	sym.Assert(err == nil, "an expression is reduced")
	sym.Assert(len(got) == 1 && got[0].Value == want, "grouping by precedence and associativity")
	sym.Cover("expression")
}

// a list no rule can reduce to one operand
func garbage(n int) {
	var toks AstSlice
	for i := 0; i < n; i++ {
		k := sym.Choose("tok"+strconv.Itoa(i), 4)
		switch k {
		case 0:
			toks = append(toks, val(string(rune('a'+i))))
		case 1:
			toks = append(toks, Ast{ClassName: "u", Value: "-"})
		case 2:
			toks = append(toks, Ast{ClassName: "u", Value: "!"})
		default:
			toks = append(toks, Ast{ClassName: "b", Value: operator("tok" + strconv.Itoa(i) + "op")})
		}
	}
	i := 0
	good := false
	for i < n && !good {
		for i < n && toks[i].ClassName == "u" && toks[i].Value == "-" {
			i++
		}
		if i == n || toks[i].ClassName != "v" {
			break
		}
		i++
		if i == n {
			good = true
		} else if toks[i].ClassName != "b" {
			break
		} else {
			i++
		}
	}
	got, err := grammar()(ParserContext{}, toks)
	if good {
		want, _ := climb(toks, 0, 0)
		sym.Assert(err == nil && len(got) == 1 && got[0].Value == want, "an expression is reduced")
		sym.Cover("good")
	} else {
		sym.Assert(err != nil, "what is no expression is an error")
		sym.Cover("bad")
	}
}

func init() {
	n := len(shapes) - 4
	ops, junk := 3, 5
	if sym.Thorough() {
		n = len(shapes)
		ops, junk = 4, 6
	}
	sym.Check("arbitrary", n, "lists of 0..3 (thorough 4) nodes, 0..3 precedence levels of 0..3 rules with arbitrary behaviour, up to 2 reductions", func(c int) {
		s := shapes[c]
		arbitrary(s.n, s.levels, world{s.max, s.modes})
	})
	sym.Check("expression", ops+2, "all expressions of up to 4 (thorough 5) operands over 6 operators of 4 levels with up to one prefix minus each, and of one more operand without", func(c int) {
		if c == ops+1 {
			expression(ops+1, 0)
		} else {
			expression(c, 1)
		}
	})
	sym.Check("garbage", junk+1, "all lists of up to 5 (thorough 6) tokens: operand, prefix operator, other prefix operator, arbitrary binary operator", garbage)
}
