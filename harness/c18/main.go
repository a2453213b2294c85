// C18: Match applies the first fitting case to the top n nodes.
package main

import (
	"errors"

	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

func id(i int) string { return string(rune('0' + i)) }

type rec struct {
	asked []int      // predicates in the order they were asked
	seen  []AstSlice // what each was given
	ran   []int      // transformers in the order they ran
	got   []AstSlice
	ret   []AstSlice
}

func (r *rec) cases(n, let int, failing bool) (cs []Case) {
	for i := 0; i < n; i++ {
		c := Case{If: r.predicate(i)}
		for j := 0; j < let; j++ {
			c.Let = append(c.Let, r.transformer(i*10+j, failing))
		}
		cs = append(cs, c)
	}
	return
}

func (r *rec) predicate(i int) MatchCaseIfFn {
	return func(asts AstSlice) bool {
		r.asked = append(r.asked, i)
		r.seen = append(r.seen, h.Clone(asts))
		return sym.Decide(sym.Bool("if" + id(i)))
	}
}

func (r *rec) transformer(k int, failing bool) TransformerFn {
	return func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		r.ran = append(r.ran, k)
		r.got = append(r.got, h.Clone(asts))
		var ret AstSlice
		kinds := 5
		if failing {
			kinds = 6
		}
		switch sym.Choose("t"+id(k/10)+id(k%10), kinds) {
		case 0:
			ret = asts
		case 1:
			ret = asts[0:0]
		case 2:
			ret = AstSlice{h.Node(1000 + k)}
		case 3:
			ret = append(asts, h.Node(1000+k), h.Node(2000+k))
		case 4:
			if 0 < len(asts) {
				asts[0].Value = 3000 + k // in place
			}
			ret = asts
		case 5:
			return nil, errors.New("t" + id(k/10))
		}
		r.ret = append(r.ret, h.Clone(ret))
		return ret, nil
	}
}

// one application: n nodes wanted, stack of size, nc cases with let transformers
func apply(n, size, nc, let int, failing bool) {
	r := &rec{}
	p := Match(n)(r.cases(nc, let, failing)...)
	ctx, s := h.Begin(size)
	ctx.Length = 5
	before := h.Clone(ctx.AstStack)
	orig := ctx.AstStack
	out, err := p(ctx)
	sym.Assert(h.EqAsts(orig, before), "the nodes the caller holds are not written")
	fit := -1
	for i := 0; i < nc; i++ {
		if sym.Bool("if" + id(i)) {
			fit = i
			break
		}
	}
	want := nc
	if fit >= 0 {
		want = fit + 1
	}
	sym.Assert(len(r.asked) == want, "predicates are asked up to the first that accepts")
	for i, k := range r.asked {
		sym.Assert(k == i, "predicates are asked in order")
		sym.Assert(h.EqAsts(r.seen[i], before), "a predicate sees the whole stack")
	}
	if fit < 0 {
		sym.Assert(err == nil && out.MatchStatus == MatchStatus_Unmatched, "no fitting case is unmatched")
		sym.Assert(len(r.ran) == 0, "and runs no transformer")
		h.Is(out, s, "unmatched")
		sym.Cover("unmatched")
		return
	}
	sp := size - n
	if sp < 0 {
		sp = 0
		sym.Cover("fewer")
	}
	cur := before[sp:]
	for i, k := range r.ran {
		sym.Assert(k == fit*10+i, "the fitting case's transformers run in order")
		sym.Assert(h.EqAsts(r.got[i], cur), "a transformer is given the top n nodes or its predecessor's result")
		if i == len(r.ret) {
			sym.Assert(err != nil && out.MatchStatus == MatchStatus_Error, "a transformer's error is an error")
			sym.Assert(err.Error() == "t"+id(k/10), "its own error")
			sym.Assert(i == len(r.ran)-1, "no transformer runs after an error")
			sym.Cover("error")
			return
		}
		cur = r.ret[i]
	}
	sym.Assert(len(r.ran) == let, "every transformer of the case runs")
	sym.Assert(err == nil && out.MatchStatus == MatchStatus_Matched, "a fitting case matches")
	sym.Assert(out.Position == s.Pos, "nothing is consumed")
	sym.Assert(h.TagOf(out) == s.Tag, "the tag is kept")
	sym.Assert(len(out.AstStack) == sp+len(cur), "the result replaces the top n nodes")
	sym.Assert(h.EqAsts(out.AstStack[:sp], before[:sp]), "nodes below are kept")
	sym.Assert(h.EqAsts(out.AstStack[sp:], cur), "the last result is on top")
	sym.Cover("matched")
}

// A Match that is backtracked over leaves no trace.
func backtrack(c int) {
	kind, n, size := c%5, c/5%3, 2+c/15
	r := &rec{}
	e := &h.Env{MaxCalls: 4, Modes: 2}
	m := Match(n)(r.cases(1, 1, false)...)
	var p ParserFn
	switch kind {
	case 0:
		p = First(FlatGroup(m, e.Child(0, 1)), e.Child(1, 1))
	case 1:
		p = FlatGroup(ZeroOrOnce(m, e.Child(0, 1)), e.Child(1, 1))
	case 2:
		p = FlatGroup(LookAhead(m), e.Child(1, 1))
	case 3:
		p = FlatGroup(LookAheadN(m, e.Child(0, 1)), e.Child(1, 1))
	case 4:
		p = FlatGroup(Repeat(Times{Min: 0, Max: 2}, m, e.Child(0, 1)), e.Child(1, 1))
	}
	ctx, s := h.Begin(size)
	before := h.Clone(ctx.AstStack)
	out, err := p(ctx)
	sym.Assert(err == nil, "no error")
	sym.Assert(h.EqAsts(ctx.AstStack, before), "the nodes the caller holds are not written")
	applied := sym.Bool("if0") // by the predicate
	last := h.Call{St: h.Unm}
	if len(e.Calls) > 0 {
		last = e.Calls[len(e.Calls)-1]
	}
	if out.MatchStatus != MatchStatus_Matched {
		h.Is(out, s, "unmatched")
		return
	}
	kept := !applied // the stack still holds the nodes from before
	switch kind {
	case 0, 1:
		kept = kept || e.Calls[0].St != h.OK
	case 2, 3:
		kept = true
	case 4:
		kept = kept || e.Calls[0].St != h.OK
	}
	if kept {
		sym.Assert(len(out.AstStack) == size+1, "a Match backtracked over leaves the stack's size")
		sym.Assert(h.EqAsts(out.AstStack[:size], before), "a Match backtracked over leaves the stack's nodes")
		sym.Cover("kept")
	}
	sym.Assert(last.St == h.OK, "ends with the last child")
}

// values of every type a node may hold; arbitrary where scalar
func value(kind int, name string) interface{} {
	switch kind {
	case 0:
		return nil
	case 1:
		return sym.Rune32(name + "r")
	case 2:
		return sym.Int64(name + "i")
	case 3:
		return sym.Uint64(name + "u")
	case 4:
		return sym.Float64(name + "f")
	case 5:
		return sym.Bool(name + "b")
	case 6:
		return sym.String(name+"s", 2)
	case 7:
		return sym.String(name+"t", 1)
	case 8:
		return ""
	case 9:
		return int(5)
	}
	return AstSlice{{Type: AstType_Int, Value: sym.Int64(name + "i")}}
}

const nValues = 11

func stack(c int, top interface{}) AstSlice {
	var s AstSlice
	for i := 0; i < c; i++ {
		s = append(s, Ast{Value: value(1+i%7, "v0")}) // below: values like those listed
	}
	return append(s, Ast{ClassName: "top", Type: AstType_Any, Value: top})
}

func eqAny(n int, f func(i int) bool) bool {
	r := false
	for i := 0; i < n; i++ {
		r = sym.Or(r, f(i))
	}
	return r
}

// typed predicates: kind of the top value, number of listed values
func typed(c int) {
	k, n, below := c%nValues, c/nValues%3, c/nValues/3
	top := value(k, "top")
	s := stack(below, top)
	before := h.Clone(s)
	var rs []rune
	var is []int64
	var us []uint64
	var fs []float64
	var bs []bool
	var ss []string
	for i := 0; i < n; i++ {
		v := "v" + id(i)
		rs, is, us = append(rs, sym.Rune32(v+"r")), append(is, sym.Int64(v+"i")), append(us, sym.Uint64(v+"u"))
		fs, bs, ss = append(fs, sym.Float64(v+"f")), append(bs, sym.Bool(v+"b")), append(ss, sym.String(v+"s", 2-i))
	}
	r, isR := top.(rune)
	sym.Assert(TopIsRune(rs...)(s) == (isR && eqAny(n, func(i int) bool { return rs[i] == r })), "TopIsRune")
	i64, isI := top.(int64)
	sym.Assert(TopIsInt(is...)(s) == (isI && eqAny(n, func(i int) bool { return is[i] == i64 })), "TopIsInt")
	u, isU := top.(uint64)
	sym.Assert(TopIsUint(us...)(s) == (isU && eqAny(n, func(i int) bool { return us[i] == u })), "TopIsUint")
	f, isF := top.(float64)
	sym.Assert(TopIsFloat(fs...)(s) == (isF && eqAny(n, func(i int) bool { return fs[i] == f })), "TopIsFloat")
	b, isB := top.(bool)
	sym.Assert(TopIsBool(bs...)(s) == (isB && eqAny(n, func(i int) bool { return bs[i] == b })), "TopIsBool")
	t, isS := top.(string)
	sym.Assert(TopIsStr(ss...)(s) == (isS && eqAny(n, func(i int) bool { return ss[i] == t })), "TopIsStr")
	sym.Assert(TopIsAny(s), "TopIsAny")
	sym.Assert(h.EqAsts(s, before), "predicates change nothing")
	sym.Cover("typed")
}

// TopIs with listed values of two kinds
func any(c int) {
	k, a, b := c%nValues, c/nValues%nValues, (c*5+c/nValues/nValues+2)%nValues
	top := value(k, "top")
	s := stack(1, top)
	list := []interface{}{value(a, "v0"), value(b, "v1")}
	eq := func(x interface{}) bool {
		if f, ok := x.(float64); ok {
			g, ok := top.(float64)
			return ok && f == g
		}
		return h.EqVal(top, x)
	}
	sym.Assert(TopIs(list...)(s) == sym.Or(eq(list[0]), eq(list[1])), "TopIs")
	sym.Assert(TopIs(list[1])(s) == eq(list[1]), "TopIs")
	sym.Assert(!TopIs()(s), "TopIs with no values")
}

func none(c int) {
	s := AstSlice{}
	if c == 1 {
		s = nil
	}
	ok := TopIsRune(0)(s) || TopIsInt(0)(s) || TopIsUint(0)(s) || TopIsFloat(0)(s) || TopIsBool(false)(s) || TopIsStr("")(s) || TopIs(nil)(s)
	sym.Assert(!ok, "no predicate holds of an empty stack")
	sym.Assert(TopIsAny(s), "but TopIsAny")
}

func init() {
	max := 4
	if sym.Thorough() {
		max = 5
	}
	sym.Check("apply", 4*max*4*3, "Match(0..3) on stacks of 0..3 (thorough 4) nodes, 0..3 cases with arbitrary predicates and 0..2 arbitrary transformers", func(c int) {
		apply(c%4, c/4%max, c/4/max%4, c/4/max/4, false)
	})
	sym.Check("fails", 4, "transformers that report an error", func(c int) { apply(c%2+1, 2, 2, c/2+1, true) })
	sym.Check("backtrack", 30, "Match inside choices, options, repetitions and look-ahead that backtrack over it, stacks of 2..3 nodes", backtrack)
	sym.Check("typed", nValues*3*2, "TopIsRune/Int/Uint/Float/Bool/Str with 0..2 arbitrary listed values on a top node of every type", typed)
	sym.Check("any", nValues*nValues*2, "TopIs with two listed values of every type", any)
	sym.Check("none", 2, "predicates on an empty stack", none)
}
