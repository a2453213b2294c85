// C02: FlatGroup, Group and Once run their children in order, all or nothing.
package main

import (
	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

const (
	flat = iota
	group
	once
	rep11
	kinds
)

func build(kind int, ps []ParserFn) ParserFn {
	switch kind {
	case flat:
		return FlatGroup(ps...)
	case group:
		return Group(ps...)
	case once:
		return Once(ps...)
	default:
		return Repeat(Times{Min: 1, Max: 1}, ps...)
	}
}

type sim struct {
	e *h.Env
	k int
}

// due checks the next recorded call and gives its outcome.
func (m *sim) due(id int, s h.State) (h.State, h.Call) {
	sym.Assert(m.k < len(m.e.Calls), "every due child is run")
	c := m.e.Calls[m.k]
	c.Saw(id, s, "sequence")
	m.k++
	if c.St == h.OK {
		return s.After(m.k-1, c), c
	}
	return s, c
}

// First(FlatGroup(seq(c0..), after), alternative): what follows the sequence
// and what is tried when it fails both see the right state.
func sequence(kind, n, stack int) {
	e := &h.Env{MaxCalls: n + 2, Modes: 3}
	var ps []ParserFn
	for i := 0; i < n; i++ {
		ps = append(ps, e.Child(i, (i+1)%3))
	}
	p := First(FlatGroup(build(kind, ps), e.Child(50, 2)), e.Child(60, 1))
	ctx, s := h.Begin(stack)
	out, err := p(ctx)

	m := &sim{e: e}
	r, c := s, h.Call{}
	for i := 0; i < n && c.St == h.OK; i++ {
		r, c = m.due(i, r)
	}
	var inner []int
	if c.St == h.OK {
		inner = r.Ids[len(s.Ids):]
		if kind == group {
			// one list node instead: its id reads as -7777
			r.Ids = append(append([]int{}, s.Ids...), -7777)
		}
		r, c = m.due(50, r)
		sym.Cover("sequence matched")
	}
	if c.St == h.Unm {
		r, c = m.due(60, s)
		inner = nil
		sym.Cover("alternative")
	}
	sym.Assert(m.k == len(e.Calls), "nothing else is run")
	if c.St == h.Err {
		sym.Assert(out.MatchStatus == MatchStatus_Error, "an error ends the sequence")
		sym.Assert(err == c.Err, "the error is passed on")
		sym.Cover("error")
		return
	}
	sym.Assert(err == nil, "no error without an error")
	if c.St == h.Unm {
		sym.Assert(out.MatchStatus == MatchStatus_Unmatched, "unmatched")
		h.Is(out, s, "unmatched")
		return
	}
	sym.Assert(out.MatchStatus == MatchStatus_Matched, "matched")
	h.Is(out, r, "matched")
	if kind == group && inner != nil {
		g := out.AstStack[stack]
		list, ok := g.Value.(AstSlice)
		sym.Assert(ok, "Group's node holds a list of nodes")
		sym.Assert(g.Type == AstType_ListOfAst, "Group's node is typed as a list of nodes")
		sym.Assert(h.EqIds(h.Ids(list), inner), "Group's list holds exactly the children's nodes")
		for _, a := range list {
			id, _ := a.Value.(int)
			sym.Assert(h.EqAst(a, h.Node(id)), "Group keeps the nodes as they are")
		}
		sym.Cover("grouped")
	}
	for i, id := range r.Ids {
		if id != -7777 {
			sym.Assert(h.EqAst(out.AstStack[i], h.Node(id)), "nodes are kept as they are")
		}
	}
}

// A sequence on its own, and sequences inside a sequence.
func alone(kind, n, stack int) {
	e := &h.Env{MaxCalls: n, Modes: 3}
	var ps []ParserFn
	for i := 0; i < n; i++ {
		ps = append(ps, e.Child(i, i%2+1))
	}
	var p ParserFn
	if n >= 2 {
		p = build(kind, []ParserFn{build(flat, ps[:n/2]), build(once, ps[n/2:])})
	} else {
		p = build(kind, ps)
	}
	ctx, s := h.Begin(stack)
	out, err := p(ctx)
	m := &sim{e: e}
	r, c := s, h.Call{}
	for i := 0; i < n && c.St == h.OK; i++ {
		r, c = m.due(i, r)
	}
	sym.Assert(m.k == len(e.Calls), "nothing else is run")
	switch c.St {
	case h.OK:
		sym.Assert(err == nil && out.MatchStatus == MatchStatus_Matched, "a sequence matches when its children do")
		if kind == group {
			sym.Assert(len(out.AstStack) == stack+1, "Group adds one node")
			list, ok := out.AstStack[stack].Value.(AstSlice)
			sym.Assert(ok && h.EqIds(h.Ids(list), r.Ids[stack:]), "Group's list holds exactly the children's nodes")
			r.Ids = append(append([]int{}, s.Ids...), -7777)
		}
		h.Is(out, r, "matched")
		sym.Cover("alone matched")
	case h.Unm:
		sym.Assert(err == nil && out.MatchStatus == MatchStatus_Unmatched, "a sequence with an unmatched child is Unmatched")
		h.Is(out, s, "unmatched")
		sym.Cover("alone unmatched")
	default:
		sym.Assert(err == c.Err && out.MatchStatus == MatchStatus_Error, "an error is passed on")
	}
}

// Every sequence inside every other, the children's nodes of any class: the
// nodes form exactly the tree that was written.
func tree(outer, inner, n, stack int) {
	e := &h.Env{MaxCalls: n + 2, Modes: 2}
	var ps []ParserFn
	for i := 0; i < n; i++ {
		ps = append(ps, e.Child(i, (i+1)%3))
	}
	var around []ParserFn
	if stack&1 != 0 {
		around = append(around, e.Child(50, 1))
	}
	around = append(around, build(inner, ps))
	if stack&2 != 0 {
		around = append(around, build(inner, []ParserFn{e.Child(60, 2)}))
	}
	ctx, s := h.Begin(stack)
	below := h.Clone(ctx.AstStack)
	out, err := build(outer, around)(ctx)
	sym.Assert(err == nil, "no error without an error")
	m := &sim{e: e}
	r, c := s, h.Call{}
	var want AstSlice
	if stack&1 != 0 {
		r, c = m.due(50, r)
		want = append(want, nodes(m.k, c)...)
	}
	var in AstSlice
	for i := 0; i < n && c.St == h.OK; i++ {
		r, c = m.due(i, rewrap(r, s, want, in))
		in = append(in, nodes(m.k, c)...)
	}
	if c.St == h.OK {
		want = append(want, wrap(inner, in)...)
		if stack&2 != 0 {
			r, c = m.due(60, rewrap(r, s, want, nil))
			want = append(want, wrap(inner, nodes(m.k, c))...)
		}
	}
	sym.Assert(m.k == len(e.Calls), "nothing else is run")
	if c.St != h.OK {
		sym.Assert(out.MatchStatus == MatchStatus_Unmatched, "unmatched")
		h.Is(out, s, "unmatched")
		return
	}
	sym.Assert(out.MatchStatus == MatchStatus_Matched, "matched")
	sym.Assert(out.Position == r.Pos, "position")
	sym.Assert(h.EqAsts(out.AstStack, append(below, wrap(outer, want)...)), "the nodes form the tree that was written")
	sym.Cover("tree")
}

func nodes(k int, c h.Call) (r AstSlice) {
	for j := 0; c.St == h.OK && j < c.Nodes; j++ {
		r = append(r, h.Node(100*k+j))
	}
	return r
}

func wrap(kind int, s AstSlice) AstSlice {
	if kind != group {
		return s
	}
	return AstSlice{{ClassName: ":base:Group", Type: AstType_ListOfAst, Value: append(AstSlice{}, s...)}}
}

// rewrap is r with what is on the stack at this point.
func rewrap(r, s h.State, lists ...AstSlice) h.State {
	r.Ids = append([]int{}, s.Ids...)
	for _, l := range lists {
		r.Ids = append(r.Ids, h.Ids(l)...)
	}
	return r
}

func init() {
	n := 5
	if sym.Thorough() {
		n = 8
	}
	sym.Check("sequence", kinds*n*3, "FlatGroup, Group, Once, Repeat{1,1} of 0..4 (thorough 7) children inside a sequence inside a choice, 0..2 nodes on the stack", func(c int) {
		sequence(c%kinds, c/kinds%n, c/kinds/n)
	})
	sym.Check("tree", kinds*kinds*4*n, "every sequence of 0..4 (thorough 7) children inside every other with and without neighbours", func(c int) {
		tree(c%kinds, c/kinds%kinds, c/kinds/kinds%n, c/kinds/kinds/n)
	})
	sym.Check("alone", kinds*n*3, "the same on its own and with sequences as children", func(c int) {
		alone(c%kinds, c/kinds%n, c/kinds/n)
	})
}
