// C21: Traverse visits each node once, in order, without touching the input.
package main

import (
	"errors"
	"strconv"

	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

// A tree is written as nested lists: 'x' a leaf ('s' a string, '.' and 'e' without value), '(ab)' a cons cell, '[...]' a list.
func tree(s string) Ast {
	a, _, _ := parse(s, 0, 1)
	return a
}

func parse(s string, i, id int) (a Ast, next, nextID int) {
	a = Ast{OpCode: AstOpCodeType(id), ClassName: "in", SourcePosition: SourcePosition{Position: id}}
	id++
	switch s[i] {
	case '(':
		var c AstCons
		c.Car, i, id = parse(s, i+1, id)
		c.Cdr, i, id = parse(s, i, id)
		a.Type = AstType_AstCons
		a.Value = c
	case '[':
		l := AstSlice{}
		i++
		for s[i] != ']' {
			var x Ast
			x, i, id = parse(s, i, id)
			l = append(l, x)
		}
		a.Type = AstType_ListOfAst
		a.Value = l
	case '.': // an empty node
		a = Ast{OpCode: a.OpCode, ClassName: "in"}
	case 's':
		a.Type, a.Value = AstType_String, sym.String("leaf"+strconv.Itoa(id), 1)
	case 'e': // a node that says it is a list but holds none
		a.ClassName = ""
		a.Value = nil
	default:
		a.Type = AstType_Int
		a.Value = sym.Int64("leaf" + strconv.Itoa(id))
	}
	return a, i + 1, id
}

// A script decides what the callbacks do in their k-th call; at most budget
// calls do anything special.
type script struct {
	budget int
	from   int // special calls begin here
	calls  int
	last   int // special calls end here
	log    []event
}

type event struct {
	kind  string
	node  Ast
	child AstOpCodeType
	what  string
}

const (
	plain = iota
	fail
	replace // the node by a list of two leaves, or a list by what its first node is
	lazy
	last
	thereKinds
)
const (
	throw = fail + 1 + iota
	brk
	cont
	jump
	brkJump
	contJump
	backKinds
)

func (s *script) next(name string, kinds int) (int, string) {
	k := name + strconv.Itoa(s.calls)
	s.calls++
	if s.budget == 0 || s.calls > s.last || s.calls <= s.from {
		return plain, k
	}
	c := sym.Choose(k, kinds)
	if c != plain {
		s.budget--
	}
	return c, k
}

func (s *script) there(ctx interface{}, a Ast) (Ast, WayThereMode, error) {
	sym.Assert(ctx == "ctx", "callbacks are given the caller's context")
	s.log = append(s.log, event{"there", h.CloneAst(a), 0, ""})
	mode := WayThereMode_None
	c, k := s.next("there", thereKinds)
	a.ClassName = "there"
	switch c {
	case fail:
		return a, mode, errors.New(k)
	case replace:
		if l, ok := a.Value.(AstSlice); ok && len(l) > 0 {
			b := l[0]
			b.OpCode = a.OpCode
			return b, mode, nil
		}
		a.Type = AstType_ListOfAst
		a.Value = AstSlice{h.Node(100 + s.calls), h.Node(200 + s.calls)}
	case lazy:
		mode = WayThereMode_Lazy
	case last:
		mode = WayThereMode_Last
	}
	return a, mode, nil
}

func (s *script) back(ctx interface{}, a Ast) (Ast, int16, TraverseOpcode, interface{}, error) {
	sym.Assert(ctx == "ctx", "callbacks are given the caller's context")
	s.log = append(s.log, event{"back", h.CloneAst(a), 0, ""})
	c, k := s.next("back", backKinds)
	a.ClassName = "back"
	switch c {
	case fail:
		return a, 0, 0, nil, errors.New(k)
	case throw:
		return a, 0, 0, k, nil
	case brk:
		return a, 0, TraverseOpcode_Break, nil, nil
	case cont:
		return a, 0, TraverseOpcode_Continue, nil, nil
	case jump:
		return a, int16(sym.Choose(k+"by", 4) - 2), 0, nil, nil
	case brkJump:
		return a, int16(-sym.Choose(k+"brk", 3)), TraverseOpcode_Break, nil, nil
	case contJump:
		return a, int16(1 + sym.Choose(k+"cont", 2)), TraverseOpcode_Continue, nil, nil
	}
	return a, 0, 0, nil, nil
}

func (s *script) failed(ctx interface{}, a, child Ast, thrown interface{}, err error) {
	sym.Assert(ctx == "ctx", "callbacks are given the caller's context")
	s.log = append(s.log, event{"failed", h.CloneAst(a), child.OpCode, str(thrown, err)})
}

func str(thrown interface{}, err error) string {
	r := ""
	if thrown != nil {
		r = "thrown " + thrown.(string)
	}
	if err != nil {
		r += "error " + err.Error()
	}
	return r
}

type result struct {
	a      Ast
	incr   int16
	op     TraverseOpcode
	thrown interface{}
	err    error
}

func (r result) bad() bool { return r.thrown != nil || r.err != nil }

// walk is the reference.
func (s *script) walk(a Ast) result {
	a = h.CloneAst(a)
	a, mode, err := s.there("ctx", a)
	if err != nil {
		return result{a: a, err: err}
	}
	if mode != WayThereMode_Lazy {
		switch v := a.Value.(type) {
		case AstCons:
			car := s.walk(v.Car)
			if car.bad() {
				s.failed("ctx", a, v.Car, car.thrown, car.err)
				return result{a: a, thrown: car.thrown, err: car.err}
			}
			cdr := s.walk(v.Cdr)
			if cdr.bad() {
				s.failed("ctx", a, v.Cdr, cdr.thrown, cdr.err)
				return result{a: a, thrown: cdr.thrown, err: cdr.err}
			}
			a.Value = AstCons{Car: car.a, Cdr: cdr.a}
		case AstSlice:
			out := AstSlice{}
			if mode == WayThereMode_Last && len(v) > 0 {
				out = AstSlice{{}}
			}
			for i := 0; i < len(v); i++ {
				r := s.walk(v[i])
				if r.bad() {
					s.failed("ctx", a, v[i], r.thrown, r.err)
					return result{a: a, thrown: r.thrown, err: r.err}
				}
				if mode != WayThereMode_Last {
					out = append(out, r.a)
					continue
				}
				switch r.op {
				case TraverseOpcode_Break:
					i = len(v) - 1
				case TraverseOpcode_Continue:
					i = -1
				default:
					out[0] = r.a
				}
				i += int(r.incr)
				sym.Assume(i >= -1) // jumps stay in the list
			}
			a.Value = out
		}
	}
	b, incr, op, thrown, err := s.back("ctx", a)
	return result{b, incr, op, thrown, err}
}

func traverse(shape string, budget, until int) { between(shape, budget, 0, until) }

func between(shape string, budget, from, until int) {
	a := tree(shape)
	orig := h.CloneAst(a)
	ref := &script{budget: budget, from: from, last: until}
	want := ref.walk(a)
	s := &script{budget: budget, from: from, last: until}
	var got result
	got.a, got.incr, got.op, got.thrown, got.err = a.Traverse(s.there, s.back, s.failed, "ctx")
	sym.Assert(h.EqAst(a, orig), "the tree passed in is not modified")
	sym.Assert(len(s.log) == len(ref.log), "each node's callbacks run once")
	for i, e := range s.log {
		w := ref.log[i]
		sym.Assert(e.kind == w.kind && e.node.OpCode == w.node.OpCode, "callbacks run in order")
		sym.Assert(e.what == w.what && e.child == w.child, "an error is reported to the enclosing nodes")
		if e.kind != "failed" {
			sym.Assert(h.EqAst(e.node, w.node), "a callback is given the node rebuilt from its children")
		}
	}
	sym.Assert(str(got.thrown, got.err) == str(want.thrown, want.err), "the first error or thrown value is returned")
	if want.bad() {
		sym.Cover("failed")
		return
	}
	sym.Assert(h.EqAst(got.a, want.a), "the tree is rebuilt from the callbacks' results")
	sym.Assert(got.incr == want.incr && got.op == want.op, "the root's jump is returned")
	sym.Cover("rebuilt")
}

var shapes = []string{
	"x", "(xx)", "[]", "[x]", "[xx]", "[xxx]", "((xx)x)", "(x(xx))", "[[x]x]", "([xx]x)", "[(xx)]", "[x[xx]]", "([x](xx))", "[[x][x]]",
	".", "(x.)", "(.x)", "(..)", "[.]", "[x.s]", "((.x).)", "([.].)", "[(x.)e]",
	// thorough
	"[xxxx]", "[x[xxx]x]", "((xx)(xx))", "[[[x]x]x]", "([xx][xx])",
}

func init() {
	n, budget, until := len(shapes)-5, 2, 8
	if sym.Thorough() {
		n, budget, until = len(shapes), 3, 10
	}
	sym.Check("plain", len(shapes), "28 tree shapes with arbitrary leaves, callbacks that fail, replace, throw or jump at most once", func(c int) {
		traverse(shapes[c], 1, 12)
	})
	sym.Check("traverse", n, "23 (thorough 28) tree shapes with arbitrary leaves, up to 2 (3) callbacks among the first 8 (10) that fail, replace, throw or jump", func(c int) {
		traverse(shapes[c], budget, until)
	})
}
