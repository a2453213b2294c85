// Package h holds what several harnesses share: child parsers with arbitrary
// behaviour and comparisons of AST stacks.
package h

import (
	"errors"
	"strconv"

	. "github.com/shellyln/takenoco/base"
	clsz "github.com/shellyln/takenoco/base/classes"
	"verif/harness/sym"
)

// Outcome of one call of an arbitrary child parser.
const (
	OK = iota
	Unm
	Err        // error status and error value
	ErrMatched // error value, status left Matched
	ErrUnm     // error value, status left Unmatched
	ErrNil     // error status without an error value
)

// Call is what the k-th call of an arbitrary child saw and did.
type Call struct {
	Child int
	Pos   int
	Ids   []int
	Tag   int
	Sets  int // the tag it leaves
	St    int
	Adv   int
	Nodes int
	Err   error
}

// Env gives out arbitrary child parsers: whatever a child does in its k-th
// call (matched with any advance, unmatched or error) is a free choice.
type Env struct {
	Calls    []Call
	MaxCalls int // later calls are Unmatched
	Name     string
	Modes    int // number of outcomes used (2: no errors)
}

func TagOf(ctx ParserContext) int {
	if t, ok := ctx.Tag.(int); ok {
		return t
	}
	return -999
}

func Ids(s AstSlice) []int {
	r := make([]int, 0, len(s))
	for _, a := range s {
		v, ok := a.Value.(int)
		if !ok {
			v = -7777
		}
		r = append(r, v)
	}
	return r
}

func EqIds(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func Node(id int) Ast {
	a := Ast{OpCode: AstOpCodeType(id & 0xff), ClassName: "n", Type: AstType_Int, Value: id, SourcePosition: SourcePosition{Position: id, Length: 1}}
	switch id & 3 {
	case 1:
		a.ClassName = ""
	case 2:
		a.ClassName, a.SourcePosition = clsz.Group, SourcePosition{}
	}
	return a
}

// Child is an arbitrary parser that pushes nodes nodes when it matches.
func (e *Env) Child(id, nodes int) ParserFn {
	return func(ctx ParserContext) (ParserContext, error) {
		k := len(e.Calls)
		ks := strconv.Itoa(k)
		c := Call{Child: id, Pos: ctx.Position, Ids: Ids(ctx.AstStack), Tag: TagOf(ctx), Nodes: nodes}
		if k >= e.MaxCalls {
			c.St = Unm
		} else {
			c.St = sym.Concrete(sym.Int(e.Name+"st"+ks, 0, e.Modes-1))
		}
		c.Adv = sym.Int(e.Name+"adv"+ks, 0, 1000000)
		ctx.Quantity = 7
		ctx.ClassName = "child"
		if c.St != OK {
			// anything a parser may leave behind when it fails
			ctx.Position += c.Adv
			ctx.Length = 12345
			if id%2 == 1 {
				ctx.AstStack = ctx.AstStack[:0]
			} else {
				ctx.AstStack = append(ctx.AstStack, Node(-1), Node(-2))
			}
			ctx.Tag = -k
		} else {
			ctx.Position += c.Adv
			ctx.Length = c.Adv
			for j := 0; j < nodes; j++ {
				ctx.AstStack = append(ctx.AstStack, Node(100*(k+1)+j))
			}
			// any tag, the one it found included
			c.Sets = sym.Int(e.Name+"tag"+ks, 0, 1000000)
			ctx.Tag = c.Sets
		}
		var err error
		switch c.St {
		case OK, ErrMatched:
			ctx.MatchStatus = MatchStatus_Matched
		case Unm, ErrUnm:
			ctx.MatchStatus = MatchStatus_Unmatched
		default:
			ctx.MatchStatus = MatchStatus_Error
		}
		if c.St == Err || c.St == ErrMatched || c.St == ErrUnm {
			err = errors.New("e" + ks)
		}
		c.Err = err
		e.Calls = append(e.Calls, c)
		return ctx, err
	}
}

// State is what a parse may change.
type State struct {
	Pos int
	Ids []int
	Tag int
}

// Text is the source stub parsers are run on; they do not read it.
const Text = "é€source"

// Start is a context with n nodes on the stack at a free position.
func Begin(n int) (ParserContext, State) {
	ctx := ParserContext{Str: Text, AstStack: make(AstSlice, 0, 8), Tag: 0}
	ctx.Position = sym.Int("pos", 0, 1000000)
	var s State
	s.Pos = ctx.Position
	for i := 0; i < n; i++ {
		ctx.AstStack = append(ctx.AstStack, Node(i+1))
		s.Ids = append(s.Ids, i+1)
	}
	ctx.Length = 3
	ctx.ClassName = "before"
	return ctx, s
}

// After is the state behind a matching call.
func (s State) After(k int, c Call) State {
	s.Pos += c.Adv
	s.Tag = c.Sets
	ids := append([]int{}, s.Ids...)
	for j := 0; j < c.Nodes; j++ {
		ids = append(ids, 100*(k+1)+j)
	}
	s.Ids = ids
	return s
}

// Saw checks that the call was made on child id in state s.
func (c Call) Saw(id int, s State, what string) {
	sym.Assert(c.Child == id, what+": children run in order")
	sym.Assert(c.Pos == s.Pos, what+": a child starts at the right position")
	sym.Assert(EqIds(c.Ids, s.Ids), what+": a child sees the right AST stack")
	sym.Assert(c.Tag == s.Tag, what+": a child sees the right context tag")
}

// Is checks that a context is in state s.
func Is(ctx ParserContext, s State, what string) {
	sym.Assert(ctx.Position == s.Pos, what+": position")
	sym.Assert(EqIds(Ids(ctx.AstStack), s.Ids), what+": AST nodes")
	sym.Assert(TagOf(ctx) == s.Tag, what+": context tag")
	sym.Assert(ctx.Str == Text, what+": source")
}

// EqAst compares two nodes field by field.
func EqAst(a, b Ast) bool {
	if a.OpCode != b.OpCode || a.ClassName != b.ClassName || a.Type != b.Type ||
		a.Position != b.Position || a.Length != b.Length {
		return false
	}
	return EqVal(a.Value, b.Value)
}

func EqVal(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case int:
		y, ok := b.(int)
		return ok && x == y
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case uint64:
		y, ok := b.(uint64)
		return ok && x == y
	case rune:
		y, ok := b.(rune)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && sym.SameFloat(x, y)
	case AstSlice:
		y, ok := b.(AstSlice)
		return ok && EqAsts(x, y)
	case AstCons:
		y, ok := b.(AstCons)
		return ok && EqAst(x.Car, y.Car) && EqAst(x.Cdr, y.Cdr)
	case Ast:
		y, ok := b.(Ast)
		return ok && EqAst(x, y)
	}
	return false
}

func EqAsts(a, b AstSlice) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !EqAst(a[i], b[i]) {
			return false
		}
	}
	return true
}

// Clone is a copy sharing nothing with s (list and cons values included).
func Clone(s AstSlice) AstSlice {
	r := make(AstSlice, len(s))
	for i, a := range s {
		r[i] = CloneAst(a)
	}
	return r
}

func CloneAst(a Ast) Ast {
	switch x := a.Value.(type) {
	case AstSlice:
		a.Value = Clone(x)
	case AstCons:
		a.Value = AstCons{CloneAst(x.Car), CloneAst(x.Cdr)}
	}
	return a
}
