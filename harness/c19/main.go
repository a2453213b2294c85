// C19: object parsers match exactly the listed values.
package main

import (
	"strconv"

	. "github.com/shellyln/takenoco/base"
	obj "github.com/shellyln/takenoco/object"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

// Strs is a source of strings whose equality ignores all but the first byte.
type Strs []string

func (s Strs) Len() int                         { return len(s) }
func (s Strs) Get(i int) interface{}            { return s[i] }
func (s Strs) Set(i int, v interface{})         { s[i] = v.(string) }
func (s Strs) Reslice(start, end int) SliceLike { return s[start:end] }
func (s Strs) Copy(start, end int) SliceLike    { return append(Strs{}, s[start:end]...) }
func (s Strs) Make(len, cap int) SliceLike      { return make(Strs, len, cap) }
func (s Strs) ItemEquals(a, b interface{}) bool { return a.(string)[0] == b.(string)[0] }

// Ptr is a source that is a pointer: its identity is not its content.
type Ptr struct{ items []int64 }

func (s *Ptr) Len() int                         { return len(s.items) }
func (s *Ptr) Get(i int) interface{}            { return s.items[i] }
func (s *Ptr) Set(i int, v interface{})         { s.items[i] = v.(int64) }
func (s *Ptr) Reslice(start, end int) SliceLike { return &Ptr{s.items[start:end]} }
func (s *Ptr) Copy(start, end int) SliceLike {
	return &Ptr{append([]int64{}, s.items[start:end]...)}
}
func (s *Ptr) Make(len, cap int) SliceLike      { return &Ptr{make([]int64, len, cap)} }
func (s *Ptr) ItemEquals(a, b interface{}) bool { return a.(int64) == b.(int64) }

// Vals is a source of anything, nil included.
type Vals []interface{}

func (s Vals) Len() int                         { return len(s) }
func (s Vals) Get(i int) interface{}            { return s[i] }
func (s Vals) Set(i int, v interface{})         { s[i] = v }
func (s Vals) Reslice(start, end int) SliceLike { return s[start:end] }
func (s Vals) Copy(start, end int) SliceLike    { return append(Vals{}, s[start:end]...) }
func (s Vals) Make(len, cap int) SliceLike      { return make(Vals, len, cap) }
func (s Vals) ItemEquals(a, b interface{}) bool { return sameVal(a, b) }

func sameVal(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.(int64) == b.(int64)
}

// a type of elements: an arbitrary element, an empty source, the equality of
// two elements and their identity.
type elem struct {
	mk    func(name string) interface{}
	empty func() SliceLike
	eq    func(a, b interface{}) bool
	same  func(a, b interface{}) bool
}

var elems = []elem{
	{
		func(n string) interface{} { return int(sym.Int64(n)) },
		func() SliceLike { return h.Ints{} },
		func(a, b interface{}) bool { return a.(int) == b.(int) },
		func(a, b interface{}) bool { return a.(int) == b.(int) },
	},
	{
		func(n string) interface{} { return sym.String(n, 2) },
		func() SliceLike { return Strs{} },
		func(a, b interface{}) bool { return a.(string)[0] == b.(string)[0] },
		func(a, b interface{}) bool { return a.(string) == b.(string) },
	},
	{
		func(n string) interface{} {
			return Ast{OpCode: AstOpCodeType(sym.Byte(n + "op")), ClassName: sym.String(n+"cls", 1), Type: AstType_Int, Value: sym.Int64(n)}
		},
		func() SliceLike { return AstSlice{} },
		func(a, b interface{}) bool {
			x, y := a.(Ast), b.(Ast)
			return sym.And(x.ClassName == y.ClassName, x.Value.(int64) == y.Value.(int64))
		},
		func(a, b interface{}) bool { return h.EqAst(a.(Ast), b.(Ast)) },
	},
	{
		func(n string) interface{} { return sym.Int64(n) },
		func() SliceLike { return &Ptr{} },
		func(a, b interface{}) bool { return a.(int64) == b.(int64) },
		func(a, b interface{}) bool { return a.(int64) == b.(int64) },
	},
	{
		func(n string) interface{} {
			if sym.Decide(sym.Bool(n + "nil")) {
				return nil
			}
			return sym.Int64(n)
		},
		func() SliceLike { return Vals{} },
		sameVal,
		sameVal,
	},
}

func (e elem) source(n int) (SliceLike, []interface{}) {
	s := e.empty().Make(n, n)
	var items []interface{}
	for i := 0; i < n; i++ {
		v := e.mk("s" + strconv.Itoa(i))
		items = append(items, v)
		s.Set(i, v)
	}
	return s, items
}

const (
	any_ = iota
	end
	seq
	class
	classN
	classFn
	kinds
)

type matcher struct {
	kind int
	args []interface{}
}

func (e elem) matcher(kind, nargs int, name string) matcher {
	m := matcher{kind: kind}
	for i := 0; i < nargs; i++ {
		m.args = append(m.args, e.mk(name+strconv.Itoa(i)))
	}
	return m
}

// accepts is an arbitrary property of elements.
func accepts(e elem, v interface{}) bool { return e.eq(v, e.mk("wanted")) }

func (m matcher) build(e elem) ParserFn {
	switch m.kind {
	case any_:
		return obj.Any()
	case end:
		return obj.End()
	case seq:
		return obj.Seq(m.args...)
	case class:
		return obj.ObjClass(m.args...)
	case classN:
		return obj.ObjClassN(m.args...)
	}
	return obj.ObjClassFn(func(v interface{}) bool { return accepts(e, v) })
}

var classNames = []string{":object:Any", ":object:End", ":object:Seq", ":object:ObjClass", ":object:ObjClassN", ":object:ObjClassFn"}

// match is the reference: whether m matches at pos and how many elements.
func (m matcher) match(e elem, items []interface{}, pos int) (bool, int) {
	left := len(items) - pos
	if m.kind == end {
		return left == 0, 0
	}
	if m.kind == seq {
		if left < len(m.args) {
			return false, 0
		}
		all := true
		for i, a := range m.args {
			all = sym.And(all, e.eq(items[pos+i], a))
		}
		return all, len(m.args)
	}
	if left == 0 {
		return false, 0
	}
	v := items[pos]
	some := false
	for _, a := range m.args {
		some = sym.Or(some, e.eq(v, a))
	}
	switch m.kind {
	case class:
		return some, 1
	case classN:
		return !some, 1
	case classFn:
		return accepts(e, v), 1
	}
	return true, 1
}

func (m matcher) node(e elem, a Ast, items []interface{}, pos, n int) {
	sym.Assert(a.ClassName == classNames[m.kind], "the node's class is the matcher's")
	sym.Assert(a.SourcePosition.Position == pos, "the node records where it starts")
	sym.Assert(a.SourcePosition.Length == n, "the node records how many elements it holds")
	if m.kind == seq {
		w, ok := a.Value.(SliceLike)
		sym.Assert(ok && a.Type == AstType_ListOfAny, "the value is a list, and typed so")
		sym.Assert(w.Len() == n, "the value holds the matched elements and no others")
		for i := 0; i < n; i++ {
			sym.Assert(e.same(w.Get(i), items[pos+i]), "the value holds the elements of the source")
		}
		return
	}
	sym.Assert(a.Type == AstType_Any, "an element is typed as anything")
	sym.Assert(e.same(a.Value, items[pos]), "the value is the element of the source")
}

func begin(s SliceLike, pos, below int) (ParserContext, AstSlice) {
	ctx := *obj.NewObjectParserContextWithTag(s, 7)
	ctx.Position = pos
	ctx.Length = sym.Int("prevlen", 0, 3)
	for i := 0; i < below; i++ {
		ctx.AstStack = append(ctx.AstStack, h.Node(10+i))
	}
	return ctx, h.Clone(ctx.AstStack)
}

func unchanged(e elem, s SliceLike, items []interface{}) {
	sym.Assert(s.Len() == len(items), "the source is not changed")
	for i, v := range items {
		sym.Assert(e.same(s.Get(i), v), "the source is not changed")
	}
}

func single(e elem, m matcher, n, pos, below int) {
	s, items := e.source(n)
	ctx, nodes := begin(s, pos, below)
	ok, w := m.match(e, items, pos)
	out, err := m.build(e)(ctx)
	unchanged(e, s, items)
	if !sym.Decide(ok) {
		h.Unmoved(out, err, ctx, nodes)
		sym.Cover("unmatched")
		return
	}
	sym.Cover("matched")
	sym.Assert(err == nil && out.MatchStatus == MatchStatus_Matched, "matches")
	sym.Assert(out.Position == pos+w, "consumes the matched elements")
	sym.Assert(out.Length == w, "the context's length is the number of elements")
	sym.Assert(out.Tag == 7, "the tag is kept")
	add := 1
	if m.kind == end {
		add = 0
	}
	sym.Assert(len(out.AstStack) == below+add && h.EqAsts(out.AstStack[:below], nodes), "one node is added")
	if add == 1 {
		m.node(e, out.AstStack[below], items, pos, w)
	}
}

// several matchers one after the other, converted with ToSlice when every
// node is one element
func sequence(e elem, ms []matcher, n int, collect bool) {
	s, items := e.source(n)
	var ps []ParserFn
	for _, m := range ms {
		ps = append(ps, m.build(e))
	}
	p := FlatGroup(ps...)
	if collect {
		p = Trans(p, ToSlice)
	}
	ctx, nodes := begin(s, 0, 1)
	out, err := p(ctx)
	unchanged(e, s, items)
	ok, pos := true, 0
	var starts, widths []int
	for _, m := range ms {
		good, w := m.match(e, items, pos)
		ok = sym.And(ok, good)
		starts = append(starts, pos)
		widths = append(widths, w)
		pos = min(pos+w, n)
	}
	if !sym.Decide(ok) {
		h.Unmoved(out, err, ctx, nodes)
		return
	}
	sym.Cover("sequence")
	sym.Assert(err == nil && out.MatchStatus == MatchStatus_Matched, "a sequence of matches matches")
	sym.Assert(out.Position == pos, "consumes the matched elements")
	if collect {
		a := out.AstStack[len(out.AstStack)-1]
		sym.Assert(len(out.AstStack) == 2 && a.Type == AstType_ListOfAny, "ToSlice leaves one list")
		v, isSlice := a.Value.(SliceLike)
		sym.Assert(isSlice && v.Len() == pos, "of the node values")
		sym.Assert(sameKind(v, s), "in a slice of the source's type")
		for i := 0; i < pos; i++ {
			sym.Assert(e.same(v.Get(i), items[i]), "in order")
		}
		if pos > 0 {
			v.Set(0, e.mk("other"))
			unchanged(e, s, items)
		}
		return
	}
	k := 1
	for i, m := range ms {
		if m.kind == end {
			continue
		}
		sym.Assert(k < len(out.AstStack), "one node for each match")
		m.node(e, out.AstStack[k], items, starts[i], widths[i])
		k++
	}
	sym.Assert(k == len(out.AstStack), "one node for each match")
}

// toSlice: the transformer on nodes other parsers made. Typed or not, each
// node's value is an element.
func toSlice(e elem, n, below int) {
	s, items := e.source(2)
	ctx, _ := begin(s, 1, 0)
	all := AstSlice{}
	for i := 0; i < below; i++ {
		all = append(all, h.Node(50))
	}
	var vals []interface{}
	for i := 0; i < n; i++ {
		k := "n" + strconv.Itoa(i)
		v := e.mk(k)
		vals = append(vals, v)
		a := Ast{OpCode: AstOpCodeType(sym.Byte(k + "o")), ClassName: sym.String(k+"c", 1), Type: AstType(sym.Byte(k + "t")), Value: v}
		a.Position, a.Length = sym.Int(k+"p", 0, 9), sym.Int(k+"l", 0, 9)
		all = append(all, a)
	}
	all = append(all, h.Node(51))
	before := h.Clone(all)
	out, err := ToSlice(ctx, all[below:below+n])
	sym.Assert(err == nil && len(out) == 1 && out[0].Type == AstType_ListOfAny, "ToSlice leaves one list")
	sym.Assert(h.EqAsts(all, before), "the nodes are not changed")
	v, isSlice := out[0].Value.(SliceLike)
	sym.Assert(isSlice && v.Len() == n, "of the node values")
	sym.Assert(sameKind(v, s), "in a slice of the source's type")
	for i := 0; i < n; i++ {
		sym.Assert(e.same(v.Get(i), vals[i]), "in order")
	}
	unchanged(e, s, items)
	if n > 0 {
		sym.Assert(out[0].ClassName == before[below].ClassName && out[0].SourcePosition == before[below].SourcePosition, "it stands where the first node stood")
		v.Set(0, e.mk("other"))
		sym.Assert(h.EqAsts(all, before), "the nodes are not changed")
	}
}

func sameKind(a, b SliceLike) bool {
	var x, y int
	for i, s := range []SliceLike{a, b} {
		k := 0
		switch s.(type) {
		case h.Ints:
			k = 1
		case Strs:
			k = 2
		case AstSlice:
			k = 3
		case *Ptr:
			k = 4
		case Vals:
			k = 5
		}
		if i == 0 {
			x = k
		} else {
			y = k
		}
	}
	return x == y
}

type shape struct{ kind, args, n, pos, below int }

func init() {
	maxLen, maxArgs := 4, 3
	if sym.Thorough() {
		maxLen, maxArgs = 6, 5
	}
	var shapes []shape
	for k := 0; k < kinds; k++ {
		for a := 0; a <= maxArgs; a++ {
			if a > 0 && (k == any_ || k == end || k == classFn) {
				break
			}
			for n := 0; n <= maxLen; n++ {
				for p := 0; p <= n; p++ {
					shapes = append(shapes, shape{k, a, n, p, (n + p) % 3})
				}
			}
		}
	}
	sym.Check("single", len(elems)*len(shapes), "every matcher with 0..3 (thorough 5) arbitrary values on sources of 0..4 (thorough 6) arbitrary elements of 5 element types (one of them allows nil) at every position", func(c int) {
		e, x := elems[c%len(elems)], shapes[c/len(elems)]
		single(e, e.matcher(x.kind, x.args, "a"), x.n, x.pos, x.below)
	})
	pairs := kinds * kinds
	sym.Check("sequence", len(elems)*pairs, "all pairs of matchers with 2 arbitrary values each, then End, on sources of 3 elements", func(c int) {
		e, x := elems[c%len(elems)], c/len(elems)
		sequence(e, []matcher{e.matcher(x/kinds, 2, "a"), e.matcher(x%kinds, 2, "b"), {kind: any_}}, 3, false)
	})
	sym.Check("toslice-nodes", 2*len(elems)*4, "ToSlice over 0..3 nodes of any class, type and position holding elements", func(c int) {
		toSlice(elems[c%len(elems)], c/len(elems)%4, c/len(elems)/4)
	})
	sym.Check("toslice", len(elems)*4, "ToSlice over 0..3 one-element nodes", func(c int) {
		e, x := elems[c%len(elems)], c/len(elems)
		ms := []matcher{e.matcher(classN, 1, "a"), {kind: any_}, e.matcher(class, 2, "b")}
		sequence(e, ms[:x], 3, true)
	})
}
