// C06: composed grammars parse as the PEG they spell. Every grammar tree up
// to a depth is built with the library and run against a direct interpreter of
// PEG semantics, over every source of a length and every choice of the leaves'
// character ranges.
package main

import (
	. "github.com/shellyln/takenoco/base"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/sym"
)

func main() { sym.Main() }

const (
	gLeaf = iota
	// one child
	gOpt
	gStar
	gPlus
	gRep12
	gAhead
	gNot
	gGroup
	gTrans
	gErase
	gIndirect
	gOnce
	gFlat1
	gIf
	// two children
	gSeq
	gFirst
	gGroup2
	gRepSeq
	kindsEnd
	// leaves of another kind
	gRef
	gEmpty
)

const nUnary = gIf - gOpt + 1
const nBinary = kindsEnd - gSeq

type G struct {
	kind int
	kids []*G
	n    int // leaf or rule number
}

// trees of depth at most d
func count(d int) int {
	if d == 0 {
		return 1
	}
	c := count(d - 1)
	return 1 + nUnary*c + nBinary*c*c
}

func tree(d, i int, leaves *int) *G {
	if i == 0 {
		*leaves++
		return &G{kind: gLeaf, n: *leaves - 1}
	}
	i--
	c := count(d - 1)
	if i < nUnary*c {
		k := gOpt + i/c
		return fix(&G{kind: k, kids: []*G{tree(d-1, i%c, leaves)}})
	}
	i -= nUnary * c
	k := gSeq + i/(c*c)
	i %= c * c
	a := tree(d-1, i/c, leaves)
	b := tree(d-1, i%c, leaves)
	return fix(&G{kind: k, kids: []*G{a, b}})
}

// unlimited repetition of a body that may match the empty text does not
// terminate in this library (nor is it a PEG): bounded instead
func fix(g *G) *G {
	if (g.kind == gStar || g.kind == gPlus) && nullable(g.kids[0]) {
		g.kind = gRep12
	}
	return g
}

func nullable(g *G) bool {
	switch g.kind {
	case gLeaf:
		return false
	case gOpt, gStar, gAhead, gNot, gEmpty, gRef:
		return true
	case gRepSeq:
		return true
	case gFirst:
		for _, k := range g.kids {
			if nullable(k) {
				return true
			}
		}
		return false
	}
	for _, k := range g.kids {
		if !nullable(k) {
			return false
		}
	}
	return true
}

type grammar struct {
	lo, hi  []byte
	rules   []*G
	parsers []ParserFn
	src     string
}

func wrapNode(name string) TransformerFn {
	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
		w := make(AstSlice, len(asts))
		copy(w, asts)
		return AstSlice{{ClassName: name, Type: AstType_ListOfAst, Value: w}}, nil
	}
}

func (m *grammar) build(g *G) ParserFn {
	var k []ParserFn
	for _, c := range g.kids {
		k = append(k, m.build(c))
	}
	switch g.kind {
	case gLeaf:
		return CharRange(RuneRange{Start: rune(m.lo[g.n]), End: rune(m.hi[g.n])})
	case gOpt:
		return ZeroOrOnce(k...)
	case gStar:
		return ZeroOrMoreTimes(k...)
	case gPlus:
		return OneOrMoreTimes(k...)
	case gRep12:
		return Repeat(Times{Min: 1, Max: 2}, k...)
	case gAhead:
		return LookAhead(k...)
	case gNot:
		return LookAheadN(k...)
	case gGroup, gGroup2:
		return Group(k...)
	case gTrans:
		return Trans(k[0], wrapNode("t"))
	case gErase:
		return Trans(k[0], Erase)
	case gIndirect:
		x := k[0]
		return Indirect(func() ParserFn { return x })
	case gOnce:
		return Once(k...)
	case gFlat1, gSeq:
		return FlatGroup(k...)
	case gIf:
		return If(true, k[0], Error("not taken"))
	case gFirst:
		return First(k...)
	case gRepSeq:
		return Repeat(Times{Min: 0, Max: 2}, k...)
	case gRef:
		n := g.n
		return Indirect(func() ParserFn { return m.parsers[n] })
	case gEmpty:
		return Zero()
	}
	panic("kind")
}

type res struct {
	ok    bool
	pos   int
	nodes AstSlice
}

func (m *grammar) seq(kids []*G, pos int) res {
	r := res{true, pos, nil}
	for _, k := range kids {
		x := m.ref(k, r.pos)
		if !x.ok {
			return res{}
		}
		r.pos = x.pos
		r.nodes = append(r.nodes, x.nodes...)
	}
	return r
}

func (m *grammar) rep(kids []*G, lo, hi, pos int) res {
	r := res{true, pos, nil}
	n := 0
	for ; hi < 0 || n < hi; n++ {
		x := m.seq(kids, r.pos)
		if !x.ok {
			break
		}
		r.pos = x.pos
		r.nodes = append(r.nodes, x.nodes...)
	}
	if n < lo {
		return res{}
	}
	return r
}

// ref is PEG semantics.
func (m *grammar) ref(g *G, pos int) res {
	switch g.kind {
	case gLeaf:
		if pos >= len(m.src) {
			return res{}
		}
		c := m.src[pos]
		if !sym.And(m.lo[g.n] <= c, c <= m.hi[g.n]) {
			return res{}
		}
		return res{true, pos + 1, AstSlice{{Value: m.src[pos : pos+1], SourcePosition: SourcePosition{Position: pos, Length: 1}}}}
	case gOpt:
		return m.rep(g.kids, 0, 1, pos)
	case gStar:
		return m.rep(g.kids, 0, -1, pos)
	case gPlus:
		return m.rep(g.kids, 1, -1, pos)
	case gRep12:
		return m.rep(g.kids, 1, 2, pos)
	case gRepSeq:
		return m.rep(g.kids, 0, 2, pos)
	case gAhead:
		return res{m.seq(g.kids, pos).ok, pos, nil}
	case gNot:
		return res{!m.seq(g.kids, pos).ok, pos, nil}
	case gGroup, gGroup2, gTrans:
		r := m.seq(g.kids, pos)
		if r.ok {
			r.nodes = AstSlice{{Type: AstType_ListOfAst, Value: r.nodes}}
		}
		return r
	case gErase:
		r := m.seq(g.kids, pos)
		r.nodes = nil
		return r
	case gFirst:
		for _, k := range g.kids {
			if r := m.ref(k, pos); r.ok {
				return r
			}
		}
		return res{}
	case gRef:
		return m.ref(m.rules[g.n], pos)
	case gEmpty:
		return res{true, pos, nil}
	}
	return m.seq(g.kids, pos)
}

func same(a, b AstSlice) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		switch x := b[i].Value.(type) {
		case AstSlice:
			y, ok := a[i].Value.(AstSlice)
			if !ok || a[i].Type != AstType_ListOfAst || !same(y, x) {
				return false
			}
		case string:
			y, ok := a[i].Value.(string)
			if !ok || y != x || a[i].Position != b[i].Position {
				return false
			}
		}
	}
	return true
}

func (m *grammar) compare(g *G, p ParserFn, start int) {
	m.judge(g, p, start)
}

func (m *grammar) judge(g *G, p ParserFn, start int) {
	ctx := *NewStringParserContext(m.src)
	ctx.Position = start
	ctx.AstStack = append(ctx.AstStack, Ast{ClassName: "below", Value: "below"})
	out, err := p(ctx)
	want := m.ref(g, start)
	sym.Assert(err == nil, "no error")
	if !want.ok {
		sym.Assert(out.MatchStatus == MatchStatus_Unmatched, "unmatched as in PEG semantics")
		sym.Cover("unmatched")
		return
	}
	sym.Assert(out.MatchStatus == MatchStatus_Matched, "matched as in PEG semantics")
	sym.Assert(out.Position == want.pos, "final position as in PEG semantics")
	sym.Assert(len(out.AstStack) >= 1 && out.AstStack[0].ClassName == "below", "nodes below are kept")
	sym.Assert(same(out.AstStack[1:], want.nodes), "nodes as in PEG semantics")
	sym.Cover("matched")
}

// source of n ASCII characters
func (m *grammar) source(n int) {
	m.src = sym.String("s", n)
	ok := true
	for i := 0; i < n; i++ {
		ok = sym.And(ok, m.src[i] < 0x80)
	}
	sym.Assume(ok)
}

func (m *grammar) leaves(n int) {
	for i := 0; i < n; i++ {
		m.lo = append(m.lo, sym.Byte("lo"+string(rune('0'+i))))
		m.hi = append(m.hi, sym.Byte("hi"+string(rune('0'+i))))
	}
}

func trees(depth, n, i int) {
	m := &grammar{}
	leaves := 0
	g := tree(depth, i, &leaves)
	m.leaves(leaves)
	m.source(n)
	m.compare(g, m.build(g), 0)
}

// deep: a binary combinator over one tree of depth 2 and one of depth 1.
func deep(n, i int) {
	m := &grammar{}
	leaves := 0
	c1, c2 := count(1), count(2)
	op := gSeq + i%nBinary
	i /= nBinary
	var a, b *G
	if i%2 == 0 {
		a, b = tree(1, i/2%c1, &leaves), tree(2, i/2/c1%c2, &leaves)
	} else {
		a, b = tree(2, i/2/c1%c2, &leaves), tree(1, i/2%c1, &leaves)
	}
	g := fix(&G{kind: op, kids: []*G{a, b}})
	m.leaves(leaves)
	m.source(n)
	m.compare(g, m.build(g), 0)
}

func leaf(n int) *G           { return &G{kind: gLeaf, n: n} }
func op(k int, kids ...*G) *G { return &G{kind: k, kids: kids} }
func rule(n int) *G           { return &G{kind: gRef, n: n} }

var empty = &G{kind: gEmpty}

// recursive grammars
func recursive(n, i int) {
	m := &grammar{}
	switch i {
	case 0: // S <- a S b / c
		m.rules = []*G{op(gFirst, op(gSeq, leaf(0), op(gSeq, rule(0), leaf(1))), leaf(2))}
	case 1: // S <- a S b / empty
		m.rules = []*G{op(gFirst, op(gSeq, leaf(0), op(gSeq, rule(0), leaf(1))), empty)}
	case 2: // S <- a (b S)*
		m.rules = []*G{op(gSeq, leaf(0), op(gStar, op(gSeq, leaf(1), rule(0))))}
	case 3: // A <- a B / b ; B <- c A / empty
		m.rules = []*G{op(gFirst, op(gSeq, leaf(0), rule(1)), leaf(1)), op(gFirst, op(gSeq, leaf(2), rule(0)), empty)}
	case 4: // E <- T (+ E)? ; T <- ( E ) / d
		m.rules = []*G{
			op(gSeq, rule(1), op(gOpt, op(gSeq, leaf(0), rule(0)))),
			op(gFirst, op(gSeq, leaf(1), op(gSeq, rule(0), leaf(2))), leaf(3)),
		}
	case 5: // S <- (a S)! ; grouped: S <- Group(a S / b)
		m.rules = []*G{op(gGroup, op(gFirst, op(gSeq, leaf(0), rule(0)), leaf(1)))}
	case 6: // a^n b^n c^n style: S <- &(A c) a* B ; A <- a A b / a b ; B <- b B c / b c
		m.rules = []*G{
			op(gSeq, op(gAhead, op(gSeq, rule(1), leaf(2))), op(gSeq, op(gPlus, leaf(0)), rule(2))),
			op(gSeq, leaf(0), op(gSeq, op(gOpt, rule(1)), leaf(1))),
			op(gSeq, leaf(1), op(gSeq, op(gOpt, rule(2)), leaf(2))),
		}
	case 7: // S <- !b a S / b
		m.rules = []*G{op(gFirst, op(gSeq, op(gNot, leaf(1)), op(gSeq, leaf(0), rule(0))), leaf(1))}
	}
	m.leaves(4)
	m.source(n)
	for _, r := range m.rules {
		m.parsers = append(m.parsers, m.build(r))
	}
	m.compare(m.rules[0], m.parsers[0], 0)
}

const nRecursive = 8

func init() {
	sym.Check("depth1", count(1)*4, "every grammar of one combinator, sources of 0..3 characters", func(c int) {
		trees(1, c%4, c/4)
	})
	n := 3
	if sym.Thorough() {
		n = 4
	}
	sym.Check("depth2", count(2), "every grammar of two levels of combinators over leaves with arbitrary character ranges, sources of 3 (thorough 4) arbitrary ASCII characters", func(c int) {
		trees(2, n, c)
	})
	if sym.Thorough() {
		total := nBinary * 2 * count(1) * count(2)
		sym.Check("depth3", total/7, "every seventh grammar of a binary combinator over a two-level and a one-level grammar, sources of 3 characters", func(c int) {
			deep(3, c*7+3)
		})
	}
	sym.Check("recursive", nRecursive, "recursive grammars through Indirect, sources of 5 (thorough 7) characters", func(c int) {
		k := 5
		if sym.Thorough() {
			k = 7
		}
		recursive(k, c)
	})
}
