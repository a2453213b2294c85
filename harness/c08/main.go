// C08: a constructed parser carries no state from one parse to the next, and
// parsing writes to no unsynchronised memory that other parses can see.
package main

import (
	"github.com/shellyln/takenoco/_examples/csv"
	"github.com/shellyln/takenoco/_examples/formula"
	"github.com/shellyln/takenoco/_examples/torpn"
	. "github.com/shellyln/takenoco/base"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

type outcome struct {
	status MatchStatusType
	pos    int
	length int
	nodes  AstSlice
	err    string
	pan    bool
}

func run(p ParserFn, src string) (o outcome) {
	defer func() {
		if e := recover(); e != nil {
			o.pan = true
		}
	}()
	out, err := p(*NewStringParserContext(src))
	o.status, o.pos, o.length, o.nodes = out.MatchStatus, out.Position, out.Length, h.Clone(out.AstStack)
	if err != nil {
		o.err = err.Error()
	}
	return
}

func eqNodes(a, b AstSlice) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Type == AstType_Any && b[i].Type == AstType_Any {
			continue // dates: compared elsewhere
		}
		if !h.EqAst(a[i], b[i]) {
			return false
		}
	}
	return true
}

func compare(a, b outcome) {
	sym.Assert(a.pan == b.pan, "a used parser panics exactly when a new one does")
	sym.Assert(a.status == b.status, "a used parser gives the verdict of a new one")
	sym.Assert(a.pos == b.pos && a.length == b.length, "a used parser stops where a new one stops")
	sym.Assert(a.err == b.err, "a used parser reports the error of a new one")
	sym.Assert(eqNodes(a.nodes, b.nodes), "a used parser gives the nodes of a new one")
	sym.Cover("compared")
}

// history: the second parse with a used parser is like one with a new parser.
func history(c int) {
	it := h.Items[c]
	s1, s2 := h.Source("s", it.One), h.Source("t", it.Two)
	used := it.Mk()
	run(used, s1)
	compare(run(used, s2), run(it.Mk(), s2))
}

// repeated use of one parser on the same source
func again(c int) {
	it := h.Items[c]
	s := h.Source("s", it.Two)
	p := it.Mk()
	first := run(p, s)
	compare(run(p, s), first)
}

// sharing: parses write only to their own memory.
func sharing(c int) {
	it := h.Items[c]
	p := it.Mk()
	src := []string{h.Source("s", it.One), h.Source("t", it.Two)}
	sym.Concurrent(2, func(i int) { run(p, src[i]) })
	sym.Assert(true, "reached")
}

func eqRows(a, b [][]string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return false
			}
		}
	}
	return true
}

func eqErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Error() == b.Error()
}

func eqAny(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !h.EqVal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// the example parsers live in package variables
func examples(c int) {
	switch c {
	case 0:
		s, t := h.Source("s", "??"), h.Source("t", "??")
		r0, e0 := csv.Parse(t)
		csv.Parse(s)
		r1, e1 := csv.Parse(t)
		sym.Assert(eqErr(e0, e1) && eqRows(r0, r1), "csv.Parse does not depend on earlier calls")
	case 1:
		s, t := h.Source("s", "?+?"), h.Source("t", "#??")
		r0, e0 := formula.Parse(t)
		formula.Parse(s)
		r1, e1 := formula.Parse(t)
		sym.Assert(eqErr(e0, e1) && r0 == r1, "formula.Parse does not depend on earlier calls")
	case 2:
		s, t := h.Source("s", "?+?"), h.Source("t", "#?#")
		r0, e0 := torpn.Parse(t)
		torpn.Parse(s)
		r1, e1 := torpn.Parse(t)
		sym.Assert(eqErr(e0, e1) && eqAny(r0, r1), "torpn.Parse does not depend on earlier calls")
	case 3:
		src := []string{h.Source("s", "??"), h.Source("t", "\"?")}
		sym.Concurrent(2, func(i int) { csv.Parse(src[i]) })
	case 4:
		src := []string{h.Source("s", "#??"), h.Source("t", "(?)")}
		sym.Concurrent(2, func(i int) { formula.Parse(src[i]) })
	case 5:
		src := []string{h.Source("s", "#??"), h.Source("t", "(?)")}
		sym.Concurrent(2, func(i int) { torpn.Parse(src[i]) })
	}
	sym.Assert(true, "reached")
}

func init() {
	n := len(h.Items)
	sym.Check("history", n, "every matcher, combinator, transformer and lexer: a first parse of one arbitrary source, then a second parse of another compared with a new parser's; sources of 2..3 arbitrary bytes, or date and number patterns with arbitrary digits", history)
	sym.Check("again", n, "two parses of the same source with one parser", again)
	sym.Check("sharing", n, "no write of a parse reaches memory allocated before it, unless under a lock, Once or atomic", sharing)
	sym.Check("examples", 6, "the csv, formula and RPN parsers (package variables): independence and sharing", examples)
}
