// C36: parsing at a position is parsing the rest of the source.
package main

import (
	"strconv"

	. "github.com/shellyln/takenoco/base"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

// leftward parsers look at what is before the position
var leftward = map[string]bool{
	"WordBoundary": true, "UnicodeWordBoundary": true, "lookaround": true, "Error": true,
	"Match": true, "BaseParser": true, // they look at earlier nodes
}

// fixed parsers put positions of their own into nodes
var fixed = map[string]bool{"Zero": true, "Prepend": true, "Push": true, "PushPrepend": true, "ProductionRule": true}

type outcome struct {
	out ParserContext
	err error
	pan bool
}

func run(p ParserFn, s string, pos, below int) (o outcome) {
	defer func() {
		if recover() != nil {
			o.pan = true
		}
	}()
	o.out, o.err = p(h.At(s, pos, below))
	return
}

func eqErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Error() == b.Error()
}

// shifted compares nodes whose positions differ by k.
func shifted(a, b AstSlice, k int, placed bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if l, ok := x.Value.(AstSlice); ok {
			m, ok := y.Value.(AstSlice)
			if !ok || !shifted(l, m, k, placed) {
				return false
			}
			x.Value, y.Value = nil, nil
		} else if x.Type == AstType_Any {
			x.Value, y.Value = nil, nil // dates have no position
			x.Position -= k
		}
		if !placed || x.ClassName == ":base:Group" || x.ClassName == "g" || x.Value == "" {
			x.SourcePosition, y.SourcePosition = SourcePosition{}, SourcePosition{}
		} else {
			x.Position += k
		}
		if !h.EqAst(x, y) {
			return false
		}
	}
	return true
}

func decide(mk func() ParserFn, pre, s string, below1, below2 int, placed bool) {
	a := run(mk(), s, 0, below1)
	b := run(mk(), pre+s, len(pre), below2)
	sym.Assert(a.pan == b.pan, "a panic does not depend on what is before")
	if a.pan {
		return
	}
	sym.Assert(a.out.MatchStatus == b.out.MatchStatus, "the verdict does not depend on what is before")
	sym.Assert(eqErr(a.err, b.err), "the error does not depend on what is before")
	if a.out.MatchStatus == MatchStatus_Error {
		sym.Cover("error")
		return
	}
	sym.Assert(b.out.Position == a.out.Position+len(pre), "the same text is consumed")
	if a.out.MatchStatus == MatchStatus_Matched {
		sym.Assert(a.out.Length == b.out.Length, "the same length is reported")
		sym.Assert(shifted(a.out.AstStack[below1:], b.out.AstStack[below2:], len(pre), placed), "the same nodes are made, elsewhere")
		sym.Cover("matched")
	} else {
		sym.Cover("unmatched")
	}
}

func items() (r []h.Item) {
	for _, it := range h.Items {
		if !leftward[it.Name] {
			r = append(r, it)
		}
	}
	return
}

var composed = []h.Item{
	{Name: "choice", One: "????", Two: "ab?c", Mk: func() ParserFn {
		return First(FlatGroup(Seq("a"), Seq("b"), Any()), Group(Alpha(), ZeroOrMoreTimes(Number())), SeqI("A?"))
	}},
	{Name: "nested", One: "((?)?", Two: "(?))?", Mk: func() ParserFn {
		var p ParserFn
		p = First(Group(Seq("("), ZeroOrMoreTimes(Indirect(func() ParserFn { return p })), Seq(")")), Alnum())
		return OneOrMoreTimes(p)
	}},
	{Name: "ahead", One: "???", Two: "a??", Mk: func() ParserFn {
		return FlatGroup(LookAhead(Any(), Alpha()), ZeroOrMoreTimes(LookAheadN(Seq("x")), Any()), First(End(), Seq("xx")))
	}},
	{Name: "behind within", One: "???", Two: "a??", Mk: func() ParserFn {
		return FlatGroup(Any(), Alpha(), LookBehind(1, 1, Seq("b")), LookBehindN(1, 2, Seq("c")))
	}},
	{Name: "word within", One: "???", Two: "a??", Mk: func() ParserFn {
		return FlatGroup(Alpha(), WordBoundary(), OneOrMoreTimes(Any()))
	}},
	{Name: "fixed number", One: "#?.?", Two: "0x??", Mk: func() ParserFn {
		return FlatGroup(Repeat(Times{Min: 1, Max: 3}, HexNumber()), Trans(ZeroOrMoreTimes(CharClass(".", ",", "x")), Concat), Number())
	}},
}

func init() {
	its := append(items(), composed...)
	n := len(its)
	k := 2
	if sym.Thorough() {
		k = 4
	}
	sym.Check("patterns", 2*n, "49 parsers on texts they are made for, after 1 or 2 arbitrary bytes against from the start", func(c int) {
		it := its[c/2]
		src := it.One
		if c%2 == 1 {
			src = it.Two
		}
		decide(it.Mk, sym.String("pre", 1+c/2%2), h.Source("s", src), c%3, (c+1)%4, !fixed[it.Name])
	})
	for i := 1; i <= k; i++ {
		sym.Check("bytes"+strconv.Itoa(i), n, "the same parsers on all sources of "+strconv.Itoa(i)+" bytes", func(c int) {
			it := its[c]
			decide(it.Mk, sym.String("pre", 1), sym.String("s", i), 1, 2, !fixed[it.Name])
		})
	}
}
