// C05: an error stops every enclosing combinator at once and is reported as
// it is; without one there is no error.
package main

import (
	"errors"

	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

// combinators around a parser x, with further arbitrary parsers next to it
const (
	cFlatFirst = iota // FlatGroup(x, c)
	cFlatLast         // FlatGroup(c, x)
	cGroup            // Group(x, c)
	cFirst            // First(x, c)
	cFirstLast        // First(c, x)
	cRepeat           // Repeat{0,2}(x)
	cRepeatC          // Repeat{0,2}(c, x)
	cOnce             // Once(x)
	cOpt              // ZeroOrOnce(x)
	cMore             // OneOrMoreTimes(x)
	cAhead            // LookAhead(x)
	cAheadN           // LookAheadN(x)
	cBehind           // LookBehind(0, 1, x)
	cBehindN          // LookBehindN(0, 1, x)
	cTrans            // Trans(x, t1, t2)
	cIndirect         // Indirect(x)
	cIf               // If(true, x, c)
	cFn               // BaseParser(x) with callbacks that may fail
	combinators
)

type run struct {
	e      *h.Env
	trs    int   // transformer calls
	failed bool  // a transformer or callback failed
	err    error // its error
	ran    bool  // something ran after an error
	nilErr bool
	modes  int
}

// over tells whether an error was reported before.
func (r *run) over() bool {
	if r.failed {
		return true
	}
	for _, c := range r.e.Calls {
		if c.St >= h.Err {
			return true
		}
	}
	return false
}

func (r *run) child(id int) ParserFn {
	c := r.e.Child(id, 1)
	return func(ctx ParserContext) (ParserContext, error) {
		if r.over() {
			r.ran = true
		}
		return c(ctx)
	}
}

func (r *run) trans(ctx ParserContext, asts AstSlice) (AstSlice, error) {
	if r.over() {
		r.ran = true
	}
	r.trs++
	if r.trs <= 3 && sym.Decide(sym.Bool("t"+string(rune('0'+r.trs)))) {
		r.failed = true
		r.err = errors.New("transformer")
		return asts, r.err
	}
	return asts, nil
}

func (r *run) callback(n, bottom int, ctx ParserContext) (ParserContext, error) {
	if r.over() {
		r.ran = true
	}
	r.trs++
	if r.trs > 3 {
		return ctx, nil
	}
	switch sym.Choose("f"+string(rune('0'+r.trs)), 4) {
	case 1:
		r.failed = true
		r.err = errors.New("callback")
		return ctx, r.err
	case 2:
		r.failed = true
		r.err = errors.New("callback with status")
		ctx.MatchStatus = MatchStatus_Error
		return ctx, r.err
	case 3:
		ctx.MatchStatus = MatchStatus_Unmatched
	}
	return ctx, nil
}

func (r *run) wrap(kind, id int, x ParserFn) ParserFn {
	switch kind {
	case cFlatFirst:
		return FlatGroup(x, r.child(id))
	case cFlatLast:
		return FlatGroup(r.child(id), x)
	case cGroup:
		return Group(x, r.child(id))
	case cFirst:
		return First(x, r.child(id))
	case cFirstLast:
		return First(r.child(id), x)
	case cRepeat:
		return Repeat(Times{Min: 0, Max: 2}, x)
	case cRepeatC:
		return Repeat(Times{Min: 0, Max: 2}, r.child(id), x)
	case cOnce:
		return Once(x)
	case cOpt:
		return ZeroOrOnce(x)
	case cMore:
		return OneOrMoreTimes(x)
	case cAhead:
		return LookAhead(x)
	case cAheadN:
		return LookAheadN(x)
	case cBehind:
		return LookBehind(0, 1, x)
	case cBehindN:
		return LookBehindN(0, 1, x)
	case cTrans:
		return Trans(x, r.trans, r.trans)
	case cIndirect:
		return Indirect(func() ParserFn { return x })
	case cIf:
		return If(true, x, r.child(id))
	default:
		return BaseParser("custom", r.callback, []interface{}{Times{Min: 0, Max: 2}}, []ParserFn{x}, []TransformerFn{r.trans})
	}
}

func nest(modes, calls int, kinds ...int) {
	r := &run{e: &h.Env{MaxCalls: calls, Modes: modes}}
	// as every parser of the library: an error value comes with error status
	leaf := r.child(0)
	x := LightBaseParser("leaf", func(ctx ParserContext) (ParserContext, error) { return leaf(ctx) })
	if kinds[0] != cIf {
		x = leaf
	}
	consuming := true
	for i, k := range kinds {
		// an unlimited repetition of a body that can match the empty text
		// does not terminate: bounded instead
		if k == cMore && !consuming {
			k = cRepeat
		}
		if k == cRepeat || k == cRepeatC || k == cOpt || k >= cAhead && k <= cBehindN || k == cFn {
			consuming = false
		}
		x = r.wrap(k, i+1, x)
	}
	ctx, s := h.Begin(1)
	ctx.Position = 1
	s.Pos = 1
	out, err := x(ctx)
	judge(r, out, err)
}

func judge(r *run, out ParserContext, err error) {
	var want error
	n := 0
	for _, c := range r.e.Calls {
		if c.St >= h.Err {
			n++
			want = c.Err
		}
	}
	if r.failed {
		n++
		want = r.err
	}
	sym.Assert(!r.ran, "no parser or transformer is run after an error")
	sym.Assert(n <= 1, "one error ends the parse")
	if n == 0 {
		sym.Assert(err == nil, "no error without an error")
		sym.Assert(out.MatchStatus == MatchStatus_Matched || out.MatchStatus == MatchStatus_Unmatched, "no error status without an error")
		sym.Cover("no error")
		return
	}
	sym.Cover("error")
	sym.Assert(out.MatchStatus == MatchStatus_Error, "an error ends the parse with error status")
	sym.Assert(err == want, "the parse returns the error that was reported")
}

// The library's own error parser, and transformers in the library.
func library(kind int) {
	r := &run{e: &h.Env{MaxCalls: 4, Modes: 2}}
	x := Error("own error")
	if kind >= combinators {
		x = Trans(r.child(90), TransformError("own error"))
		kind -= combinators
	}
	ctx, _ := h.Begin(0)
	ctx.Position = 1
	p := FlatGroup(r.wrap(kind, 1, x), r.child(50))
	out, err := p(ctx)
	own := out.MatchStatus == MatchStatus_Error
	if own && !r.failed {
		sym.Assert(err != nil && err.Error() == "own error", "Error's message is reported")
		sym.Cover("own error")
	}
	if err != nil {
		sym.Assert(own, "an error comes with error status")
	}
	if err == nil {
		sym.Assert(!own, "error status comes with the error")
	}
}

func init() {
	sym.Check("single", combinators, "every combinator around an arbitrary parser with arbitrary neighbours, six ways to fail or not", func(c int) {
		nest(6, 5, c)
	})
	sym.Check("double", combinators*combinators, "every combinator in every combinator", func(c int) {
		nest(4, 5, c%combinators, c/combinators)
	})
	sym.Check("triple", combinators*combinators*combinators, "three levels of combinators", func(c int) {
		nest(3, 4, c%combinators, c/combinators%combinators, c/combinators/combinators)
	})
	sym.Check("library", 2*combinators, "Error and TransformError inside every combinator", library)
}
