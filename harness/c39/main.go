// C39: a failed parse tells where it failed.
package main

import (
	"errors"
	"strconv"
	"strings"

	"github.com/shellyln/takenoco/_examples/csv"
	"github.com/shellyln/takenoco/_examples/formula"
	"github.com/shellyln/takenoco/_examples/torpn"
	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

// combinators around a parser x, with further arbitrary parsers next to it
const combinators = 17

type run struct {
	e     *h.Env
	trs   int // calls of transformers and callbacks
	place int // of the error of one of them
	err   error
}

// watch records where x stood when it had matched.
func watch(x ParserFn, end *int) ParserFn {
	return func(ctx ParserContext) (ParserContext, error) {
		out, err := x(ctx)
		if err == nil && out.MatchStatus == MatchStatus_Matched {
			*end = out.Position
		}
		return out, err
	}
}

// fails is a free choice at each of the first calls.
func (r *run) fails(place int) bool {
	r.trs++
	if r.trs <= 3 && sym.Decide(sym.Bool("t"+strconv.Itoa(r.trs))) {
		r.err, r.place = errors.New("transformer"), place
		return true
	}
	return false
}

func (r *run) trans(x ParserFn) ParserFn {
	end := 0
	t := func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		if r.fails(end) {
			return asts, r.err
		}
		return asts, nil
	}
	last := func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
		if r.fails(end) {
			return nil, r.err
		}
		return asts, nil
	}
	return Trans(watch(x, &end), t, last)
}

func (r *run) callback(n, bottom int, ctx ParserContext) (ParserContext, error) {
	if r.fails(ctx.Position) {
		return ctx, r.err
	}
	return ctx, nil
}

func (r *run) wrap(kind, id int, x ParserFn) ParserFn {
	c := r.e.Child(id, 1)
	switch kind {
	case 0:
		return FlatGroup(x, c)
	case 1:
		return FlatGroup(c, x)
	case 2:
		return Group(c, x, c)
	case 3:
		return First(x, c)
	case 4:
		return First(c, x)
	case 5:
		return Repeat(Times{Min: 0, Max: 2}, x)
	case 6:
		return Repeat(Times{Min: 1, Max: 2}, c, x)
	case 7:
		return Once(x)
	case 8:
		return ZeroOrOnce(c, x)
	case 9:
		return LookAhead(c, x)
	case 10:
		return LookAheadN(c, x)
	case 11:
		return LookBehind(0, 2, x)
	case 12:
		return LookBehindN(1, 2, c, x)
	case 13:
		return r.trans(x)
	case 14:
		return Indirect(func() ParserFn { return x })
	case 15:
		return Match(1)(Case{If: TopIsStr("none")}, Case{If: func(AstSlice) bool { return true }, Let: nil})
	default:
		return BaseParser("custom", r.callback, []interface{}{Times{Min: 0, Max: 2}}, []ParserFn{x}, nil)
	}
}

func (r *run) judge(out ParserContext, err error) {
	n := len(r.e.Calls)
	switch {
	case r.err != nil:
		sym.Assert(err == r.err && out.MatchStatus == MatchStatus_Error, "a transformer's error ends the parse")
		sym.Assert(out.Position == r.place, "at the end of the text its parser consumed")
		sym.Cover("transformer")
	case n > 0 && r.e.Calls[n-1].St >= h.Err:
		c := r.e.Calls[n-1]
		sym.Assert(err == c.Err && out.MatchStatus == MatchStatus_Error, "an error ends the parse")
		sym.Assert(out.Position == c.Pos+c.Adv, "at the place where it was raised")
		sym.Cover("error")
	default:
		sym.Assert(err == nil, "no error")
	}
}

func nest(modes, calls int, kinds ...int) {
	r := &run{e: &h.Env{MaxCalls: calls, Modes: modes}}
	x := r.e.Child(0, 1)
	for i, k := range kinds {
		x = r.wrap(k, i+1, x)
	}
	ctx, _ := h.Begin(1)
	ctx.Position = 2
	r.judge(x(ctx))
}

// own: the library's Error, behind text of free length.
func own(kinds ...int) {
	r := &run{e: &h.Env{MaxCalls: 4, Modes: 2}}
	at := -1
	x := FlatGroup(r.e.Child(0, 1), func(ctx ParserContext) (ParserContext, error) {
		at = ctx.Position
		return Error("own")(ctx)
	})
	for i, k := range kinds {
		x = r.wrap(k, i+1, x)
	}
	ctx, _ := h.Begin(1)
	ctx.Position = 2
	out, err := x(ctx)
	if r.err == nil && at >= 0 {
		sym.Assert(err != nil && err.Error() == "own", "the error ends the parse")
		sym.Assert(out.Position == at, "at the place where it was raised")
		sym.Cover("own error")
	}
}

// located tells whether the error's text ends with line, column and excerpt
// of the place (which C23 decides).
func located(err error, s string, place int) {
	sym.Assert(err != nil, "an error")
	pos := GetLineAndColPosition(s, SourcePosition{Position: place}, 4)
	text, want := err.Error(), "\n --> Line "+strconv.Itoa(pos.Line)+", Col "+strconv.Itoa(pos.Col)+"\n"+pos.ErrSource
	sym.Assert(len(text) > len(want), "there is a message before")
	sym.Assert(strings.HasSuffix(text, want), "the error's text gives the place")
}

func table(s string) {
	_, err := csv.Parse(s)
	switch at := h.CsvPlace(s); at {
	case h.Fine:
		sym.Assert(err == nil, "a table")
	case h.NoMatch:
		located(err, s, 0)
		sym.Cover("no table")
	default:
		located(err, s, at)
		sym.Cover("unterminated")
	}
}

func expression(s string) {
	_, ferr := formula.Parse(s)
	_, rerr := torpn.Parse(s)
	for i, err := range []error{ferr, rerr} {
		switch at := h.FormulaPlace(s, i == 0); at {
		case h.Fine:
			sym.Assert(err == nil, "an expression")
		case h.NoMatch:
			located(err, s, 0)
			sym.Cover("no expression")
		default:
			located(err, s, at)
			sym.Cover("place")
		}
	}
}

var tables = []string{"", "?", "??", "???", "\"@", "\"@@", "a,\"@", "\"a\"\"@", "\"@\"@", "a\n\"@", "\"a\n@", "x,y\r\n\"@,\r\n\"", "\t\"\t@", "\"a\"@\"b", "\n\n@\"", "\"\"\"@\"\"", "\xe4\xb8\xad,\"?", "a\"@", "\"a\"b@"}

var expressions = []string{
	"", "?", "??", "???", "do", "dod?", "do?", "(d", "(do", "(d?", "((d)", "(do(d", "do(d?d", "-?", "--", "do-", "do-?", "(-)", "()", "(?)", "do()", "do(?", "d d", "sdo", " d os", "\nd+\n(\n",
	"\t(\td\t", "d/0", "(d/0)", "d/0od", "(d/0)od", "(d/(do d", "d/(n-n)s", "do(d/0", "99999999999999999999 od", "(do9999999999999999999d)", "1o-922337203685477580d", "-922337203685477580d o", "d_?", "da", "do(d)d", "d)d", "(d))", "d\r\no\r\n", "-(-(d", "do(d o) o",
}

func init() {
	sym.Check("single", combinators, "every combinator around an arbitrary parser with arbitrary neighbours, six ways to fail or not", func(c int) { nest(6, 5, c) })
	sym.Check("double", combinators*combinators, "every combinator in every combinator", func(c int) { nest(4, 4, c%combinators, c/combinators) })
	sym.Check("triple", combinators*combinators*3, "three levels of combinators, the outermost a sequence, a choice or a look-behind", func(c int) {
		nest(3, 4, c%combinators, c/combinators%combinators, []int{1, 4, 11}[c/combinators/combinators])
	})
	sym.Check("own", combinators*combinators, "Error behind text of any length inside every pair of combinators", func(c int) { own(c%combinators, c/combinators) })
	sym.Check("tables", len(tables), "csv.Parse on "+strconv.Itoa(len(tables))+" families of texts with 1 to 3 arbitrary bytes", func(c int) { table(h.Pattern("s", tables[c])) })
	sym.Check("expressions", len(expressions), "formula.Parse and torpn.Parse on "+strconv.Itoa(len(expressions))+" families of texts with arbitrary digits, operators, blanks and bytes", func(c int) { expression(h.Build("s", expressions[c])) })
}
