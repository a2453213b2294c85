// C22: tracing is transparent, balanced and scoped.
package main

import (
	"errors"

	. "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	. "github.com/shellyln/takenoco/string"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

// recorder logs what a tracer is told.
type recorder struct{ log []event }

type event struct {
	tracer string
	scope  string
	kind   string
	no     int
	pos    int
	status MatchStatus
	nodes  AstSlice
	tag    interface{}
	err    error
	r      interface{}
}

type MatchStatus = MatchStatusType

func (r *recorder) add(tracer, scope, kind string, no int, ctx *ParserContext, err error, p interface{}) {
	e := event{tracer: tracer, scope: scope, kind: kind, no: no, err: err, r: p, pos: ctx.Position, tag: ctx.Tag, nodes: h.Clone(ctx.AstStack)}
	if kind == "after" {
		e.status = ctx.MatchStatus
	}
	r.log = append(r.log, e)
}

type tracer struct {
	name string
	to   *recorder
}

func (t tracer) Before(scope string, no int, class string, ctx *ParserContext) {
	t.to.add(t.name, scope, "before", no, ctx, nil, nil)
}
func (t tracer) After(scope string, no int, class string, ctx *ParserContext, err error) {
	t.to.add(t.name, scope, "after", no, ctx, err, nil)
}
func (t tracer) Panic(scope string, no int, class string, ctx *ParserContext, r interface{}) {
	t.to.add(t.name, scope, "panic", no, ctx, nil, r)
}

// A world builds the same parser traced or untraced. Untraced, every parser is
// wrapped so that its calls are logged as a tracer should log them.
type world struct {
	traced bool
	rec    *recorder
	child  func(id int) ParserFn
	name   []string // the tracers in scope
	scope  []string
}

// p marks a parser invocation.
func (w *world) p(f ParserFn) ParserFn {
	if w.traced || len(w.scope) == 0 {
		return f
	}
	name, scope := w.name[len(w.name)-1], w.scope[len(w.scope)-1]
	return func(ctx ParserContext) (ParserContext, error) {
		w.rec.add(name, scope, "before", 0, &ctx, nil, nil)
		defer func() {
			if r := recover(); r != nil {
				w.rec.add(name, scope, "panic", 0, &ctx, nil, r)
				panic(r)
			}
		}()
		out, err := f(ctx)
		w.rec.add(name, scope, "after", 0, &out, err, nil)
		return out, err
	}
}

// trace is DebugTrace around what build makes.
func (w *world) trace(scope, name string, build func() []ParserFn) ParserFn {
	if w.traced {
		d := DebugTrace(scope, tracer{name, w.rec})
		return d(build()...)
	}
	outer := ""
	if len(w.scope) > 0 {
		outer = w.scope[len(w.scope)-1]
	}
	w.scope = append(w.scope, outer+"/"+scope)
	w.name = append(w.name, name)
	ps := build()
	r := w.p(FlatGroup(ps...))
	w.scope = w.scope[:len(w.scope)-1]
	w.name = w.name[:len(w.name)-1]
	return r
}

// c is an arbitrary child.
func (w *world) c(id int) ParserFn { return w.p(LightBaseParser("child", w.light(id))) }

func (w *world) light(id int) LightParserImplFn {
	f := w.child(id)
	return func(ctx ParserContext) (ParserContext, error) { return f(ctx) }
}

type fns []ParserFn

var grammars = []func(w *world) ParserFn{
	func(w *world) ParserFn {
		return w.trace("a", "t", func() []ParserFn { return fns{w.c(1)} })
	},
	func(w *world) ParserFn {
		return w.trace("a", "t", func() []ParserFn { return fns{w.c(1), w.c(2)} })
	},
	func(w *world) ParserFn { // traced between untraced
		return FlatGroup(w.c(1), w.trace("a", "t", func() []ParserFn { return fns{w.c(2)} }), w.c(3))
	},
	func(w *world) ParserFn { // nested scopes, siblings before and after
		return w.trace("a", "t", func() []ParserFn {
			return fns{w.c(1), w.trace("b", "u", func() []ParserFn { return fns{w.c(2)} }), w.c(3)}
		})
	},
	func(w *world) ParserFn { // three scopes, one tracer used twice
		return FlatGroup(w.trace("a", "t", func() []ParserFn {
			return fns{w.trace("b", "u", func() []ParserFn {
				return fns{w.trace("c", "t", func() []ParserFn { return fns{w.c(1)} })}
			}), w.c(2)}
		}), w.c(3))
	},
	func(w *world) ParserFn { // two scopes after one another
		return First(
			w.trace("a", "t", func() []ParserFn { return fns{w.c(1)} }),
			w.trace("b", "u", func() []ParserFn { return fns{w.c(2)} }),
			w.c(3),
		)
	},
	func(w *world) ParserFn {
		return w.trace("a", "t", func() []ParserFn { return fns{w.p(First(w.c(1), w.c(2)))} })
	},
	func(w *world) ParserFn {
		return w.trace("a", "t", func() []ParserFn { return fns{w.p(Repeat(Times{Min: 1, Max: 2}, w.c(1)))} })
	},
	func(w *world) ParserFn {
		return w.trace("a", "t", func() []ParserFn { return fns{w.p(LookAheadN(w.c(1))), w.c(2)} })
	},
	func(w *world) ParserFn {
		return w.trace("a", "t", func() []ParserFn { return fns{w.p(Trans(w.c(1), failing)), w.c(2)} })
	},
	func(w *world) ParserFn {
		return w.trace("a", "t", func() []ParserFn { return fns{w.p(Group(w.c(1), w.c(2)))} })
	},
	func(w *world) ParserFn { // an empty scope
		return FlatGroup(w.trace("a", "t", func() []ParserFn { return nil }), w.c(1))
	},
	func(w *world) ParserFn { // scopes with empty names, a scope within itself
		return w.trace("a", "t", func() []ParserFn {
			return fns{w.trace("", "u", func() []ParserFn {
				return fns{w.c(1), w.trace("a", "u", func() []ParserFn { return fns{w.c(2)} })}
			})}
		})
	},
	func(w *world) ParserFn { // no name at all
		return w.trace("", "t", func() []ParserFn {
			return fns{w.trace("", "t", func() []ParserFn { return fns{w.c(1)} }), w.c(2)}
		})
	},
	func(w *world) ParserFn { // names that look like paths
		return w.trace("/", "t", func() []ParserFn {
			return fns{w.trace("a/b", "t", func() []ParserFn { return fns{w.c(1)} }), w.trace("..", "u", func() []ParserFn { return fns{w.c(2)} })}
		})
	},
	func(w *world) ParserFn { // built when first used, after the scope was left
		return FlatGroup(w.trace("a", "t", func() []ParserFn {
			return fns{w.p(Indirect(func() ParserFn {
				s, n := w.scope, w.name
				w.scope, w.name = nil, nil
				f := w.c(1)
				w.scope, w.name = s, n
				return f
			}))}
		}), w.c(2))
	},
}

func failing(ctx ParserContext, asts AstSlice) (AstSlice, error) {
	if sym.Bool("trans") {
		return nil, errors.New("trans")
	}
	return asts, nil
}

type trouble struct{ s string }

func (t *trouble) Error() string { return t.s }

// what a child panics with, if it does
var boom = []interface{}{nil, "boom", &trouble{"boom"}}

// child is an arbitrary parser that may also panic.
func child(e *h.Env, panics bool) func(id int) ParserFn {
	return func(id int) ParserFn {
		f := e.Child(id, 1)
		return func(ctx ParserContext) (ParserContext, error) {
			if panics {
				k := len(e.Calls)
				if k < 3 {
					if v := boom[sym.Choose("panic"+string(rune('0'+k)), len(boom))]; v != nil {
						panic(v)
					}
				}
			}
			return f(ctx)
		}
	}
}

// run calls f, which may panic.
func run(f ParserFn, ctx ParserContext) (out ParserContext, err error, r interface{}) {
	defer func() { r = recover() }()
	out, err = f(ctx)
	return
}

func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Error() == b.Error()
}

func same(a, b ParserContext) bool {
	return a.Position == b.Position && a.Length == b.Length && a.Quantity == b.Quantity && a.MatchStatus == b.MatchStatus &&
		a.Tag == b.Tag && a.Str == b.Str && h.EqAsts(a.AstStack, b.AstStack)
}

func equal(a, b event) bool {
	return a.tracer == b.tracer && a.scope == b.scope && a.kind == b.kind && a.pos == b.pos && a.status == b.status &&
		a.tag == b.tag && sameErr(a.err, b.err) && a.r == b.r && h.EqAsts(a.nodes, b.nodes)
}

// balanced checks the nesting of the events of all tracers.
func balanced(log []event) {
	var open []event
	for _, e := range log {
		if e.kind == "before" {
			for _, o := range open { // no parser here is recursive
				sym.Assert(o.no != e.no, "a number identifies a parser")
			}
			open = append(open, e)
			continue
		}
		sym.Assert(len(open) > 0, "every end has a beginning")
		b := open[len(open)-1]
		open = open[:len(open)-1]
		sym.Assert(b.no == e.no && b.scope == e.scope && b.tracer == e.tracer, "invocations are nested")
	}
	sym.Assert(len(open) == 0, "every beginning has an end")
}

// numbered checks that one number identifies one parser: the parsers here that
// are told apart by their scopes or tracers have different numbers.
func numbered(log []event) {
	for i, a := range log {
		for _, b := range log[:i] {
			if a.scope != b.scope || a.tracer != b.tracer {
				sym.Assert(a.no != b.no, "a number identifies a parser")
			}
		}
	}
}

func decide(g func(w *world) ParserFn, panics bool, calls int) {
	var outs [2]ParserContext
	var errs [2]error
	var pan [2]interface{}
	var recs [2]recorder
	for i := range outs {
		e := &h.Env{MaxCalls: calls, Modes: 3}
		w := &world{traced: i == 1, rec: &recs[i], child: child(e, panics)}
		before := w.c(8)
		f := g(w)
		after := w.c(9)
		ctx, _ := h.Begin(1)
		outs[i], errs[i], pan[i] = run(f, ctx)
		n := len(recs[i].log)
		run(before, ctx)
		run(after, ctx)
		sym.Assert(len(recs[i].log) == n, "parsers built before and afterwards are not traced")
	}
	sym.Assert(pan[0] == pan[1], "a panic continues")
	sym.Assert(sameErr(errs[0], errs[1]), "a traced parser returns the same error")
	sym.Assert(same(outs[0], outs[1]), "a traced parser returns the same result")
	balanced(recs[1].log)
	numbered(recs[1].log)
	sym.Assert(len(recs[0].log) == len(recs[1].log), "one pair of events for each invocation")
	for i, e := range recs[1].log {
		sym.Assert(equal(e, recs[0].log[i]), "an event carries its parser's scope and result")
	}
	if pan[0] != nil {
		sym.Cover("panic")
	}
}

// concrete grammars on arbitrary sources
var texts = []func() ParserFn{
	func() ParserFn { return OneOrMoreTimes(Number()) },
	func() ParserFn {
		return First(FlatGroup(Seq("a"), CharClass("b", "bc")), FlatGroup(ZeroOrMoreTimes(Alpha()), End()))
	},
	func() ParserFn { return Trans(extra.IntegerNumberStr(), ParseInt) },
	func() ParserFn { return FlatGroup(LookAheadN(Seq("x")), Any(), LookBehind(1, 1, Any()), End()) },
	func() ParserFn { return Group(ZeroOrOnce(Any()), Error("stop")) },
	func() ParserFn { return extra.AsciiIdentifierStr() },
}

func text(mk func() ParserFn, n int) { textOn(mk, sym.String("s", n)) }

func textOn(mk func() ParserFn, s string) {
	var rec recorder
	plain := FlatGroup(mk())
	traced := DebugTrace("x", tracer{"t", &rec})(mk())
	ctx := h.At(s, 0, 1)
	a, err := plain(ctx)
	b, err2 := traced(h.At(s, 0, 1))
	sym.Assert(sameErr(err, err2), "a traced parser returns the same error")
	sym.Assert(same(a, b), "a traced parser returns the same result")
	k := len(rec.log)
	sym.Assert(k >= 2, "the invocation is seen")
	e := rec.log[k-1]
	sym.Assert(e.kind == "after" && e.pos == b.Position && e.status == b.MatchStatus && h.EqAsts(e.nodes, b.AstStack), "the outermost result is seen")
	plain(ctx)
	sym.Assert(len(rec.log) == k, "the untraced parser stays untraced")
}

// ctor is a DebugTrace used the documented way within a function literal, the
// result of which is used several times
func reuse(n int) {
	var rec recorder
	e := &h.Env{MaxCalls: 4, Modes: 3}
	shared := LightBaseParser("shared", LightParserImplFn(e.Child(1, 1)))
	p := DebugTrace("x", tracer{"t", &rec})(shared, LightBaseParser("own", LightParserImplFn(e.Child(2, 1))))
	for i := 0; i < n; i++ {
		ctx, _ := h.Begin(1)
		k, calls := len(rec.log), len(e.Calls)
		p(ctx)
		balanced(rec.log[k:])
		own := 0
		for _, c := range e.Calls[calls:] {
			if c.Child == 2 {
				own++
			}
		}
		sym.Assert(len(rec.log)-k == 2+2*own, "every use is traced, and a parser built outside is not")
	}
}

func init() {
	calls, max := 4, 4
	if sym.Thorough() {
		calls, max = 6, 6
	}
	sym.Check("children", 2*len(grammars), "16 grammars with nested, neighbouring and empty scopes over arbitrary children, up to 4 (thorough 6) calls, with and without panics", func(c int) {
		decide(grammars[c/2], c%2 == 1, calls)
	})
	sym.Check("texts", len(texts)*(max+1), "6 string grammars on all sources of 0..4 (thorough 6) bytes", func(c int) {
		text(texts[c%len(texts)], c/len(texts))
	})
	sym.Check("reuse", 1, "a traced parser used three times", func(int) { reuse(3) })
}
