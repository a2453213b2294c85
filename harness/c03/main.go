// C03: Repeat applies its children as often as they match, within its bounds.
package main

import (
	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

const (
	repeat = iota
	zeroOrOnce
	zeroOrMore
	oneOrMore
	once
	kinds
)

func repetition(kind, nc, rounds, stack, off int) {
	e := &h.Env{MaxCalls: nc * rounds, Modes: 3}
	var ps []ParserFn
	for i := 0; i < nc; i++ {
		ps = append(ps, e.Child(i, (i+off)%3))
	}
	lo, hi := 0, 0
	var p ParserFn
	switch kind {
	case repeat:
		lo = sym.Concrete(sym.Int("min", -2, rounds+1))
		hi = sym.Concrete(sym.Int("max", -2, rounds+1))
		p = Repeat(Times{Min: lo, Max: hi}, ps...)
	case zeroOrOnce:
		lo, hi = 0, 1
		p = ZeroOrOnce(ps...)
	case zeroOrMore:
		lo, hi = 0, -1
		p = ZeroOrMoreTimes(ps...)
	case oneOrMore:
		lo, hi = 1, -1
		p = OneOrMoreTimes(ps...)
	case once:
		lo, hi = 1, 1
		p = Once(ps...)
	}
	ctx, s := h.Begin(stack)
	fallback := &h.Env{Name: "f", MaxCalls: 1, Modes: 2}
	after := &h.Env{Name: "a", MaxCalls: 1, Modes: 2}
	p = First(FlatGroup(p, after.Child(80, 1)), fallback.Child(90, 1))
	out, err := p(ctx)
	judge(e, after, fallback, nc, lo, hi, s, out, err)
}

func judge(e, after, fallback *h.Env, nc, lo, hi int, s h.State, out ParserContext, err error) {
	done, k := 0, 0
	r := s
	stopped := false
	for !stopped && (hi < 0 || done < hi) {
		t := r
		for i := 0; i < nc; i++ {
			sym.Assert(k < len(e.Calls), "the repetition goes on as long as its children match")
			c := e.Calls[k]
			c.Saw(i, t, "repetition")
			k++
			if c.St == h.Err {
				sym.Assert(k == len(e.Calls), "nothing is run after an error")
				sym.Assert(out.MatchStatus == MatchStatus_Error && err == c.Err, "an error ends the repetition")
				sym.Cover("error")
				return
			}
			if c.St == h.Unm {
				stopped = true
				break
			}
			t = t.After(k-1, c)
		}
		if !stopped {
			r = t
			done++
		}
	}
	sym.Assert(k == len(e.Calls), "the repetition stops at its maximum or at the first failing round")
	sym.Assert(err == nil, "no error without an error")
	if lo < 0 || done >= lo {
		sym.Cover("enough rounds")
		sym.Assert(len(after.Calls) == 1, "a repetition with enough rounds matches")
		a := after.Calls[0]
		a.Saw(80, r, "after the repetition")
		if a.St == h.OK {
			sym.Assert(len(fallback.Calls) == 0, "no alternative is run after a match")
			sym.Assert(out.MatchStatus == MatchStatus_Matched, "matched")
			h.Is(out, r.After(0, a), "matched")
			return
		}
	} else {
		sym.Cover("too few rounds")
		sym.Assert(len(after.Calls) == 0, "a repetition with too few rounds is Unmatched")
	}
	sym.Assert(len(fallback.Calls) == 1, "the alternative is tried")
	f := fallback.Calls[0]
	f.Saw(90, s, "alternative to the repetition")
	if f.St == h.OK {
		sym.Assert(out.MatchStatus == MatchStatus_Matched, "the alternative matches")
		h.Is(out, s.After(0, f), "alternative")
	} else {
		sym.Assert(out.MatchStatus == MatchStatus_Unmatched, "all unmatched")
		h.Is(out, s, "all unmatched")
	}
}

// The verdict of the repetition itself.
func verdict(nc, rounds, nodes int) {
	e := &h.Env{MaxCalls: nc * rounds, Modes: 2}
	var ps []ParserFn
	for i := 0; i < nc; i++ {
		ps = append(ps, e.Child(i, nodes))
	}
	lo := sym.Concrete(sym.Int("min", -2, rounds+1))
	hi := sym.Concrete(sym.Int("max", -2, rounds+1))
	ctx, s := h.Begin(1)
	out, err := Repeat(Times{Min: lo, Max: hi}, ps...)(ctx)
	done, r := 0, s
	for k := 0; k < len(e.Calls); {
		t := r
		i := 0
		for ; i < nc && k < len(e.Calls) && e.Calls[k].St == h.OK; i++ {
			t = t.After(k, e.Calls[k])
			k++
		}
		if i < nc {
			break
		}
		done++
		r = t
	}
	sym.Assert(err == nil, "no error without an error")
	sym.Assert(hi < 0 || done <= hi, "never more rounds than the maximum")
	if lo < 0 || done >= lo {
		sym.Assert(out.MatchStatus == MatchStatus_Matched, "enough rounds match")
		h.Is(out, r, "completed rounds")
		sym.Cover("verdict matched")
	} else {
		sym.Assert(out.MatchStatus == MatchStatus_Unmatched, "too few rounds do not match")
		h.Is(out, s, "too few rounds")
		sym.Cover("verdict unmatched")
	}
}

func init() {
	rounds, nc := 4, 3
	if sym.Thorough() {
		rounds, nc = 6, 4
	}
	sym.Check("repetition", kinds*nc*3*2, "1..3 (thorough 4) children, up to 4 (6) rounds, Min and Max from -2 to rounds+1, 0..2 nodes on the stack, rounds with and without nodes and progress, inside a sequence inside a choice", func(c int) {
		repetition(c%kinds, c/kinds%nc+1, rounds, c/kinds/nc%3, 1+c/kinds/nc/3)
	})
	sym.Check("verdict", 2*nc, "the repetition on its own", func(c int) { verdict(c/2+1, rounds+1, c%2) })
}
