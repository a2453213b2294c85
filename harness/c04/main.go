// C04: look-ahead and look-behind decide correctly and consume nothing.
package main

import (
	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

// decision of the look-around from the recorded calls; err is the error call.
type verdict struct {
	holds bool
	err   *h.Call
}

// ahead checks the calls of a look-ahead: the children in sequence from s.
func ahead(e *h.Env, nc int, s h.State, k int) (v verdict, next int) {
	for i := 0; i < nc; i++ {
		sym.Assert(k < len(e.Calls), "look-around runs its children until one fails")
		c := e.Calls[k]
		c.Saw(i, s, "look-around")
		k++
		if c.St == h.Unm {
			return verdict{}, k
		}
		if c.St != h.OK {
			return verdict{err: &e.Calls[k-1]}, k
		}
		s = s.After(k-1, c)
	}
	return verdict{holds: true}, k
}

func lookAhead(negative bool, nc, stack, status int) {
	e := &h.Env{MaxCalls: nc, Modes: 3}
	var ps []ParserFn
	for i := 0; i < nc; i++ {
		ps = append(ps, e.Child(i, i%2+1))
	}
	p := LookAhead(ps...)
	if negative {
		p = LookAheadN(ps...)
	}
	ctx, s := h.Begin(stack)
	ctx.MatchStatus = MatchStatusType(status)
	o1, e1 := p(ctx)
	v, k := ahead(e, nc, s, 0)
	sym.Assert(k == len(e.Calls), "nothing else is run")
	result(v, negative, s, o1, e1)
}

func result(v verdict, negative bool, s h.State, out ParserContext, err error) {
	switch {
	case v.err != nil:
		sym.Assert(out.MatchStatus == MatchStatus_Error && err == v.err.Err, "an error in a look-around is an error")
		sym.Cover("error")
	case v.holds != negative:
		sym.Assert(err == nil && out.MatchStatus == MatchStatus_Matched, "the look-around holds")
		h.Is(out, s, "look-around that holds")
		sym.Cover("holds")
	default:
		sym.Assert(err == nil && out.MatchStatus == MatchStatus_Unmatched, "the look-around does not hold")
		h.Is(out, s, "look-around that does not hold")
		sym.Cover("does not hold")
	}
}

// behind checks the calls of a look-behind: the children in sequence from
// some offset; the order in which offsets are tried is not prescribed.
func behind(e *h.Env, nc, lo, hi int, s h.State, upper int) (v verdict, next int) {
	k := 0
	tried := make([]bool, upper+1)
	for k < len(e.Calls) {
		off := sym.Concrete(s.Pos - e.Calls[k].Pos)
		sym.Assert(lo <= off && off <= hi, "look-behind starts between minN and maxN back")
		sym.Assert(s.Pos-off >= 0, "look-behind starts inside the source")
		sym.Assert(!tried[off], "look-behind tries an offset once")
		tried[off] = true
		t := s
		t.Pos = s.Pos - off
		v, k = ahead(e, nc, t, k)
		if v.holds || v.err != nil {
			return v, k
		}
	}
	for off := lo; off <= hi; off++ {
		sym.Assert(tried[off] || s.Pos-off < 0, "look-behind tries every offset inside the source")
	}
	return verdict{}, k
}

func lookBehind(negative bool, nc, upper, stack, status int) {
	e := &h.Env{MaxCalls: nc * (upper + 1), Modes: 4}
	var ps []ParserFn
	for i := 0; i < nc; i++ {
		ps = append(ps, e.Child(i, i%2+1))
	}
	lo := sym.Concrete(sym.Int("minN", 0, upper))
	hi := sym.Concrete(sym.Int("maxN", 0, upper))
	p := LookBehind(lo, hi, ps...)
	if negative {
		p = LookBehindN(lo, hi, ps...)
	}
	ctx, s := h.Begin(stack)
	ctx.Position = sym.Concrete(sym.Int("at", 0, upper+1))
	s.Pos = ctx.Position
	ctx.MatchStatus = MatchStatusType(status)
	out, err := p(ctx)
	v, k := behind(e, nc, lo, hi, s, upper)
	sym.Assert(k == len(e.Calls), "nothing else is run")
	result(v, negative, s, out, err)
}

// The parse continues from the unchanged state: First(FlatGroup(look, c), d).
func surrounded(kind, stack int) {
	e := &h.Env{MaxCalls: 4, Modes: 2}
	var look ParserFn
	c0, c1 := e.Child(0, 1), e.Child(1, 2)
	negative := kind%2 == 1
	switch kind {
	case 0:
		look = LookAhead(c0, c1)
	case 1:
		look = LookAheadN(c0, c1)
	case 2:
		look = LookBehind(1, 2, c0, c1)
	default:
		look = LookBehindN(1, 2, c0, c1)
	}
	after := &h.Env{Name: "a", MaxCalls: 2, Modes: 2}
	other := &h.Env{Name: "o", MaxCalls: 2, Modes: 2}
	p := First(FlatGroup(after.Child(70, 1), look, after.Child(71, 1)), other.Child(80, 1))
	ctx, s := h.Begin(stack)
	if kind >= 2 {
		ctx.Position = sym.Concrete(sym.Int("at", 0, 3))
		s.Pos = ctx.Position
	}
	out, err := p(ctx)
	sym.Assert(err == nil, "no error without an error")
	sym.Assert(len(after.Calls) >= 1, "the first parser is run")
	a := after.Calls[0]
	a.Saw(70, s, "before the look-around")
	ok := a.St == h.OK
	r := s
	if ok {
		r = s.After(0, a)
		var v verdict
		k := 0
		if kind < 2 {
			v, k = ahead(e, 2, r, 0)
		} else {
			v, k = surroundedBehind(e, r)
		}
		sym.Assert(k == len(e.Calls), "nothing else is run by the look-around")
		ok = v.holds != negative
		if ok {
			sym.Assert(len(after.Calls) == 2, "the parse continues after a look-around that holds")
			b := after.Calls[1]
			b.Saw(71, r, "after the look-around")
			ok = b.St == h.OK
			if ok {
				r = r.After(1, b)
			}
			sym.Cover("continued")
		} else {
			sym.Assert(len(after.Calls) == 1, "the sequence ends at a look-around that does not hold")
		}
	}
	if ok {
		sym.Assert(len(other.Calls) == 0, "no alternative after a match")
		sym.Assert(out.MatchStatus == MatchStatus_Matched, "matched")
		h.Is(out, r, "matched")
		return
	}
	sym.Assert(len(other.Calls) == 1, "the alternative is tried")
	d := other.Calls[0]
	d.Saw(80, s, "alternative to the look-around")
	sym.Cover("alternative")
}

func surroundedBehind(e *h.Env, s h.State) (verdict, int) {
	k := 0
	var v verdict
	for off := 1; off <= 2; off++ {
		if s.Pos-off < 0 {
			continue
		}
		t := s
		t.Pos = s.Pos - off
		v, k = ahead(e, 2, t, k)
		if v.holds || v.err != nil {
			break
		}
	}
	return v, k
}

func init() {
	nc, upper := 3, 3
	if sym.Thorough() {
		nc, upper = 5, 5
	}
	sym.Check("lookahead", 2*nc*2*3, "positive and negative look-ahead with 1..3 (thorough 5) children, any incoming status", func(c int) {
		lookAhead(c%2 == 1, c/2%nc+1, c/2/nc%2*2, c/2/nc/2)
	})
	sym.Check("lookbehind", 2*2*2*3, "positive and negative look-behind, minN and maxN from 0 to 3 (thorough 5), positions 0..4 (6), 1..2 children, any incoming status", func(c int) {
		lookBehind(c%2 == 1, c/2%2+1, upper, c/4%2, c/8)
	})
	sym.Check("surrounded", 4*3, "look-arounds inside a sequence inside a choice", func(c int) { surrounded(c%4, c/4) })
}
