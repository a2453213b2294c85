package main

import (
	"strings"

	"verif/harness/sym"
)

// A number generator: grammars are picked by it from a larger space, the same
// ones on every run.
type pick struct{ x uint32 }

func (p *pick) n(k int) int {
	p.x ^= p.x << 13
	p.x ^= p.x >> 17
	p.x ^= p.x << 5
	return int(p.x % uint32(k))
}

// A tree of depth up to d over nl leaves, sequences and choices of 2..w.
func (p *pick) tree(d, w, nl int) *G {
	if d == 0 || p.n(8) == 0 {
		return leaf(p.n(nl))
	}
	k := gOpt + p.n(kindsEnd-gOpt)
	if k < gSeq {
		return fix(op(k, p.tree(d-1, w, nl)))
	}
	n := 2
	if k != gRepSeq {
		n = 2 + p.n(w-1)
	}
	var kids []*G
	for i := 0; i < n; i++ {
		kids = append(kids, p.tree(d-1, w, nl))
	}
	return &G{kind: k, kids: kids}
}

// fixed leaves over a..d
func (m *grammar) fixed() {
	m.lo = []byte("abcaab")
	m.hi = []byte("abcbdd")
}

// every source of n of the characters a..d and one outside
func (m *grammar) letters(n int) {
	m.src = sym.String("s", n)
	ok := true
	for i := 0; i < n; i++ {
		ok = sym.And(ok, sym.And(m.src[i] >= 'a', m.src[i] <= 'e'))
	}
	sym.Assume(ok)
}

func picked(d, w, n, i int) {
	p := &pick{x: uint32(i)*2654435761 + 12345}
	p.n(2)
	m := &grammar{}
	g := p.tree(d, w, 6)
	m.fixed()
	m.letters(n)
	m.compare(g, m.build(g), 0)
}

// Rules that use each other, picked likewise: every use of a rule is behind a
// leaf, so that no rule is left-recursive.
func rules(n, i int) {
	p := &pick{x: uint32(i)*2246822519 + 777}
	p.n(2)
	m := &grammar{}
	for r := 0; r < 3; r++ {
		m.rules = append(m.rules, p.guarded(2))
	}
	m.fixed()
	m.letters(n)
	for _, r := range m.rules {
		m.parsers = append(m.parsers, m.build(r))
	}
	m.compare(m.rules[0], m.parsers[0], 0)
}

func (p *pick) guarded(d int) *G {
	switch k := p.n(6); {
	case d == 0:
		return leaf(p.n(6))
	case k == 0:
		return op(gSeq, leaf(p.n(6)), rule(p.n(3)), leaf(p.n(6)))
	case k == 1:
		return op(gSeq, leaf(p.n(6)), op(gOpt, rule(p.n(3))))
	case k == 2:
		return op(gPlus, op(gSeq, leaf(p.n(6)), rule(p.n(3))))
	case k == 3:
		return op(gGroup, op(gFirst, op(gSeq, leaf(p.n(6)), rule(p.n(3))), leaf(p.n(6)), p.guarded(d-1)))
	case k == 4:
		return op(gFirst, p.guarded(d-1), p.guarded(d-1), leaf(p.n(6)))
	default:
		return op(gSeq, op(gNot, op(gSeq, leaf(p.n(6)), rule(p.n(3)))), p.guarded(d-1))
	}
}

// Deep recursion and long sources: a^n c b^n and the like with free
// characters at three places.
func far(kind, n int) {
	m := &grammar{lo: []byte("abcd"), hi: []byte("abcd")}
	var s string
	switch kind {
	case 0: // S <- a S b / c
		m.rules = []*G{op(gFirst, op(gSeq, leaf(0), rule(0), leaf(1)), leaf(2))}
		s = strings.Repeat("a", n) + "c" + strings.Repeat("b", n)
	case 1: // S <- Group(a S b) / empty
		m.rules = []*G{op(gFirst, op(gGroup2, leaf(0), rule(0), leaf(1)), empty)}
		s = strings.Repeat("a", n) + strings.Repeat("b", n)
	case 2: // S <- (a / b)* (c d)+
		m.rules = []*G{op(gSeq, op(gStar, op(gFirst, leaf(0), leaf(1))), op(gPlus, op(gSeq, leaf(2), leaf(3))))}
		s = strings.Repeat("ab", n/2) + strings.Repeat("cd", n/2)
	case 3: // S <- (!d &(a / b) (a / Group(b)))* d
		m.rules = []*G{op(gSeq, op(gStar, op(gSeq, op(gNot, leaf(3)), op(gAhead, op(gFirst, leaf(0), leaf(1))), op(gFirst, leaf(0), op(gGroup, leaf(1))))), leaf(3))}
		s = strings.Repeat("abb", n) + "d"
	case 4: // S <- a S / b, the whole of a failing
		m.rules = []*G{op(gFirst, op(gSeq, leaf(0), rule(0)), op(gSeq, op(gPlus, leaf(1)), op(gNot, leaf(0))))}
		s = strings.Repeat("a", n) + strings.Repeat("b", n)
	}
	at := []int{1, len(s) / 2, len(s) - 1}
	b := []byte(s)
	for i, k := range at {
		c := sym.Byte("c" + string(rune('0'+i)))
		sym.Assume(sym.And(c >= 'a', c <= 'e'))
		b[k] = c
	}
	m.src = string(b)
	for _, r := range m.rules {
		m.parsers = append(m.parsers, m.build(r))
	}
	m.compare(m.rules[0], m.parsers[0], 0)
}

func init() {
	t := 1
	if sym.Thorough() {
		t = 5
	}
	sym.Check("picked", 1200*t, "1200 (thorough 6000) grammars of three to five levels with sequences and choices of 2..4 picked from the space of all, sources of 4 characters", func(c int) {
		picked(3+c%3, 4, 4, c)
	})
	sym.Check("rules", 400*t, "400 (thorough 2000) grammars of three rules using each other, sources of 5 characters", func(c int) {
		rules(5, c)
	})
	ns := []int{9, 17, 40, 130}
	sym.Check("far", 5*len(ns), "grammars over sources of up to 391 characters, recursion up to 130 deep, free characters at three places", func(c int) {
		far(c%5, ns[c/5])
	})
}
