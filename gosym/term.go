package main

// Hash-consed bit-vector / boolean terms with local simplification.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd // bool
	OpOr  // bool
	OpEq
	OpIte
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLshr
	OpAshr
	OpZext
	OpSext
	OpExtract // k = hi<<8|lo
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv",
	OpURem: "bvurem", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpBNot: "bvnot", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr",
}

// Term is an immutable node. w == 0 means Bool.
type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64 // constant value, or extract bounds
	name    string
	id      uint32
	vars    varset
	lo, hi  uint64 // unsigned range (bit-vectors)
	varID   int32
}

type varset []uint64

func (s varset) union(o varset) varset {
	if len(o) > len(s) {
		s, o = o, s
	}
	sub := true
	for i, x := range o {
		if x&^s[i] != 0 {
			sub = false
			break
		}
	}
	if sub {
		return s
	}
	r := make(varset, len(s))
	copy(r, s)
	for i, x := range o {
		r[i] |= x
	}
	return r
}

func (s varset) each(f func(id int32)) {
	for i, x := range s {
		for x != 0 {
			b := bits.TrailingZeros64(x)
			f(int32(i*64 + b))
			x &^= 1 << b
		}
	}
}

func (s varset) intersects(o varset) bool {
	n := min(len(s), len(o))
	for i := 0; i < n; i++ {
		if s[i]&o[i] != 0 {
			return true
		}
	}
	return false
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c uint32
	k       uint64
}

// Terms is one universe of terms (one per machine).
type Terms struct {
	tab     map[termKey]*Term
	vars    map[string]*Term
	varLst  []*Term
	nextID  uint32
	tru     *Term
	fls     *Term
	axioms  map[int32]*Term // range axioms of variables
	axMax   map[int32]uint64
	varUsed map[int32]bool
}

func NewTerms() *Terms {
	t := &Terms{tab: map[termKey]*Term{}, vars: map[string]*Term{}, axioms: map[int32]*Term{}, axMax: map[int32]uint64{}}
	t.tru = t.mk(OpConst, 0, nil, nil, nil, 1)
	t.fls = t.mk(OpConst, 0, nil, nil, nil, 0)
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return uint64(1)<<w - 1
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (T *Terms) mk(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(c), k}
	if t, ok := T.tab[key]; ok {
		return t
	}
	T.nextID++
	t := &Term{op: op, w: w, a: a, b: b, c: c, k: k, id: T.nextID}
	for _, x := range []*Term{a, b, c} {
		if x != nil {
			if t.vars == nil {
				t.vars = x.vars
			} else if len(x.vars) > 0 {
				t.vars = t.vars.union(x.vars)
			}
		}
	}
	if w > 0 {
		t.lo, t.hi = T.rng(t)
	}
	T.tab[key] = t
	return t
}

// rng computes a sound unsigned range.
func (T *Terms) rng(t *Term) (uint64, uint64) {
	m := mask(t.w)
	switch t.op {
	case OpConst:
		return t.k, t.k
	case OpZext:
		return t.a.lo, t.a.hi
	case OpIte:
		return min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
	case OpBAnd:
		return 0, min(t.a.hi, t.b.hi)
	case OpBOr:
		n := bits.Len64(t.a.hi | t.b.hi)
		if n >= 64 {
			return max(t.a.lo, t.b.lo), m
		}
		return max(t.a.lo, t.b.lo), min(m, uint64(1)<<n-1)
	case OpLshr:
		if t.b.op == OpConst && t.b.k < 64 {
			return t.a.lo >> t.b.k, t.a.hi >> t.b.k
		}
		return 0, t.a.hi
	case OpShl:
		if t.b.op == OpConst && t.b.k < uint64(t.w) {
			if bits.Len64(t.a.hi)+int(t.b.k) <= int(t.w) {
				return t.a.lo << t.b.k, t.a.hi << t.b.k
			}
		}
	case OpAdd:
		h := t.a.hi + t.b.hi
		if h >= t.a.hi && h <= m {
			return t.a.lo + t.b.lo, h
		}
		// constant subtraction written as addition of a negative constant
		if t.b.op == OpConst {
			neg := (^t.b.k + 1) & m
			if t.a.lo >= neg && neg != 0 {
				return t.a.lo - neg, t.a.hi - neg
			}
		}
	case OpSub:
		if t.a.lo >= t.b.hi {
			return t.a.lo - t.b.hi, t.a.hi - t.b.lo
		}
	case OpMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= m {
			return t.a.lo * t.b.lo, l
		}
	case OpUDiv:
		if t.b.lo > 0 {
			return t.a.lo / t.b.hi, t.a.hi / t.b.lo
		}
	case OpURem:
		if t.b.lo > 0 {
			return 0, min(t.a.hi, t.b.hi-1)
		}
	case OpExtract:
		lo := uint8(t.k)
		if lo == 0 && t.a.hi <= m {
			return t.a.lo, t.a.hi
		}
	}
	return 0, m
}

func (T *Terms) Const(v uint64, w uint8) *Term {
	return T.mk(OpConst, w, nil, nil, nil, v&mask(w))
}

func (T *Terms) Bool(b bool) *Term {
	if b {
		return T.tru
	}
	return T.fls
}

// Var returns the variable with that name (creating it). w==0: Bool.
func (T *Terms) Var(name string, w uint8) *Term {
	if t, ok := T.vars[name]; ok {
		if t.w != w {
			panic(unsupported{"symbolic variable " + name + " used at two widths"})
		}
		return t
	}
	T.nextID++
	n := len(T.varLst)
	t := &Term{op: OpVar, w: w, name: name, id: T.nextID, varID: int32(n)}
	t.vars = make(varset, n/64+1)
	t.vars[n/64] = 1 << (n % 64)
	if w > 0 {
		t.hi = mask(w)
	}
	T.vars[name] = t
	T.varLst = append(T.varLst, t)
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }

func (T *Terms) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return T.Bool(a.k == 0)
	case OpNot:
		return a.a
	case OpUlt:
		return T.mk(OpUle, 0, a.b, a.a, nil, 0)
	case OpUle:
		return T.mk(OpUlt, 0, a.b, a.a, nil, 0)
	case OpSlt:
		return T.mk(OpSle, 0, a.b, a.a, nil, 0)
	case OpSle:
		return T.mk(OpSlt, 0, a.b, a.a, nil, 0)
	}
	return T.mk(OpNot, 0, a, nil, nil, 0)
}

func (T *Terms) complementary(a, b *Term) bool {
	if a.op == OpNot {
		return a.a == b
	}
	if b.op == OpNot {
		return b.a == a
	}
	switch {
	case a.op == OpUlt && b.op == OpUle, a.op == OpUle && b.op == OpUlt,
		a.op == OpSlt && b.op == OpSle, a.op == OpSle && b.op == OpSlt:
		return a.a == b.b && a.b == b.a
	}
	return false
}

func (T *Terms) And(a, b *Term) *Term {
	if a.op == OpConst {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.op == OpConst {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if T.complementary(a, b) {
		return T.fls
	}
	// absorb: a and (a or x) ; a and (a and x)
	if b.op == OpOr && (b.a == a || b.b == a) {
		return a
	}
	if a.op == OpOr && (a.a == b || a.b == b) {
		return b
	}
	if b.op == OpAnd && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OpAnd && (a.a == b || a.b == b) {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OpAnd, 0, a, b, nil, 0)
}

func (T *Terms) Or(a, b *Term) *Term {
	if a.op == OpConst {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.op == OpConst {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if T.complementary(a, b) {
		return T.tru
	}
	if b.op == OpAnd && (b.a == a || b.b == a) {
		return a
	}
	if a.op == OpAnd && (a.a == b || a.b == b) {
		return b
	}
	if b.op == OpOr && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OpOr && (a.a == b || a.b == b) {
		return a
	}
	// x or (not x and y) = x or y
	if b.op == OpAnd {
		if T.complementary(a, b.a) {
			return T.Or(a, b.b)
		}
		if T.complementary(a, b.b) {
			return T.Or(a, b.a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OpOr, 0, a, b, nil, 0)
}

// Ite over bool or bit-vector.
func (T *Terms) Ite(c, a, b *Term) *Term {
	if c.op == OpConst {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.op == OpConst {
			if a.k == 1 {
				return T.Or(c, b)
			}
			return T.And(T.Not(c), b)
		}
		if b.op == OpConst {
			if b.k == 1 {
				return T.Or(T.Not(c), a)
			}
			return T.And(c, a)
		}
	}
	if c.op == OpNot {
		return T.Ite(c.a, b, a)
	}
	if a.op == OpIte && a.a == c {
		a = a.b
	}
	if b.op == OpIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	// ite(c, x, ite(d, x, y)) = ite(c or d, x, y)
	if b.op == OpIte && b.b == a {
		return T.Ite(T.Or(c, b.a), a, b.c)
	}
	if b.op == OpIte && b.c == a {
		return T.Ite(T.And(T.Not(c), b.a), b.b, a)
	}
	return T.mk(OpIte, a.w, c, a, b, 0)
}

func (T *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return T.tru
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.op == OpConst && b.op == OpConst {
		return T.Bool(a.k == b.k)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OpConst {
			if b.k == 1 {
				return a
			}
			return T.Not(a)
		}
		if T.complementary(a, b) {
			return T.fls
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo {
			return T.fls
		}
	}
	if b.op == OpConst && a.w > 0 {
		switch a.op {
		case OpZext:
			if b.k > mask(a.a.w) {
				return T.fls
			}
			return T.Eq(a.a, T.Const(b.k, a.a.w))
		case OpSext:
			iw := a.a.w
			low := b.k & mask(iw)
			if signExt(low, iw)&mask(a.w) != b.k {
				return T.fls
			}
			return T.Eq(a.a, T.Const(low, iw))
		case OpIte:
			if a.b.op == OpConst || a.c.op == OpConst || a.b.op == OpIte || a.c.op == OpIte {
				if iteLeavesConst(a, 64) {
					return T.Ite(a.a, T.Eq(a.b, b), T.Eq(a.c, b))
				}
			}
			if a.b.op == OpConst && a.b.k != b.k {
				return T.And(T.Not(a.a), T.Eq(a.c, b))
			}
			if a.c.op == OpConst && a.c.k != b.k {
				return T.And(a.a, T.Eq(a.b, b))
			}
		case OpAdd:
			if a.b.op == OpConst {
				return T.Eq(a.a, T.Const(b.k-a.b.k, a.w))
			}
		}
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return T.Eq(a.a, b.a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OpEq, 0, a, b, nil, 0)
}

// iteLeavesConst: an ite tree all of whose leaves are constants, with at most n nodes.
func iteLeavesConst(t *Term, n int) bool {
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		n--
		if n < 0 {
			return false
		}
		if t.op == OpConst {
			return true
		}
		if t.op == OpIte {
			return rec(t.b) && rec(t.c)
		}
		return false
	}
	return rec(t)
}

func signExt(v uint64, w uint8) uint64 {
	if w >= 64 {
		return v
	}
	sh := 64 - w
	return uint64(int64(v<<sh) >> sh)
}

func (T *Terms) Ult(a, b *Term) *Term {
	if a == b {
		return T.fls
	}
	if a.op == OpConst && b.op == OpConst {
		return T.Bool(a.k < b.k)
	}
	if a.hi < b.lo {
		return T.tru
	}
	if a.lo >= b.hi {
		return T.fls
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return T.Ult(a.a, b.a)
	}
	if a.op == OpZext && b.op == OpConst { // b.k <= a.hi here so it fits
		return T.Ult(a.a, T.Const(b.k, a.a.w))
	}
	if b.op == OpZext && a.op == OpConst {
		return T.Ult(T.Const(a.k, b.a.w), b.a)
	}
	if b.op == OpConst && b.k == 1 {
		return T.Eq(a, T.Const(0, a.w))
	}
	if a.op == OpIte && b.op == OpConst && iteLeavesConst(a, 64) {
		return T.Ite(a.a, T.Ult(a.b, b), T.Ult(a.c, b))
	}
	if b.op == OpIte && a.op == OpConst && iteLeavesConst(b, 64) {
		return T.Ite(b.a, T.Ult(a, b.b), T.Ult(a, b.c))
	}
	return T.mk(OpUlt, 0, a, b, nil, 0)
}

func (T *Terms) Ule(a, b *Term) *Term { return T.Not(T.Ult(b, a)) }

func (T *Terms) nonNeg(a *Term) bool { return a.hi>>(a.w-1) == 0 }

func (T *Terms) Slt(a, b *Term) *Term {
	if a == b {
		return T.fls
	}
	if a.op == OpConst && b.op == OpConst {
		return T.Bool(int64(signExt(a.k, a.w)) < int64(signExt(b.k, b.w)))
	}
	if T.nonNeg(a) && T.nonNeg(b) {
		return T.Ult(a, b)
	}
	aneg := a.lo>>(a.w-1) == 1
	bneg := b.lo>>(b.w-1) == 1
	if aneg && T.nonNeg(b) {
		return T.tru
	}
	if bneg && T.nonNeg(a) {
		return T.fls
	}
	if a.op == OpIte && b.op == OpConst && iteLeavesConst(a, 64) {
		return T.Ite(a.a, T.Slt(a.b, b), T.Slt(a.c, b))
	}
	if b.op == OpIte && a.op == OpConst && iteLeavesConst(b, 64) {
		return T.Ite(b.a, T.Slt(a, b.b), T.Slt(a, b.c))
	}
	return T.mk(OpSlt, 0, a, b, nil, 0)
}

func (T *Terms) Sle(a, b *Term) *Term { return T.Not(T.Slt(b, a)) }

func foldBin(op Op, x, y uint64, w uint8) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m, true
	case OpSub:
		return (x - y) & m, true
	case OpMul:
		return (x * y) & m, true
	case OpUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OpURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpSDiv:
		sx, sy := int64(signExt(x, w)), int64(signExt(y, w))
		if sy == 0 {
			if sx < 0 {
				return 1, true
			}
			return m, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OpSRem:
		sx, sy := int64(signExt(x, w)), int64(signExt(y, w))
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OpBAnd:
		return x & y, true
	case OpBOr:
		return x | y, true
	case OpBXor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OpLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAshr:
		s := int64(signExt(x, w))
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m, true
	}
	return 0, false
}

func commutative(op Op) bool {
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		return true
	}
	return false
}

// Bin builds an arithmetic or bitwise term.
func (T *Terms) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OpConst && b.op == OpConst {
		v, _ := foldBin(op, a.k, b.k, w)
		return T.Const(v, w)
	}
	if commutative(op) && (a.op == OpConst || b.op != OpConst && a.id > b.id) {
		a, b = b, a
	}
	if b.op == OpConst {
		k := b.k
		switch op {
		case OpAdd, OpSub, OpBOr, OpBXor, OpShl, OpLshr, OpAshr:
			if k == 0 {
				return a
			}
		case OpMul:
			if k == 0 {
				return b
			}
			if k == 1 {
				return a
			}
		case OpUDiv, OpSDiv:
			if k == 1 {
				return a
			}
		case OpBAnd:
			if k == 0 {
				return b
			}
			if k == mask(w) {
				return a
			}
			// mask covering all possible bits
			if n := bits.Len64(a.hi); k&(uint64(1)<<n-1) == uint64(1)<<n-1 && n < 64 {
				return a
			}
		}
		switch op {
		case OpSub:
			return T.Bin(OpAdd, a, T.Const(-k, w))
		case OpAdd:
			if a.op == OpAdd && a.b.op == OpConst {
				return T.Bin(OpAdd, a.a, T.Const(a.b.k+k, w))
			}
		case OpMul:
			// (x + c) * k = x*k + c*k keeps sums of digits in one form
			if a.op == OpAdd && a.b.op == OpConst {
				if h, l := bits.Mul64(a.a.hi, k); h == 0 && l <= mask(w) {
					return T.Bin(OpAdd, T.Bin(OpMul, a.a, b), T.Const(a.b.k*k, w))
				}
			}
		case OpUDiv:
			if k > 0 && a.lo/k == a.hi/k {
				return T.Const(a.lo/k, w)
			}
		case OpURem:
			if k > 0 && a.hi < k {
				return a
			}
			if k > 0 && a.lo/k == a.hi/k {
				return T.Bin(OpAdd, a, T.Const(-(a.lo/k*k), w))
			}
		case OpShl, OpLshr:
			if k >= uint64(w) {
				return T.Const(0, w)
			}
		case OpBAnd:
			if a.op == OpBAnd && a.b.op == OpConst {
				return T.Bin(OpBAnd, a.a, T.Const(a.b.k&k, w))
			}
		case OpSDiv:
			if T.nonNeg(a) && k>>(w-1) == 0 && k != 0 {
				return T.Bin(OpUDiv, a, b)
			}
		case OpSRem:
			if T.nonNeg(a) && k>>(w-1) == 0 && k != 0 {
				return T.Bin(OpURem, a, b)
			}
		}
		if a.op == OpIte && iteLeavesConst(a, 16) {
			return T.Ite(a.a, T.Bin(op, a.b, b), T.Bin(op, a.c, b))
		}
	}
	if op == OpSub && a.op == OpConst && b.op == OpAdd && b.b.op == OpConst {
		return T.Bin(OpSub, T.Const(a.k-b.b.k, w), b.a)
	}
	if op == OpAdd { // constants outermost
		if a.op == OpAdd && a.b.op == OpConst {
			return T.Bin(OpAdd, T.Bin(OpAdd, a.a, b), a.b)
		}
		if b.op == OpAdd && b.b.op == OpConst {
			return T.Bin(OpAdd, T.Bin(OpAdd, a, b.a), b.b)
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBXor:
			return T.Const(0, w)
		case OpBAnd, OpBOr:
			return a
		}
	}
	return T.mk(op, w, a, b, nil, 0)
}

func (T *Terms) BNot(a *Term) *Term {
	if a.op == OpConst {
		return T.Const(^a.k, a.w)
	}
	if a.op == OpBNot {
		return a.a
	}
	return T.mk(OpBNot, a.w, a, nil, nil, 0)
}

func (T *Terms) Zext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.op == OpConst {
		return T.Const(a.k, w)
	}
	if a.op == OpZext {
		return T.Zext(a.a, w)
	}
	if a.op == OpIte && iteLeavesConst(a, 64) {
		return T.Ite(a.a, T.Zext(a.b, w), T.Zext(a.c, w))
	}
	if a.op == OpExtract && uint8(a.k) == 0 && a.a.hi <= mask(a.w) {
		if a.a.w >= w {
			return T.Trunc(a.a, w)
		}
		return T.Zext(a.a, w)
	}
	if a.op == OpAdd && a.b.op == OpConst { // without a carry
		if h := a.a.hi + a.b.k; h >= a.b.k && h <= mask(a.w) {
			return T.Bin(OpAdd, T.Zext(a.a, w), T.Const(a.b.k, w))
		}
		if neg := -a.b.k & mask(a.w); a.a.lo >= neg {
			return T.Bin(OpAdd, T.Zext(a.a, w), T.Const(-neg, w))
		}
	}
	return T.mk(OpZext, w, a, nil, nil, 0)
}

func (T *Terms) Sext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.op == OpConst {
		return T.Const(signExt(a.k, a.w), w)
	}
	if T.nonNeg(a) {
		return T.Zext(a, w)
	}
	if a.op == OpSext {
		return T.Sext(a.a, w)
	}
	if a.op == OpIte && iteLeavesConst(a, 64) {
		return T.Ite(a.a, T.Sext(a.b, w), T.Sext(a.c, w))
	}
	return T.mk(OpSext, w, a, nil, nil, 0)
}

// Trunc keeps the low w bits.
func (T *Terms) Trunc(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	switch a.op {
	case OpConst:
		return T.Const(a.k, w)
	case OpZext, OpSext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return T.Trunc(a.a, w)
		}
		if a.op == OpZext {
			return T.Zext(a.a, w)
		}
		return T.Sext(a.a, w)
	case OpIte:
		if iteLeavesConst(a, 64) || (a.b.op == OpZext && a.c.op == OpZext) ||
			(a.b.op == OpConst && a.c.op == OpZext) || (a.b.op == OpZext && a.c.op == OpConst) {
			return T.Ite(a.a, T.Trunc(a.b, w), T.Trunc(a.c, w))
		}
	case OpExtract:
		if uint8(a.k) == 0 {
			return T.Trunc(a.a, w)
		}
	case OpAdd, OpSub, OpBAnd, OpBOr, OpBXor, OpMul:
		// low bits depend on low bits only
		if a.b.op == OpConst && a.a.op == OpZext {
			return T.Bin(a.op, T.Trunc(a.a, w), T.Trunc(a.b, w))
		}
	}
	return T.mk(OpExtract, w, a, nil, nil, uint64(w-1)<<8)
}

// ---- printing ----

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case OpVar:
		return fmt.Sprintf("v%d", t.varID)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	switch t.op {
	case OpNot, OpBNot:
		return "(" + opNames[t.op] + " " + t.a.ref() + ")"
	case OpIte:
		return "(ite " + t.a.ref() + " " + t.b.ref() + " " + t.c.ref() + ")"
	case OpZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpExtract:
		lo := uint8(t.k)
		hi := lo + t.w - 1
		return fmt.Sprintf("((_ extract %d %d) %s)", hi, lo, t.a.ref())
	}
	return "(" + opNames[t.op] + " " + t.a.ref() + " " + t.b.ref() + ")"
}

// String is for debugging.
func (t *Term) String() string {
	var sb strings.Builder
	n := 0
	var rec func(t *Term)
	rec = func(t *Term) {
		n++
		if n > 60 {
			sb.WriteString("…")
			return
		}
		switch t.op {
		case OpConst:
			fmt.Fprintf(&sb, "%#x", t.k)
			return
		case OpVar:
			sb.WriteString(t.name)
			return
		}
		name := opNames[t.op]
		if name == "" {
			name = map[Op]string{OpZext: "zext", OpSext: "sext", OpExtract: "extract"}[t.op]
		}
		sb.WriteString("(" + name)
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteByte(' ')
				rec(x)
			}
		}
		sb.WriteByte(')')
	}
	rec(t)
	return sb.String()
}
