package main

// Models of functions the machine does not execute itself: assembly and
// runtime functions of the standard library, and the sym API of the harnesses.

import (
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
)

type tail struct {
	f    *Func
	args []Value
}

type intrinsic func(m *M, fr *frame, f *Func, a []Value) (Value, *tail)

func (m *M) hasIntrinsic(f *Func) bool { return f.intr != nil }

func (m *M) intrinsic(fr *frame, f *Func, args []Value) (Value, *tail) {
	return f.intr(m, fr, f, args)
}

func (m *M) intrinsicCall(fr *frame, in *instr, f *Func, args []Value) bool {
	v, t := f.intr(m, fr, f, args)
	if t != nil {
		return m.doCall(fr, in, t.f, t.args, false)
	}
	if in.dst >= 0 {
		fr.regs[in.dst] = v
	}
	fr.ip++
	return true
}

type simple func(m *M, a []Value) Value

var intrTable = map[string]intrinsic{}

func reg(names string, s simple) {
	for _, n := range strings.Fields(names) {
		intrTable[n] = func(m *M, fr *frame, f *Func, a []Value) (Value, *tail) { return s(m, a), nil }
	}
}

func nop(m *M, a []Value) Value { return Value{} }

func tup(vs ...Value) Value { return Value{K: KTuple, R: vs} }

func (m *M) constStr(v Value, what string) string {
	s, ok := v.str()
	if !ok {
		panic(unsupported{what + " must be constant"})
	}
	return s
}

// bytesOf is the content of a string or []byte as terms.
func (m *M) bytesOf(v Value) []*Term {
	if v.K == KStr {
		return m.T.strTerms(v)
	}
	if v.R == nil {
		return nil
	}
	s := v.R.(*Slice)
	r := make([]*Term, s.len)
	for i := range r {
		r[i] = m.T.of(s.obj.get(s.off + i))
	}
	return r
}

func (m *M) termsEq(a, b []*Term) *Term {
	r := m.T.tru
	for i := range a {
		r = m.T.And(r, m.T.Eq(a[i], b[i]))
		if r.op == OpConst && r.k == 0 {
			break
		}
	}
	return r
}

func (m *M) indexByte(b []*Term, c *Term) int {
	for i, t := range b {
		if m.decide(m.T.Eq(t, c)) {
			return i
		}
	}
	return -1
}

func (m *M) indexSub(s, sub []*Term) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if m.decide(m.termsEq(s[i:i+len(sub)], sub)) {
			return i
		}
	}
	return -1
}

func ldst(m *M, p Value, ti *TypeInfo) Value { return m.load(p, ti) }

// syncStore stores through an atomic operation.
func (m *M) syncStore(p, v Value, ti *TypeInfo) {
	m.protect++
	m.storeTo(p, v, ti)
	m.protect--
}

func init() {
	reg("internal/abi.NoEscape internal/abi.Escape", func(m *M, a []Value) Value { return a[0] })
	reg("runtime.KeepAlive runtime.SetFinalizer runtime.GC runtime.Gosched", nop)
	reg("internal/bytealg.IndexByteString internal/bytealg.IndexByte strings.IndexByte bytes.IndexByte", func(m *M, a []Value) Value {
		return mkInt(m.indexByte(m.bytesOf(a[0]), m.T.of(a[1])))
	})
	reg("internal/bytealg.LastIndexByteString internal/bytealg.LastIndexByte", func(m *M, a []Value) Value {
		b := m.bytesOf(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if m.decide(m.T.Eq(b[i], m.T.of(a[1]))) {
				return mkInt(i)
			}
		}
		return mkInt(-1)
	})
	reg("internal/bytealg.IndexString internal/bytealg.Index strings.Index bytes.Index", func(m *M, a []Value) Value {
		if s, ok := a[0].str(); ok && a[0].K == KStr {
			if t, ok := a[1].str(); ok && a[1].K == KStr {
				return mkInt(strings.Index(s, t))
			}
		}
		return mkInt(m.indexSub(m.bytesOf(a[0]), m.bytesOf(a[1])))
	})
	reg("internal/bytealg.CountString internal/bytealg.Count", func(m *M, a []Value) Value {
		n := 0
		for _, t := range m.bytesOf(a[0]) {
			if m.decide(m.T.Eq(t, m.T.of(a[1]))) {
				n++
			}
		}
		return mkInt(n)
	})
	reg("internal/bytealg.Equal bytes.Equal", func(m *M, a []Value) Value {
		x, y := m.bytesOf(a[0]), m.bytesOf(a[1])
		if len(x) != len(y) {
			return mkBool(false)
		}
		return termVal(m.termsEq(x, y))
	})
	reg("internal/bytealg.Compare internal/bytealg.CompareString strings.Compare bytes.Compare", func(m *M, a []Value) Value {
		x, y := mkSymStr(m.bytesOf(a[0])), mkSymStr(m.bytesOf(a[1]))
		lt, gt := m.strLess(x, y), m.strLess(y, x)
		if m.decide(lt) {
			return mkInt(-1)
		}
		if m.decide(gt) {
			return mkInt(1)
		}
		return mkInt(0)
	})
	reg("internal/bytealg.MakeNoZero", func(m *M, a []Value) Value {
		n := m.concInt(a[0])
		c := int(roundupsize(int64(n), true))
		o := m.alloc(m.p.byteTI, c)
		return Value{K: KSlice, R: &Slice{o, 0, n, c, 1}}
	})

	// atomics
	reg("sync/atomic.LoadUint32 sync/atomic.LoadInt32 internal/runtime/atomic.Load", func(m *M, a []Value) Value { return m.load(a[0], m.p.u32TI) })
	reg("sync/atomic.LoadUint64 sync/atomic.LoadInt64", func(m *M, a []Value) Value { return m.load(a[0], m.p.u64TI) })
	reg("sync/atomic.LoadPointer", func(m *M, a []Value) Value { return m.load(a[0], m.p.ptrTI) })
	st := func(ti func(m *M) *TypeInfo) simple {
		return func(m *M, a []Value) Value { m.syncStore(a[0], a[1], ti(m)); return Value{} }
	}
	reg("sync/atomic.StoreUint32 sync/atomic.StoreInt32", st(func(m *M) *TypeInfo { return m.p.u32TI }))
	reg("sync/atomic.StoreUint64 sync/atomic.StoreInt64", st(func(m *M) *TypeInfo { return m.p.u64TI }))
	reg("sync/atomic.StorePointer", st(func(m *M) *TypeInfo { return m.p.ptrTI }))
	add := func(ti func(m *M) *TypeInfo) simple {
		return func(m *M, a []Value) Value {
			t := ti(m)
			v := m.intop(tokADD, m.load(a[0], t), a[1], t.signed, false)
			m.syncStore(a[0], v, t)
			return v
		}
	}
	reg("sync/atomic.AddUint32 sync/atomic.AddInt32", add(func(m *M) *TypeInfo { return m.p.u32TI }))
	reg("sync/atomic.AddUint64 sync/atomic.AddInt64", add(func(m *M) *TypeInfo { return m.p.u64TI }))
	cas := func(ti func(m *M) *TypeInfo) simple {
		return func(m *M, a []Value) Value {
			t := ti(m)
			if m.decide(m.equal(m.load(a[0], t), a[1])) {
				m.syncStore(a[0], a[2], t)
				return mkBool(true)
			}
			return mkBool(false)
		}
	}
	reg("sync/atomic.CompareAndSwapUint32 sync/atomic.CompareAndSwapInt32", cas(func(m *M) *TypeInfo { return m.p.u32TI }))
	reg("sync/atomic.CompareAndSwapUint64 sync/atomic.CompareAndSwapInt64", cas(func(m *M) *TypeInfo { return m.p.u64TI }))
	reg("sync/atomic.CompareAndSwapPointer", cas(func(m *M) *TypeInfo { return m.p.ptrTI }))
	swap := func(ti func(m *M) *TypeInfo) simple {
		return func(m *M, a []Value) Value {
			t := ti(m)
			o := m.load(a[0], t)
			m.syncStore(a[0], a[1], t)
			return o
		}
	}
	reg("sync/atomic.SwapUint32 sync/atomic.SwapInt32", swap(func(m *M) *TypeInfo { return m.p.u32TI }))
	reg("sync/atomic.SwapPointer", swap(func(m *M) *TypeInfo { return m.p.ptrTI }))
	// atomic.Value: one any cell
	reg("(*sync/atomic.Value).Load", func(m *M, a []Value) Value { return m.load(a[0], m.anyTI) })
	reg("(*sync/atomic.Value).Store", func(m *M, a []Value) Value { m.syncStore(a[0], a[1], m.anyTI); return Value{} })

	// locks: single-threaded execution, but writes inside are synchronised
	lock := func(m *M, a []Value) Value {
		if a[0].R == nil {
			m.nilDeref()
		}
		m.protect++
		return Value{}
	}
	unlock := func(m *M, a []Value) Value { m.protect--; return Value{} }
	reg("(*sync.Mutex).Lock (*sync.RWMutex).Lock (*internal/sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock (*internal/sync.Mutex).Unlock", unlock)
	reg("(*sync.Mutex).TryLock", func(m *M, a []Value) Value { m.protect++; return mkBool(true) })
	reg("(*sync.RWMutex).RLock (*sync.RWMutex).RUnlock", nop)
	intrTable["(*sync.Pool).Get"] = func(m *M, fr *frame, f *Func, a []Value) (Value, *tail) {
		// an arbitrary pool may always be empty
		ti := typeTab.get(f.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem())
		nf := m.load(Value{K: KPtr, R: a[0].R, N: a[0].N + uint64(ti.cells-1)}, ti.fields[len(ti.fields)-1])
		if nf.R == nil {
			return Value{K: KIface}, nil
		}
		cl := nf.R.(*Closure)
		return Value{}, &tail{cl.fn, append([]Value(nil), cl.bind...)}
	}
	reg("(*sync.Pool).Put", nop)

	// runes
	reg("unicode/utf8.DecodeRuneInString unicode/utf8.DecodeRune", func(m *M, a []Value) Value {
		b := a[0]
		if b.K == KSlice {
			b = m.bytesToStr(b)
		}
		if strLen(b) == 0 {
			return tup(mkIntW(0xFFFD, 32), mkInt(0))
		}
		r, n := m.decodeRune(b, 0)
		return tup(r, mkInt(n))
	})
	reg("unicode.Is", func(m *M, a []Value) Value { return m.unicodeIs(a[0], a[1]) })
	reg("unicode.isExcludingLatin", func(m *M, a []Value) Value { return m.unicodeIs(a[0], a[1]) })

	// math
	reg("math.Float64bits math.Float32bits", func(m *M, a []Value) Value { v := a[0]; v.K = KInt; return v })
	reg("math.Float64frombits math.Float32frombits", func(m *M, a []Value) Value { v := a[0]; v.K = KFloat; return v })
	reg("math.Floor math.floor", fl1(math.Floor))
	reg("math.Ceil math.ceil", fl1(math.Ceil))
	reg("math.Trunc math.trunc", fl1(math.Trunc))
	reg("math.Sqrt math.sqrt", fl1(math.Sqrt))

	// conversions of numbers from text: an uninterpreted function of the text
	reg("strconv.ParseFloat", parseFloat)

	// time and environment
	reg("time.initLocal", nop)
	reg("time.runtimeNano", func(m *M, a []Value) Value { return mkInt(1) })
	reg("time.now time.runtimeNow", func(m *M, a []Value) Value { return tup(mkInt(1700000000), mkIntW(0, 32), mkInt(1)) })
	reg("syscall.Getenv", func(m *M, a []Value) Value { return tup(mkStr(""), mkBool(false)) })
	reg("os.Getenv", func(m *M, a []Value) Value { return mkStr("") })
	reg("internal/godebug.New", func(m *M, a []Value) Value { return Value{K: KPtr} })
	reg("(*internal/godebug.Setting).Value", func(m *M, a []Value) Value { return mkStr("") })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("internal/stringslite.Index", func(m *M, a []Value) Value {
		return mkInt(m.indexSub(m.bytesOf(a[0]), m.bytesOf(a[1])))
	})
	reg("internal/stringslite.IndexByte", func(m *M, a []Value) Value {
		return mkInt(m.indexByte(m.bytesOf(a[0]), m.T.of(a[1])))
	})
	for name, f := range map[string]func(rune) rune{
		"unicode.SimpleFold": unicode.SimpleFold, "unicode.ToLower": unicode.ToLower,
		"verif/harness/sym.foldRune": foldRune,
		"unicode.ToUpper":            unicode.ToUpper, "unicode.ToTitle": unicode.ToTitle,
	} {
		rf := &runeFn{f: f}
		reg(name, func(m *M, a []Value) Value { return m.runeFunc(rf, a[0]) })
	}
	reg("internal/stringslite.Clone strings.Clone", func(m *M, a []Value) Value { return a[0] })

	symAPI()
	reflectAPI()
}

// modelTable names standard library functions executed as a Go model in
// package sym.
var modelTable = map[string]string{"strings.EqualFold": "EqualFold", "errors.Is": "ErrorsIs", "errors.As": "ErrorsAs", "sort.Slice": "SortSlice", "sort.SliceStable": "SortSlice", "sort.SliceIsSorted": "SliceIsSorted",
	"reflect.Swapper": "Swapper", "reflect.Copy": "ReflectCopy", "(reflect.Value).MapRange": "MapRange",
	"(*reflect.MapIter).Next": "MapIterNext", "(*reflect.MapIter).Key": "MapIterKey", "(*reflect.MapIter).Value": "MapIterValue"}

func foldRune(r rune) rune {
	m := r
	for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
		m = min(m, f)
	}
	return m
}

func fl1(g func(float64) float64) simple {
	return func(m *M, a []Value) Value {
		return mkF64(g(math.Float64frombits(m.sample(a[0]).N)))
	}
}

// unicodeIs builds the membership of r in a *unicode.RangeTable as one term.
func (m *M) unicodeIs(tab, r Value) Value {
	if tab.R == nil {
		m.nilDeref()
	}
	ti := m.p.rangeTabTI
	o := tab.R.(*Object)
	field := func(name int) Value { return o.get(int(tab.N) + ti.offs[name]) }
	T := m.T
	rt := T.of(r)
	res := T.fls
	signed := T.Slt(rt, T.Const(0, 32))
	addRange := func(lo, hi, stride uint64) {
		if rt.hi < lo || rt.lo > hi {
			return
		}
		c := m.inRange(rt, lo, hi)
		if stride == 2 {
			c = T.And(c, T.Eq(T.Bin(OpBAnd, rt, T.Const(1, 32)), T.Const(lo&1, 32)))
		} else if stride > 1 && (hi-lo)/stride < 8 {
			c = T.fls
			for x := lo; x <= hi; x += stride {
				c = T.Or(c, T.Eq(rt, T.Const(x, 32)))
			}
		} else if stride > 1 {
			d := T.Bin(OpSub, rt, T.Const(lo, 32))
			c = T.And(c, T.Eq(T.Bin(OpURem, d, T.Const(stride, 32)), T.Const(0, 32)))
		}
		res = T.Or(res, c)
	}
	if rt.op == OpConst {
		// concrete fast path
		x := rt.k
		hit := false
		m.eachRange(field(0), func(lo, hi, st uint64) {
			if lo <= x && x <= hi && (x-lo)%st == 0 {
				hit = true
			}
		})
		m.eachRange(field(1), func(lo, hi, st uint64) {
			if lo <= x && x <= hi && (x-lo)%st == 0 {
				hit = true
			}
		})
		return mkBool(hit)
	}
	key := [2]any{o, rt}
	if v, ok := m.rangeMemo[key]; ok {
		return v
	}
	m.eachRange(field(0), addRange)
	m.eachRange(field(1), addRange)
	v := termVal(T.And(T.Not(signed), res))
	m.rangeMemo[key] = v
	return v
}

func (m *M) eachRange(sl Value, f func(lo, hi, stride uint64)) {
	if sl.R == nil {
		return
	}
	s := sl.R.(*Slice)
	for i := 0; i < s.len; i++ {
		b := s.off + i*s.esz
		f(s.obj.get(b).N, s.obj.get(b+1).N, max(1, s.obj.get(b+2).N))
	}
}

// runeSeg is a run of characters that a rune function maps alike: by adding
// a constant, or (swap) by exchanging each pair of neighbours from lo on.
type runeSeg struct {
	lo, hi, d uint32
	swap      bool
}

type runeFn struct {
	once sync.Once
	f    func(rune) rune
	segs []runeSeg
}

func (rf *runeFn) build() {
	const end = 0x110000
	for r := rune(0); r < end; {
		d := rf.f(r) - r
		if d == 0 {
			r++
			continue
		}
		if d == 1 && r+1 < end && rf.f(r+1) == r {
			lo := r
			for r+1 < end && rf.f(r) == r+1 && rf.f(r+1) == r {
				r += 2
			}
			rf.segs = append(rf.segs, runeSeg{uint32(lo), uint32(r - 1), 0, true})
			continue
		}
		lo := r
		for r < end && rf.f(r)-r == d {
			r++
		}
		rf.segs = append(rf.segs, runeSeg{uint32(lo), uint32(r - 1), uint32(d), false})
	}
}

// runeFunc applies a function of one character whose graph is taken from the
// linked standard library at all 0x110000 code points.
func (m *M) runeFunc(rf *runeFn, a Value) Value {
	rt := m.T.of(a)
	if rt.op == OpConst {
		return mkIntW(uint64(uint32(rf.f(rune(int32(rt.k))))), 32)
	}
	rf.once.Do(rf.build)
	T := m.T
	segs := rf.segs
	var tree func(i, j int, lo, hi uint64) *Term
	tree = func(i, j int, lo, hi uint64) *Term {
		for i < j && uint64(segs[i].hi) < lo {
			i++
		}
		for i < j && uint64(segs[j-1].lo) > hi {
			j--
		}
		if i == j {
			return rt
		}
		if j-i == 1 {
			s := segs[i]
			var v *Term
			if s.swap {
				one := T.Const(1, 32)
				base := T.Const(uint64(s.lo), 32)
				v = T.Bin(OpAdd, base, T.Bin(OpBXor, T.Bin(OpSub, rt, base), one))
				if s.lo&1 == 0 {
					v = T.Bin(OpBXor, rt, one)
				}
			} else {
				v = T.Bin(OpAdd, rt, T.Const(uint64(s.d), 32))
			}
			return T.Ite(m.inRange(rt, uint64(s.lo), uint64(s.hi)), v, rt)
		}
		k := (i + j) / 2
		mid := uint64(segs[k].lo)
		return T.Ite(T.Ult(rt, T.Const(mid, 32)), tree(i, k, lo, mid-1), tree(k, j, mid, hi))
	}
	return termVal(tree(0, len(segs), rt.lo, rt.hi))
}

// parseFloat: the same text gives the same value; nothing else is known.
func parseFloat(m *M, a []Value) Value {
	bitsz := m.concInt(a[1])
	if s, ok := a[0].str(); ok {
		f, err := strconv.ParseFloat(s, bitsz)
		if err == nil {
			return tup(mkF64(f), Value{K: KIface})
		}
		return tup(mkF64(f), m.runtimeError("strconv.ParseFloat: "+err.Error()))
	}
	terms := a[0].R.(*SymStr).b
	key := strconv.Itoa(bitsz)
	for _, t := range terms {
		key += "," + strconv.Itoa(int(t.id))
	}
	n, ok := m.ufs[key]
	if !ok {
		n = len(m.ufs)
		m.ufs[key] = n
	}
	ev := m.T.Var("uf.ParseFloat.err#"+strconv.Itoa(n), 0)
	fv := m.T.Var("uf.ParseFloat.val#"+strconv.Itoa(n), 64)
	m.approx = true
	if m.decide(ev) {
		return tup(floatVal(fv), m.runtimeError("strconv.ParseFloat: invalid"))
	}
	return tup(floatVal(fv), Value{K: KIface})
}

// ---- the harness API ----

const symPkg = "verif/harness/sym."

func symAPI() {
	s := func(name string, f simple) { reg(symPkg+name, f) }
	s("Byte", func(m *M, a []Value) Value { return termVal(m.T.Var(m.constStr(a[0], "name"), 8)) })
	s("Bool", func(m *M, a []Value) Value { return termVal(m.T.Var(m.constStr(a[0], "name"), 0)) })
	reg(symPkg+"Int64 "+symPkg+"Uint64", func(m *M, a []Value) Value { return termVal(m.T.Var(m.constStr(a[0], "name"), 64)) })
	s("Uint8", func(m *M, a []Value) Value { return termVal(m.T.Var(m.constStr(a[0], "name"), 8)) })
	reg(symPkg+"Int32 "+symPkg+"Rune32", func(m *M, a []Value) Value { return termVal(m.T.Var(m.constStr(a[0], "name"), 32)) })
	s("Float64", func(m *M, a []Value) Value { return floatVal(m.T.Var(m.constStr(a[0], "name"), 64)) })
	s("Int", func(m *M, a []Value) Value {
		lo, hi := m.concInt(a[1]), m.concInt(a[2])
		if hi < lo {
			panic(pathDead{"empty range"})
		}
		t := m.rangeVar(m.constStr(a[0], "name"), uint64(hi-lo))
		return termVal(m.T.Bin(OpAdd, t, m.T.Const(uint64(lo), 64)))
	})
	s("Choose", func(m *M, a []Value) Value {
		n := m.concInt(a[1])
		return mkInt(m.choose(m.constStr(a[0], "name"), n))
	})
	s("String", func(m *M, a []Value) Value {
		n := m.concInt(a[1])
		name := m.constStr(a[0], "name")
		b := make([]*Term, n)
		for i := range b {
			b[i] = m.T.Var(name+"["+strconv.Itoa(i)+"]", 8)
		}
		return mkSymStr(b)
	})
	s("Concrete", func(m *M, a []Value) Value { return mkInt(m.concInt(a[0])) })
	s("Decide", func(m *M, a []Value) Value { return mkBool(m.decideV(a[0])) })
	s("Assume", func(m *M, a []Value) Value {
		m.assume(m.T.of(a[0]))
		return Value{}
	})
	s("Assert", func(m *M, a []Value) Value {
		m.assert(a[0], m.constStr(a[1], "message"))
		return Value{}
	})
	s("Cover", func(m *M, a []Value) Value {
		m.covers[m.constStr(a[0], "label")]++
		return Value{}
	})
	obs := func(m *M, a []Value) Value {
		m.observe(m.constStr(a[0], "label"), a[1])
		return Value{}
	}
	for _, n := range []string{"Obs", "ObsS", "ObsB", "ObsF"} {
		s(n, obs)
	}
	s("And", func(m *M, a []Value) Value { return termVal(m.T.And(m.T.of(a[0]), m.T.of(a[1]))) })
	s("Or", func(m *M, a []Value) Value { return termVal(m.T.Or(m.T.of(a[0]), m.T.of(a[1]))) })
	s("IfInt", func(m *M, a []Value) Value {
		return termVal(m.T.Ite(m.T.of(a[0]), m.T.of(a[1]), m.T.of(a[2])))
	})
	s("SameFloat", func(m *M, a []Value) Value { return termVal(m.T.Eq(m.T.of(a[0]), m.T.of(a[1]))) })
	s("MonitorBegin", func(m *M, a []Value) Value { m.monBirth = max(m.birth, 1); return Value{} })
	s("MonitorEnd", func(m *M, a []Value) Value { m.monBirth = 0; return Value{} })
	s("AnyMapOrder", func(m *M, a []Value) Value { m.mapOrder = a[0].N == 1; return Value{} })
	s("Symbolic", func(m *M, a []Value) Value { return mkBool(true) })
	s("Thorough", func(m *M, a []Value) Value { return mkBool(m.thorough) })
	s("Main", nop)
	s("StepLimit", func(m *M, a []Value) Value { m.stepLimit = int64(m.concInt(a[0])); return Value{} })
	s("Check", func(m *M, a []Value) Value {
		// Check(name string, cases int, bound string, f func(int))
		cl := a[3].R.(*Closure)
		m.checks = append(m.checks, &Check{
			name: m.constStr(a[0], "name"), cases: m.concInt(a[1]),
			bound: m.constStr(a[2], "bound"), fn: cl.fn, bind: cl.bind,
		})
		return Value{}
	})
}

type Check struct {
	name  string
	cases int
	bound string
	fn    *Func
	bind  []Value
}

func (m *M) assert(v Value, msg string) {
	m.stats.Asserts++
	c := m.T.of(v)
	if c.op == OpConst {
		if c.k == 0 {
			m.recordViolation("assert", msg, m.model)
			panic(pathDead{"assert"})
		}
		return
	}
	m.stats.AssertSym++
	if m.eval(c) == 0 {
		m.recordViolation("assert", msg, m.model)
	} else if ok, md := m.sat(m.T.Not(c)); ok {
		m.recordViolation("assert", msg, md)
	} else {
		return
	}
	// go on with the inputs for which it holds
	m.assume(c)
}

var _ = sort.Strings
