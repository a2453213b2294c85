package main

// Built-in functions, maps, ranges, runes and run-time errors.

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"unicode/utf8"
)

func (m *M) runtimeErrorT(msg string) Value { return m.runtimeError(msg) }

func (m *M) runtimeError(msg string) Value {
	return Value{K: KIface, R: &Iface{m.p.rtErrTI, mkStr(msg)}}
}

func (m *M) builtin(fr *frame, in *instr, args []Value) Value {
	switch in.bname {
	case "len":
		v := args[0]
		switch v.K {
		case KStr:
			return mkInt(strLen(v))
		case KSlice:
			if v.R == nil {
				return mkInt(0)
			}
			return mkInt(v.R.(*Slice).len)
		case KMap:
			if v.R == nil {
				return mkInt(0)
			}
			return mkInt(len(mapData(v).keys))
		case KPtr:
			return mkInt(in.ti2.elem.n)
		case KStruct:
			return mkInt(in.ti2.n)
		}
	case "cap":
		v := args[0]
		switch v.K {
		case KSlice:
			if v.R == nil {
				return mkInt(0)
			}
			return mkInt(v.R.(*Slice).cap)
		case KPtr:
			return mkInt(in.ti2.elem.n)
		case KStruct:
			return mkInt(in.ti2.n)
		}
	case "append":
		return m.appendOp(args[0], args[1], in.ti2)
	case "copy":
		return m.copyOp(args[0], args[1])
	case "delete":
		m.mapDelete(args[0], args[1])
		return Value{}
	case "clear":
		v := args[0]
		if v.R == nil {
			return Value{}
		}
		if v.K == KMap {
			m.store(v.R.(*Object), 0, Value{K: KNative, R: &MapData{}})
			return Value{}
		}
		s := v.R.(*Slice)
		for i := 0; i < s.len*s.esz; i++ {
			m.store(s.obj, s.off+i, s.obj.zeroCell(s.off+i))
		}
		return Value{}
	case "recover":
		d := fr.deferOf
		if d != nil && d.pan && !fr.didRec && d.ph == phUnwind {
			fr.didRec = true
			return d.panVal
		}
		return Value{K: KIface}
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			r = m.minmax(in.bname == "min", r, x, in.ti2)
		}
		return r
	case "print", "println":
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].R == nil {
			m.nilDeref()
		}
		return args[0]
	case "String":
		n := m.concInt(args[1])
		if n == 0 {
			return mkStr("")
		}
		return m.cellsToStr(args[0].R.(*Object), int(args[0].N), n)
	case "StringData":
		s := m.strToBytes(args[0], m.p.byteTI)
		if s.R == nil || s.R.(*Slice).len == 0 {
			return Value{K: KPtr}
		}
		return Value{K: KPtr, R: s.R.(*Slice).obj}
	case "SliceData":
		if args[0].R == nil {
			return Value{K: KPtr}
		}
		s := args[0].R.(*Slice)
		return Value{K: KPtr, R: s.obj, N: uint64(s.off)}
	case "Slice":
		n := m.concInt(args[1])
		if args[0].R == nil {
			return Value{K: KSlice}
		}
		o := args[0].R.(*Object)
		return Value{K: KSlice, R: &Slice{o, int(args[0].N), n, n, in.ti.elem.cells}}
	case "Sizeof":
		return mkInt(int(in.ti2.size))
	}
	panic(unsupported{"builtin " + in.bname})
}

func (m *M) minmax(isMin bool, a, b Value, ti *TypeInfo) Value {
	if a.K == KInt {
		x, y := m.T.of(a), m.T.of(b)
		c := m.T.Ult(x, y)
		if ti.signed {
			c = m.T.Slt(x, y)
		}
		if !isMin {
			c = m.T.Not(c)
		}
		return termVal(m.T.Ite(c, x, y))
	}
	if a.K == KFloat && a.R == nil && b.R == nil {
		x, y := math.Float64frombits(a.N), math.Float64frombits(b.N)
		if isMin {
			return mkF64(min(x, y))
		}
		return mkF64(max(x, y))
	}
	panic(unsupported{"min/max"})
}

func (m *M) appendOp(a, b Value, ti *TypeInfo) Value {
	e := ti.elem
	var n int
	var src []Value
	switch b.K {
	case KStr:
		n = strLen(b)
		src = make([]Value, n)
		for i := range src {
			src[i] = strByte(b, i)
		}
	case KSlice:
		if b.R != nil {
			s := b.R.(*Slice)
			n = s.len
			src = m.loadCells(s.obj, s.off, n*s.esz)
		}
	default:
		panic(unsupported{"append operand"})
	}
	if n == 0 {
		return a
	}
	if a.R != nil {
		s := a.R.(*Slice)
		if s.len+n <= s.cap {
			base := s.off + s.len*s.esz
			for i, v := range src {
				m.store(s.obj, base+i, v)
			}
			return Value{K: KSlice, R: &Slice{s.obj, s.off, s.len + n, s.cap, s.esz}}
		}
		nl := s.len + n
		c := growCap(nl, s.cap, e.size, e.noPtr)
		o := m.alloc(e, c)
		o.cells = append(m.loadCells(s.obj, s.off, s.len*s.esz), src...)
		return Value{K: KSlice, R: &Slice{o, 0, nl, c, s.esz}}
	}
	c := growCap(n, 0, e.size, e.noPtr)
	o := m.alloc(e, c)
	o.cells = src
	return Value{K: KSlice, R: &Slice{o, 0, n, c, e.cells}}
}

func (m *M) copyOp(dst, src Value) Value {
	if dst.R == nil {
		return mkInt(0)
	}
	d := dst.R.(*Slice)
	var cells []Value
	n := 0
	switch src.K {
	case KStr:
		n = min(d.len, strLen(src))
		for i := 0; i < n; i++ {
			cells = append(cells, strByte(src, i))
		}
	case KSlice:
		if src.R == nil {
			return mkInt(0)
		}
		s := src.R.(*Slice)
		n = min(d.len, s.len)
		cells = m.loadCells(s.obj, s.off, n*s.esz)
	}
	for i, v := range cells {
		m.store(d.obj, d.off+i, v)
	}
	return mkInt(n)
}

// ---- maps ----

// MapData is an immutable association list in insertion order.
type MapData struct {
	keys, vals []Value
}

func mapVals2(f func(Value) Value, vs []Value) []Value {
	var out []Value
	for i := range vs {
		n := f(vs[i])
		if !rEq(n.R, vs[i].R) {
			if out == nil {
				out = append([]Value(nil), vs...)
			}
			out[i] = n
		}
	}
	return out
}

func (d *MapData) mapVals(f func(Value) Value) any {
	k := mapVals2(f, d.keys)
	v := mapVals2(f, d.vals)
	if k == nil && v == nil {
		return nil
	}
	n := &MapData{d.keys, d.vals}
	if k != nil {
		n.keys = k
	}
	if v != nil {
		n.vals = v
	}
	return n
}

// strict signs keys by content: outcomes with different key sets stay apart.
func (d *MapData) sign(s *signer) {
	s.u(uint64(len(d.keys)))
	for i := range d.keys {
		k := d.keys[i]
		switch {
		case k.K == KStr:
			if c, ok := k.R.(string); ok {
				s.u(uint64(len(c)))
				s.buf = append(s.buf, c...)
			} else {
				for _, t := range k.R.(*SymStr).b {
					s.u(uint64(t.id))
				}
			}
		case k.K == KInt || k.K == KBool:
			if k.R == nil {
				s.u(k.N)
			} else {
				s.u(uint64(k.R.(*Term).id) | 1<<40)
			}
		}
		s.val(d.keys[i])
		s.val(d.vals[i])
	}
}

func (d *MapData) merge(c *mergeCtx, o *MapData) any {
	return &MapData{d.keys, c.vals(d.vals, o.vals)}
}

func mapData(v Value) *MapData {
	o := v.R.(*Object)
	if d, ok := o.get(0).R.(*MapData); ok {
		return d
	}
	return &MapData{}
}

func (m *M) makeMap(ti *TypeInfo) Value {
	o := m.alloc(ti, 1)
	o.cells = []Value{{K: KNative, R: &MapData{}}}
	return Value{K: KMap, R: o}
}

func (m *M) hashable(k Value) {
	if k.K == KIface && k.R != nil {
		i := k.R.(*Iface)
		if !i.t.comparable || !types.Comparable(i.t.t) {
			panic(goPanic{m.runtimeError("hash of unhashable type " + i.t.String())})
		}
		m.hashable(i.v)
	}
}

// mapFind returns the index of the key or -1 (forking on symbolic equality).
func (m *M) mapFind(d *MapData, k Value) int {
	for i := range d.keys {
		e := m.equal(d.keys[i], k)
		if m.decide(e) {
			return i
		}
	}
	return -1
}

func (m *M) mapUpdate(mv, k, v Value) {
	if mv.R == nil {
		panic(goPanic{m.runtimeError("assignment to entry in nil map")})
	}
	m.hashable(k)
	d := mapData(mv)
	i := m.mapFind(d, k)
	n := &MapData{keys: d.keys, vals: append([]Value(nil), d.vals...)}
	if i >= 0 {
		n.vals[i] = v
	} else {
		n.keys = append(append([]Value(nil), d.keys...), k)
		n.vals = append(n.vals, v)
	}
	m.store(mv.R.(*Object), 0, Value{K: KNative, R: n})
}

func (m *M) mapDelete(mv, k Value) {
	if mv.R == nil {
		return
	}
	d := mapData(mv)
	i := m.mapFind(d, k)
	if i < 0 {
		return
	}
	n := &MapData{}
	n.keys = append(append(n.keys, d.keys[:i]...), d.keys[i+1:]...)
	n.vals = append(append(n.vals, d.vals[:i]...), d.vals[i+1:]...)
	m.store(mv.R.(*Object), 0, Value{K: KNative, R: n})
}

func (m *M) lookup(x, k Value, ti *TypeInfo, commaOk bool) Value {
	if x.K == KStr {
		return m.index(x, k, ti)
	}
	v := ti.elem.zeroVal()
	ok := false
	m.hashable(k)
	if x.R != nil {
		d := mapData(x)
		if i := m.mapFind(d, k); i >= 0 {
			v, ok = d.vals[i], true
		}
	}
	if commaOk {
		return Value{K: KTuple, R: []Value{v, mkBool(ok)}}
	}
	return v
}

// mapIter is an iteration in progress (immutable; it lives in an object cell).
type mapIter struct {
	mp   Value
	keys []Value
	pos  int
}

func (it *mapIter) mapVals(f func(Value) Value) any {
	p := f(it.mp)
	k := mapVals2(f, it.keys)
	if k == nil && rEq(p.R, it.mp.R) {
		return nil
	}
	n := &mapIter{p, it.keys, it.pos}
	if k != nil {
		n.keys = k
	}
	return n
}

func (it *mapIter) sign(s *signer) {
	s.val(it.mp)
	s.u(uint64(it.pos))
	(&MapData{it.keys, it.keys}).sign(s)
}

func (it *mapIter) merge(c *mergeCtx, o *mapIter) any {
	return &mapIter{c.val(it.mp, o.mp), it.keys, it.pos}
}

func (m *M) mkRange(x Value, ti *TypeInfo) Value {
	o := m.alloc(m.anyTI, 2)
	if x.K == KStr {
		o.cells = []Value{x, mkInt(0)}
		return Value{K: KPtr, R: o}
	}
	it := &mapIter{mp: x}
	if x.R != nil {
		d := mapData(x)
		keys := append([]Value(nil), d.keys...)
		if m.mapOrder && len(keys) > 1 {
			if len(keys) > 5 {
				m.note("map iteration order explored only for maps of at most 5 entries")
			} else {
				for i := 0; i < len(keys)-1; i++ {
					m.freshN++
					j := i + m.choose("maporder#"+strconv.Itoa(m.freshN), len(keys)-i)
					k := keys[j]
					copy(keys[i+1:j+1], keys[i:j])
					keys[i] = k
				}
			}
		}
		it.keys = keys
	}
	o.cells = []Value{{K: KNative, R: it}, mkInt(0)}
	return Value{K: KPtr, R: o}
}

func (m *M) next(v Value, in *instr) Value {
	o := v.R.(*Object)
	if in.isStr {
		s := o.get(0)
		i := int(o.get(1).N)
		if i >= strLen(s) {
			return Value{K: KTuple, R: []Value{mkBool(false), mkInt(0), mkIntW(0, 32)}}
		}
		r, n := m.decodeRune(s, i)
		m.store(o, 1, mkInt(i+n))
		return Value{K: KTuple, R: []Value{mkBool(true), mkInt(i), r}}
	}
	it := o.get(0).R.(*mapIter)
	kz := in.ti.fields[1].zeroVal()
	vz := in.ti.fields[2].zeroVal()
	if it.mp.R == nil {
		return Value{K: KTuple, R: []Value{mkBool(false), kz, vz}}
	}
	d := mapData(it.mp)
	for p := it.pos; p < len(it.keys); p++ {
		k := it.keys[p]
		for i := range d.keys {
			if e := m.equal(d.keys[i], k); e.op == OpConst && e.k == 1 {
				m.store(o, 0, Value{K: KNative, R: &mapIter{it.mp, it.keys, p + 1}})
				return Value{K: KTuple, R: []Value{mkBool(true), k, d.vals[i]}}
			}
		}
	}
	m.store(o, 0, Value{K: KNative, R: &mapIter{it.mp, it.keys, len(it.keys)}})
	return Value{K: KTuple, R: []Value{mkBool(false), kz, vz}}
}

// ---- runes ----

func (m *M) inRange(t *Term, lo, hi uint64) *Term {
	c := func(v uint64) *Term { return m.T.Const(v, t.w) }
	if lo == hi {
		return m.T.Eq(t, c(lo))
	}
	r := m.T.tru
	if lo > 0 {
		r = m.T.Not(m.T.Ult(t, c(lo)))
	}
	if hi < mask(t.w) {
		r = m.T.And(r, m.T.Not(m.T.Ult(c(hi), t)))
	}
	return r
}

// decodeRune decodes the character of v at i (forking on its length).
func (m *M) decodeRune(v Value, i int) (Value, int) {
	if s, ok := v.R.(string); ok {
		r, n := utf8.DecodeRuneInString(s[i:])
		return mkIntW(uint64(uint32(r)), 32), n
	}
	b := v.R.(*SymStr).b[i:]
	if len(b) > 4 {
		b = b[:4]
	}
	return m.decodeTerms(b)
}

func (m *M) decodeTerms(b []*Term) (Value, int) {
	T := m.T
	z := func(t *Term) *Term { return T.Zext(t, 32) }
	k := func(v uint64) *Term { return T.Const(v, 32) }
	cont := func(t *Term) *Term { return m.inRange(t, 0x80, 0xBF) }
	low6 := func(t *Term) *Term { return T.Bin(OpBAnd, z(t), k(0x3F)) }
	ascii := T.Ult(b[0], T.Const(0x80, 8))
	one := func() (Value, int) {
		return termVal(T.Ite(ascii, z(b[0]), k(0xFFFD))), 1
	}
	if len(b) >= 2 {
		c := T.And(m.inRange(b[0], 0xC2, 0xDF), cont(b[1]))
		if m.decide(c) {
			r := T.Bin(OpBOr, T.Bin(OpShl, T.Bin(OpBAnd, z(b[0]), k(0x1F)), k(6)), low6(b[1]))
			return termVal(r), 2
		}
	}
	if len(b) >= 3 {
		eq := func(x uint64) *Term { return T.Eq(b[0], T.Const(x, 8)) }
		lead := T.Or(T.And(eq(0xE0), m.inRange(b[1], 0xA0, 0xBF)),
			T.Or(T.And(eq(0xED), m.inRange(b[1], 0x80, 0x9F)),
				T.And(T.Or(m.inRange(b[0], 0xE1, 0xEC), m.inRange(b[0], 0xEE, 0xEF)), cont(b[1]))))
		c := T.And(lead, cont(b[2]))
		if m.decide(c) {
			r := T.Bin(OpBOr, T.Bin(OpShl, T.Bin(OpBAnd, z(b[0]), k(0x0F)), k(12)),
				T.Bin(OpBOr, T.Bin(OpShl, low6(b[1]), k(6)), low6(b[2])))
			return termVal(r), 3
		}
	}
	if len(b) >= 4 {
		eq := func(x uint64) *Term { return T.Eq(b[0], T.Const(x, 8)) }
		lead := T.Or(T.And(eq(0xF0), m.inRange(b[1], 0x90, 0xBF)),
			T.Or(T.And(eq(0xF4), m.inRange(b[1], 0x80, 0x8F)),
				T.And(m.inRange(b[0], 0xF1, 0xF3), cont(b[1]))))
		c := T.And(lead, T.And(cont(b[2]), cont(b[3])))
		if m.decide(c) {
			r := T.Bin(OpBOr, T.Bin(OpShl, T.Bin(OpBAnd, z(b[0]), k(0x07)), k(18)),
				T.Bin(OpBOr, T.Bin(OpShl, low6(b[1]), k(12)),
					T.Bin(OpBOr, T.Bin(OpShl, low6(b[2]), k(6)), low6(b[3]))))
			return termVal(r), 4
		}
	}
	return one()
}

// runeToStr is string(rune).
func (m *M) runeToStr(v Value, from *TypeInfo) Value {
	if v.R == nil {
		x := int64(v.N)
		if from.signed {
			x = int64(signExt(v.N, v.W))
		}
		if x < 0 || x > 0x10FFFF {
			x = 0xFFFD
		}
		return mkStr(string(rune(x)))
	}
	T := m.T
	t := v.R.(*Term)
	if t.w < 32 {
		if from.signed {
			t = T.Sext(t, 32)
		} else {
			t = T.Zext(t, 32)
		}
	}
	w := t.w
	k := func(x uint64) *Term { return T.Const(x, w) }
	bad := T.Or(T.Ult(k(0x10FFFF), t), m.inRange(t, 0xD800, 0xDFFF))
	b := func(x *Term, sh, mk, or uint64) *Term {
		y := T.Bin(OpBOr, T.Bin(OpBAnd, T.Bin(OpLshr, x, k(sh)), k(mk)), k(or))
		return T.Trunc(y, 8)
	}
	if m.decide(T.Ult(t, k(0x80))) {
		return mkSymStr([]*Term{T.Trunc(t, 8)})
	}
	if m.decide(T.Ult(t, k(0x800))) {
		return mkSymStr([]*Term{b(t, 6, 0x1F, 0xC0), b(t, 0, 0x3F, 0x80)})
	}
	if m.decide(T.Or(bad, T.Ult(t, k(0x10000)))) {
		t = T.Ite(bad, k(0xFFFD), t)
		return mkSymStr([]*Term{b(t, 12, 0x0F, 0xE0), b(t, 6, 0x3F, 0x80), b(t, 0, 0x3F, 0x80)})
	}
	return mkSymStr([]*Term{b(t, 18, 0x07, 0xF0), b(t, 12, 0x3F, 0x80), b(t, 6, 0x3F, 0x80), b(t, 0, 0x3F, 0x80)})
}

// ---- violations, observations ----

func (m *M) where() string {
	var names []string
	for f := m.fr; f != nil && len(names) < 6; f = f.caller {
		names = append(names, f.f.name)
	}
	return fmt.Sprint(names)
}

func (m *M) modelMap(md *Model) map[string]uint64 {
	r := map[string]uint64{}
	for _, v := range m.T.varLst {
		if x := md.get(v.varID); x != 0 {
			r[v.name] = x
		}
	}
	return r
}

const maxViolPerKey = 3

func (m *M) recordViolation(kind, msg string, md *Model) {
	if m.initing {
		return
	}
	key := kind + ":" + msg
	if kind == "race" || kind == "boxwrite" {
		key += m.where()
	}
	m.violKey[key]++
	if m.violKey[key] > maxViolPerKey {
		return
	}
	m.viol = append(m.viol, &Violation{Harness: m.harness, Case: m.caseNo, Kind: kind, Msg: msg,
		Where: m.where(), Model: m.modelMap(md), MapOrder: m.mapOrder})
}

func (m *M) sharedWrite(o *Object, i int) {
	what := o.tag
	if what == "" {
		what = o.typ.String()
	}
	m.recordViolation("race", "unsynchronised write to memory shared between parses ("+what+")", m.model)
}

// obs object layout: cell 0 = count, then label, value pairs.
func (m *M) observe(label string, v Value) {
	o := m.obs
	n := 0
	if c := o.get(0); c.K == KInt {
		n = int(c.N)
	}
	m.store0(o, 1+2*n, mkStr(label))
	m.store0(o, 2+2*n, v)
	m.store0(o, 0, mkInt(n+1))
}

func (m *M) evalStr(v Value, md *Model) string {
	switch s := v.R.(type) {
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i, t := range s.b {
			b[i] = byte(m.evalIn(t, md))
		}
		return string(b)
	}
	return ""
}

func (m *M) renderObs(md *Model) []string {
	o := m.obs
	n := 0
	if c := o.get(0); c.K == KInt {
		n = int(c.N)
	}
	var r []string
	for i := 0; i < n; i++ {
		l, _ := o.get(1 + 2*i).R.(string)
		v := o.get(2 + 2*i)
		var s string
		switch v.K {
		case KStr:
			s = strconv.Quote(m.evalStr(v, md))
		case KBool:
			s = strconv.FormatBool(m.evalIn(m.T.of(v), md) == 1)
		case KInt:
			s = strconv.FormatInt(int64(signExt(m.evalIn(m.T.of(v), md), v.W)), 10)
		case KFloat:
			s = "f" + strconv.FormatUint(m.evalIn(m.T.of(v), md), 16)
		default:
			s = "?"
		}
		r = append(r, l+"="+s)
	}
	return r
}

// pathEnd is called when a top-level path has finished.
func (m *M) pathEnd(fr *frame) {
	m.stats.Paths++
	if fr.out.pan {
		m.recordViolation("panic", "uncaught panic: "+m.panicText(fr.out.val), m.model)
		return
	}
	// spread the samples over the run: every power of two, then periodically
	n := m.stats.Paths
	if len(m.samples) < m.maxSamples && (n&(n-1) == 0 || n%m.sampleGap == 0) {
		m.samples = append(m.samples, &PathSample{Harness: m.harness, Case: m.caseNo,
			Model: m.modelMap(m.model), Obs: m.renderObs(m.model)})
		// other inputs taking this path
	pool:
		for _, md := range m.pool {
			if len(m.samples) >= m.maxSamples {
				break
			}
			if md == m.model {
				continue
			}
			for _, t := range m.pc {
				if m.evalIn(t, md) != 1 {
					continue pool
				}
			}
			m.samples = append(m.samples, &PathSample{Harness: m.harness, Case: m.caseNo,
				Model: m.modelMap(md), Obs: m.renderObs(md)})
		}
	}
}

func (m *M) panicText(v Value) string {
	if v.K != KIface || v.R == nil {
		return "nil"
	}
	i := v.R.(*Iface)
	switch i.v.K {
	case KStr:
		return i.t.String() + ": " + m.evalStr(i.v, m.model)
	case KPtr:
		if o, ok := i.v.R.(*Object); ok && o.get(int(i.v.N)).K == KStr {
			return i.t.String() + ": " + m.evalStr(o.get(int(i.v.N)), m.model)
		}
	}
	return i.t.String()
}

func sortedKeys[V any](mp map[string]V) []string {
	var ks []string
	for k := range mp {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
