package main

import (
	"fmt"
	"math"
	"strings"
)

type Kind uint8

const (
	KInv Kind = iota
	KBool
	KInt
	KFloat
	KStr
	KPtr
	KSlice
	KIface
	KFunc
	KMap
	KChan
	KStruct
	KTuple
	KNative
)

// Value is one cell or register.
//
//	KBool   N (0/1), or R *Term
//	KInt    W, N, or R *Term
//	KFloat  W, N (IEEE bits), or R *Term (bits)
//	KStr    R string or *SymStr
//	KPtr    R nil | *Object | *SymPtr | *RawView, N cell offset
//	KSlice  R nil | *Slice
//	KIface  R nil | *Iface
//	KFunc   R nil | *Closure
//	KMap    R nil | *Object (its cell 0 holds a KNative *MapData)
//	KStruct R []Value (flattened)
//	KTuple  R []Value
//	KNative R any (immutable host object)
type Value struct {
	K Kind
	W uint8
	N uint64
	R any
}

type SymStr struct{ b []*Term }

type Slice struct {
	obj           *Object
	off, len, cap int // off in cells; len, cap in elements
	esz           int
}

type Iface struct {
	t *TypeInfo
	v Value
}

type Closure struct {
	fn   *Func
	bind []Value
}

type Object struct {
	id     uint64    // = birth
	typ    *TypeInfo // element type (layout template)
	n      int       // number of elements
	cells  []Value
	tag    string
	zeroFn func(i int) Value
	sync   bool // synchronised memory (ignored by the sharing monitor)
}

// SymPtr points to obj.cells[base + idx*esz + add], 0 <= idx < cnt.
type SymPtr struct {
	obj            *Object
	base, esz, cnt int
	idx            *Term
	add            int
}

// RawView is a pointer to an interface cell reinterpreted as a two-word header.
type RawView struct {
	obj *Object
	off int
	fld int
}

func (o *Object) ncells() int { return o.n * o.typ.cells }

func (o *Object) zeroCell(i int) Value {
	ti := o.typ
	if ti.cells == 0 {
		return Value{}
	}
	i %= ti.cells
	for ti.zero == nil && ti.kind == TArray {
		ti = ti.elem
		i %= ti.cells
	}
	return ti.zero[i]
}

func (o *Object) get(i int) Value {
	if i < len(o.cells) {
		return o.cells[i]
	}
	return o.zeroCell(i)
}

func (o *Object) grow(i int) {
	for len(o.cells) <= i {
		if o.typ.zero != nil && len(o.cells)%o.typ.cells == 0 {
			o.cells = append(o.cells, o.typ.zero...)
		} else {
			o.cells = append(o.cells, o.zeroCell(len(o.cells)))
		}
	}
}

func mkBool(b bool) Value {
	if b {
		return Value{K: KBool, N: 1}
	}
	return Value{K: KBool}
}

func mkInt(v int) Value              { return Value{K: KInt, W: 64, N: uint64(v)} }
func mkIntW(v uint64, w uint8) Value { return Value{K: KInt, W: w, N: v & mask(w)} }
func mkStr(s string) Value           { return Value{K: KStr, R: s} }
func mkF64(f float64) Value          { return Value{K: KFloat, W: 64, N: math.Float64bits(f)} }

func termVal(t *Term) Value {
	if t.w == 0 {
		if t.op == OpConst {
			return Value{K: KBool, N: t.k}
		}
		return Value{K: KBool, R: t}
	}
	if t.op == OpConst {
		return Value{K: KInt, W: t.w, N: t.k}
	}
	return Value{K: KInt, W: t.w, R: t}
}

func floatVal(t *Term) Value {
	v := termVal(t)
	v.K = KFloat
	return v
}

func (v Value) isSym() bool {
	switch v.K {
	case KBool, KInt, KFloat:
		return v.R != nil
	case KStr:
		_, ok := v.R.(*SymStr)
		return ok
	}
	return false
}

// term of a scalar.
func (T *Terms) of(v Value) *Term {
	if v.R != nil {
		return v.R.(*Term)
	}
	if v.K == KBool {
		return T.Bool(v.N == 1)
	}
	return T.Const(v.N, v.W)
}

func (v Value) str() (string, bool) {
	s, ok := v.R.(string)
	return s, ok
}

func strLen(v Value) int {
	switch s := v.R.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(unsupported{fmt.Sprintf("strLen of %v", v)})
}

// strByte returns the i-th byte as a KInt of width 8.
func strByte(v Value, i int) Value {
	switch s := v.R.(type) {
	case string:
		return Value{K: KInt, W: 8, N: uint64(s[i])}
	case *SymStr:
		return termVal(s.b[i])
	}
	panic("strByte")
}

func (T *Terms) strTerms(v Value) []*Term {
	switch s := v.R.(type) {
	case string:
		r := make([]*Term, len(s))
		for i := range r {
			r[i] = T.Const(uint64(s[i]), 8)
		}
		return r
	case *SymStr:
		return s.b
	}
	panic("strTerms")
}

func mkSymStr(b []*Term) Value {
	for _, t := range b {
		if t.op != OpConst {
			return Value{K: KStr, R: &SymStr{b}}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.k)
	}
	return mkStr(string(bs))
}

func substr(v Value, lo, hi int) Value {
	switch s := v.R.(type) {
	case string:
		return mkStr(s[lo:hi])
	case *SymStr:
		return mkSymStr(s.b[lo:hi])
	}
	panic("substr")
}

func (T *Terms) concat(a, b Value) Value {
	as, ok1 := a.R.(string)
	bs, ok2 := b.R.(string)
	if ok1 && ok2 {
		return mkStr(as + bs)
	}
	if ok1 && as == "" {
		return b
	}
	if ok2 && bs == "" {
		return a
	}
	x, y := T.strTerms(a), T.strTerms(b)
	r := make([]*Term, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return Value{K: KStr, R: &SymStr{r}}
}

func (v Value) isNil() bool { return v.R == nil }

func (v Value) String() string {
	switch v.K {
	case KInv:
		return "<invalid>"
	case KBool:
		if v.R != nil {
			return v.R.(*Term).String()
		}
		return fmt.Sprint(v.N == 1)
	case KInt:
		if v.R != nil {
			return v.R.(*Term).String()
		}
		return fmt.Sprintf("%d:i%d", int64(signExt(v.N, v.W)), v.W)
	case KFloat:
		if v.R != nil {
			return v.R.(*Term).String()
		}
		return fmt.Sprint(math.Float64frombits(v.N))
	case KStr:
		if s, ok := v.R.(string); ok {
			return fmt.Sprintf("%q", s)
		}
		var p []string
		for _, t := range v.R.(*SymStr).b {
			p = append(p, t.String())
		}
		return "str[" + strings.Join(p, ",") + "]"
	case KPtr:
		switch o := v.R.(type) {
		case nil:
			return "nil"
		case *Object:
			return fmt.Sprintf("&obj%d+%d", o.id, v.N)
		}
		return fmt.Sprintf("&%T", v.R)
	case KSlice:
		if v.R == nil {
			return "[]nil"
		}
		s := v.R.(*Slice)
		return fmt.Sprintf("obj%d[%d:%d/%d]", s.obj.id, s.off, s.len, s.cap)
	case KIface:
		if v.R == nil {
			return "iface(nil)"
		}
		i := v.R.(*Iface)
		return fmt.Sprintf("iface(%s,%s)", i.t, i.v)
	case KFunc:
		if v.R == nil {
			return "func(nil)"
		}
		return "func(" + v.R.(*Closure).fn.name + ")"
	case KStruct, KTuple:
		var p []string
		for _, x := range v.R.([]Value) {
			p = append(p, x.String())
		}
		return "{" + strings.Join(p, " ") + "}"
	}
	return fmt.Sprintf("<%d %T>", v.K, v.R)
}
