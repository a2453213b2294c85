package main

// A model of the parts of package reflect the code under test uses.

import (
	"go/types"
	"reflect"
)

type RVal struct {
	t    *TypeInfo
	v    Value // when p is nil
	p    Value // pointer to the storage
	addr bool
	ro   bool
}

func (r *RVal) mapVals(f func(Value) Value) any {
	v, p := f(r.v), f(r.p)
	if rEq(v.R, r.v.R) && rEq(p.R, r.p.R) {
		return nil
	}
	n := *r
	n.v, n.p = v, p
	return &n
}

func (r *RVal) sign(s *signer) {
	s.u(uint64(r.t.id))
	b := uint64(0)
	if r.addr {
		b |= 1
	}
	if r.ro {
		b |= 2
	}
	s.u(b)
	s.val(r.v)
	s.val(r.p)
}

func (r *RVal) merge(c *mergeCtx, o *RVal) any {
	n := *r
	n.v, n.p = c.val(r.v, o.v), c.val(r.p, o.p)
	return &n
}

func mkRV(r *RVal) Value {
	c := []Value{{K: KPtr}, {K: KPtr}, {K: KInt, W: 64}}
	if r != nil {
		c[0] = Value{K: KNative, R: r}
	}
	return Value{K: KStruct, R: c}
}

func getRV(v Value) *RVal {
	r, _ := v.R.([]Value)[0].R.(*RVal)
	return r
}

func (m *M) rload(r *RVal) Value {
	if r.p.R != nil {
		return m.load(r.p, r.t)
	}
	return r.v
}

func kindOf(ti *TypeInfo) reflect.Kind {
	switch u := ti.t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

func (m *M) rpanic(msg string) { panic(goPanic{m.runtimeError("reflect: " + msg)}) }

func (m *M) mkType(ti *TypeInfo) Value {
	return Value{K: KIface, R: &Iface{m.p.rtypeTI, Value{K: KNative, R: ti}}}
}

func typeOfR(v Value) *TypeInfo {
	if v.K == KIface {
		v = v.R.(*Iface).v
	}
	return v.R.(*TypeInfo)
}

func (m *M) valueOf(i Value) *RVal {
	if i.R == nil {
		return nil
	}
	x := i.R.(*Iface)
	return &RVal{t: x.t, v: x.v}
}

func (m *M) rIface(r *RVal) Value {
	v := m.rload(r)
	if r.t.kind == TIface {
		return v
	}
	return Value{K: KIface, R: &Iface{r.t, v}}
}

// rAssign converts r for assignment to type t.
func (m *M) rAssign(r *RVal, t *TypeInfo) Value {
	if r == nil {
		m.rpanic("use of zero Value")
	}
	if r.ro {
		m.rpanic("value obtained using unexported field")
	}
	if r.t == t {
		return m.rload(r)
	}
	if !types.AssignableTo(r.t.t, t.t) {
		m.rpanic("value of type " + r.t.String() + " is not assignable to type " + t.String())
	}
	if t.kind == TIface && r.t.kind != TIface {
		return Value{K: KIface, R: &Iface{r.t, m.rload(r)}}
	}
	return m.rload(r)
}

func (m *M) mustSet(r *RVal) {
	if r == nil || !r.addr || r.ro {
		m.rpanic("using unaddressable value")
	}
}

func (m *M) need(r *RVal, op string, ks ...reflect.Kind) {
	if r == nil {
		m.rpanic("call of " + op + " on zero Value")
	}
	k := kindOf(r.t)
	for _, x := range ks {
		if k == x {
			return
		}
	}
	m.rpanic("call of " + op + " on " + k.String() + " Value")
}

func reflectAPI() {
	R := func(name string, f simple) { reg("reflect."+name, f) }
	V := func(name string, f func(m *M, r *RVal, a []Value) Value) {
		reg("(reflect.Value)."+name, func(m *M, a []Value) Value { return f(m, getRV(a[0]), a[1:]) })
	}
	Ty := func(name string, f func(m *M, t *TypeInfo, a []Value) Value) {
		reg("(*reflect.rtype)."+name, func(m *M, a []Value) Value { return f(m, typeOfR(a[0]), a[1:]) })
	}
	R("ValueOf", func(m *M, a []Value) Value { return mkRV(m.valueOf(a[0])) })
	R("TypeOf", func(m *M, a []Value) Value {
		if a[0].R == nil {
			return Value{K: KIface}
		}
		return m.mkType(a[0].R.(*Iface).t)
	})
	R("DeepEqual", func(m *M, a []Value) Value { return termVal(m.deepEqual(a[0], a[1], 0)) })
	R("MakeSlice", func(m *M, a []Value) Value {
		t := typeOfR(a[0])
		n, c := m.concInt(a[1]), m.concInt(a[2])
		if n < 0 || c < n {
			m.rpanic("MakeSlice: bad length")
		}
		o := m.alloc(t.elem, c)
		return mkRV(&RVal{t: t, v: Value{K: KSlice, R: &Slice{o, 0, n, c, t.elem.cells}}})
	})
	R("MakeMap MakeMapWithSize", func(m *M, a []Value) Value {
		t := typeOfR(a[0])
		return mkRV(&RVal{t: t, v: m.makeMap(t)})
	})
	R("New", func(m *M, a []Value) Value {
		t := typeOfR(a[0])
		o := m.alloc(t, 1)
		return mkRV(&RVal{t: typeTab.get(types.NewPointer(t.t)), v: Value{K: KPtr, R: o}})
	})
	R("Zero", func(m *M, a []Value) Value {
		t := typeOfR(a[0])
		return mkRV(&RVal{t: t, v: t.zeroVal()})
	})
	reg("reflect.MakeMapWithSize", intrS("reflect.MakeMap"))
	R("Indirect", func(m *M, a []Value) Value {
		r := getRV(a[0])
		if r == nil || r.t.kind != TPtr {
			return a[0]
		}
		return mkRV(m.rElem(r))
	})
	R("Append", func(m *M, a []Value) Value {
		r := getRV(a[0])
		m.need(r, "Append", reflect.Slice)
		v := m.rload(r)
		if a[1].R != nil {
			xs := a[1].R.(*Slice)
			for i := 0; i < xs.len; i++ {
				x := getRV(Value{K: KStruct, R: m.loadCells(xs.obj, xs.off+i*xs.esz, xs.esz)})
				e := m.rAssign(x, r.t.elem)
				o := m.alloc(r.t.elem, 1)
				o.cells = append([]Value(nil), r.t.elem.toCells(e)...)
				v = m.appendOp(v, Value{K: KSlice, R: &Slice{o, 0, 1, 1, r.t.elem.cells}}, r.t)
			}
		}
		return mkRV(&RVal{t: r.t, v: v})
	})

	V("Kind", func(m *M, r *RVal, a []Value) Value {
		if r == nil {
			return mkIntW(0, 64)
		}
		return mkIntW(uint64(kindOf(r.t)), 64)
	})
	V("IsValid", func(m *M, r *RVal, a []Value) Value { return mkBool(r != nil) })
	V("Type", func(m *M, r *RVal, a []Value) Value {
		if r == nil {
			m.rpanic("call of Type on zero Value")
		}
		return m.mkType(r.t)
	})
	V("CanSet", func(m *M, r *RVal, a []Value) Value { return mkBool(r != nil && r.addr && !r.ro) })
	V("CanAddr", func(m *M, r *RVal, a []Value) Value { return mkBool(r != nil && r.addr) })
	V("CanInterface", func(m *M, r *RVal, a []Value) Value {
		if r == nil {
			m.rpanic("call of CanInterface on zero Value")
		}
		return mkBool(!r.ro)
	})
	V("Interface", func(m *M, r *RVal, a []Value) Value {
		if r == nil {
			m.rpanic("call of Interface on zero Value")
		}
		if r.ro {
			m.rpanic("cannot return value obtained from unexported field or method")
		}
		return m.rIface(r)
	})
	V("Int", func(m *M, r *RVal, a []Value) Value {
		m.need(r, "Int", reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
		return m.convert(m.rload(r), r.t, m.p.i64TI)
	})
	V("Uint", func(m *M, r *RVal, a []Value) Value {
		m.need(r, "Uint", reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
		return m.convert(m.rload(r), r.t, m.p.u64TI)
	})
	V("Float", func(m *M, r *RVal, a []Value) Value {
		m.need(r, "Float", reflect.Float32, reflect.Float64)
		return m.convert(m.rload(r), r.t, m.p.f64TI)
	})
	V("Bool", func(m *M, r *RVal, a []Value) Value {
		m.need(r, "Bool", reflect.Bool)
		return m.rload(r)
	})
	V("String", func(m *M, r *RVal, a []Value) Value {
		if r == nil {
			return mkStr("<invalid Value>")
		}
		if kindOf(r.t) == reflect.String {
			return m.rload(r)
		}
		return mkStr("<" + types.TypeString(r.t.t, func(p *types.Package) string { return p.Name() }) + " Value>")
	})
	V("Bytes", func(m *M, r *RVal, a []Value) Value {
		m.need(r, "Bytes", reflect.Slice)
		if kindOf(r.t.elem) != reflect.Uint8 {
			m.rpanic("Bytes of non-byte slice")
		}
		return m.rload(r)
	})
	V("Len", func(m *M, r *RVal, a []Value) Value {
		m.need(r, "Len", reflect.Slice, reflect.Array, reflect.String, reflect.Map)
		v := m.rload(r)
		switch v.K {
		case KStr:
			return mkInt(strLen(v))
		case KSlice:
			if v.R == nil {
				return mkInt(0)
			}
			return mkInt(v.R.(*Slice).len)
		case KMap:
			if v.R == nil {
				return mkInt(0)
			}
			return mkInt(len(mapData(v).keys))
		}
		return mkInt(r.t.n)
	})
	V("IsNil", func(m *M, r *RVal, a []Value) Value {
		m.need(r, "IsNil", reflect.Slice, reflect.Ptr, reflect.Map, reflect.Func, reflect.Interface, reflect.Chan, reflect.UnsafePointer)
		return mkBool(m.rload(r).R == nil)
	})
	V("Elem", func(m *M, r *RVal, a []Value) Value { return mkRV(m.rElem(r)) })
	V("Index", func(m *M, r *RVal, a []Value) Value {
		m.need(r, "Index", reflect.Slice, reflect.Array, reflect.String)
		i := m.concInt(a[0])
		v := m.rload(r)
		switch v.K {
		case KSlice:
			if v.R == nil || i < 0 || i >= v.R.(*Slice).len {
				m.rpanic("slice index out of range")
			}
			s := v.R.(*Slice)
			return mkRV(&RVal{t: r.t.elem, p: Value{K: KPtr, R: s.obj, N: uint64(s.off + i*s.esz)}, addr: true, ro: r.ro})
		case KStr:
			if i < 0 || i >= strLen(v) {
				m.rpanic("string index out of range")
			}
			return mkRV(&RVal{t: m.p.byteTI, v: strByte(v, i), ro: r.ro})
		}
		if i < 0 || i >= r.t.n {
			m.rpanic("array index out of range")
		}
		e := r.t.elem
		if r.p.R != nil {
			p := r.p
			p.N += uint64(i * e.cells)
			return mkRV(&RVal{t: e, p: p, addr: r.addr, ro: r.ro})
		}
		return mkRV(&RVal{t: e, v: e.fromCells(v.R.([]Value)[i*e.cells : (i+1)*e.cells]), ro: r.ro})
	})
	V("MapIndex", func(m *M, r *RVal, a []Value) Value {
		m.need(r, "MapIndex", reflect.Map)
		k := m.rAssign(getRV(a[0]), r.t.key)
		v := m.rload(r)
		if v.R == nil {
			return mkRV(nil)
		}
		m.hashable(k)
		d := mapData(v)
		i := m.mapFind(d, k)
		if i < 0 {
			return mkRV(nil)
		}
		return mkRV(&RVal{t: r.t.elem, v: d.vals[i]})
	})
	V("SetMapIndex", func(m *M, r *RVal, a []Value) Value {
		m.need(r, "SetMapIndex", reflect.Map)
		k := m.rAssign(getRV(a[0]), r.t.key)
		e := getRV(a[1])
		v := m.rload(r)
		if e == nil {
			m.mapDelete(v, k)
			return Value{}
		}
		m.mapUpdate(v, k, m.rAssign(e, r.t.elem))
		return Value{}
	})
	V("MapKeys", func(m *M, r *RVal, a []Value) Value {
		m.need(r, "MapKeys", reflect.Map)
		v := m.rload(r)
		t := m.p.rvalueTI
		if v.R == nil {
			return Value{K: KSlice, R: &Slice{m.alloc(t, 0), 0, 0, 0, t.cells}}
		}
		d := mapData(v)
		o := m.alloc(t, len(d.keys))
		for _, k := range d.keys {
			o.cells = append(o.cells, mkRV(&RVal{t: r.t.key, v: k}).R.([]Value)...)
		}
		return Value{K: KSlice, R: &Slice{o, 0, len(d.keys), len(d.keys), t.cells}}
	})
	V("NumField", func(m *M, r *RVal, a []Value) Value {
		m.need(r, "NumField", reflect.Struct)
		return mkInt(len(r.t.fields))
	})
	V("Field", func(m *M, r *RVal, a []Value) Value {
		m.need(r, "Field", reflect.Struct)
		return mkRV(m.rField(r, m.concInt(a[0])))
	})
	V("FieldByName", func(m *M, r *RVal, a []Value) Value {
		m.need(r, "FieldByName", reflect.Struct)
		name := m.constStr(a[0], "field name")
		st := r.t.t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return mkRV(m.rField(r, i))
			}
			if st.Field(i).Embedded() {
				panic(unsupported{"reflection over embedded fields"})
			}
		}
		return mkRV(nil)
	})
	V("Set", func(m *M, r *RVal, a []Value) Value {
		m.mustSet(r)
		m.storeTo(r.p, m.rAssign(getRV(a[0]), r.t), r.t)
		return Value{}
	})
	setter := func(name string, from func(m *M) *TypeInfo, ks ...reflect.Kind) {
		V(name, func(m *M, r *RVal, a []Value) Value {
			m.mustSet(r)
			m.need(r, name, ks...)
			m.storeTo(r.p, m.convert(a[0], from(m), r.t), r.t)
			return Value{}
		})
	}
	setter("SetInt", func(m *M) *TypeInfo { return m.p.i64TI }, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	setter("SetUint", func(m *M) *TypeInfo { return m.p.u64TI }, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
	setter("SetFloat", func(m *M) *TypeInfo { return m.p.f64TI }, reflect.Float32, reflect.Float64)
	plain := func(name string, ks ...reflect.Kind) {
		V(name, func(m *M, r *RVal, a []Value) Value {
			m.mustSet(r)
			m.need(r, name, ks...)
			m.storeTo(r.p, a[0], r.t)
			return Value{}
		})
	}
	plain("SetBool", reflect.Bool)
	plain("SetString", reflect.String)
	V("SetBytes", func(m *M, r *RVal, a []Value) Value {
		m.mustSet(r)
		m.need(r, "SetBytes", reflect.Slice)
		if kindOf(r.t.elem) != reflect.Uint8 {
			m.rpanic("SetBytes of non-byte slice")
		}
		m.storeTo(r.p, a[0], r.t)
		return Value{}
	})
	V("OverflowInt", func(m *M, r *RVal, a []Value) Value {
		m.need(r, "OverflowInt", reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
		t := m.T.of(a[0])
		if r.t.w == 64 {
			return mkBool(false)
		}
		return termVal(m.T.Not(m.T.Eq(m.T.Sext(m.T.Trunc(t, r.t.w), 64), t)))
	})
	V("OverflowUint", func(m *M, r *RVal, a []Value) Value {
		m.need(r, "OverflowUint", reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
		t := m.T.of(a[0])
		if r.t.w == 64 {
			return mkBool(false)
		}
		return termVal(m.T.Not(m.T.Eq(m.T.Zext(m.T.Trunc(t, r.t.w), 64), t)))
	})
	V("OverflowFloat", func(m *M, r *RVal, a []Value) Value {
		m.need(r, "OverflowFloat", reflect.Float32, reflect.Float64)
		if r.t.w == 64 {
			return mkBool(false)
		}
		if a[0].R != nil {
			panic(unsupported{"OverflowFloat of a symbolic value"})
		}
		x := reflect.ValueOf(new(float32)).Elem()
		return mkBool(x.OverflowFloat(f64of(a[0])))
	})
	V("Addr", func(m *M, r *RVal, a []Value) Value {
		if r == nil || !r.addr {
			m.rpanic("Addr of unaddressable value")
		}
		return mkRV(&RVal{t: typeTab.get(types.NewPointer(r.t.t)), v: r.p})
	})

	Ty("Kind", func(m *M, t *TypeInfo, a []Value) Value { return mkIntW(uint64(kindOf(t)), 64) })
	Ty("Elem", func(m *M, t *TypeInfo, a []Value) Value {
		if t.elem == nil {
			m.rpanic("Elem of invalid type")
		}
		return m.mkType(t.elem)
	})
	Ty("Key", func(m *M, t *TypeInfo, a []Value) Value { return m.mkType(t.key) })
	Ty("NumField", func(m *M, t *TypeInfo, a []Value) Value {
		if t.kind != TStruct {
			m.rpanic("NumField of non-struct type")
		}
		return mkInt(len(t.fields))
	})
	Ty("Name", func(m *M, t *TypeInfo, a []Value) Value {
		if n, ok := t.t.(*types.Named); ok {
			return mkStr(n.Obj().Name())
		}
		if b, ok := t.t.(*types.Basic); ok {
			return mkStr(b.Name())
		}
		return mkStr("")
	})
	Ty("String", func(m *M, t *TypeInfo, a []Value) Value {
		return mkStr(types.TypeString(t.t, func(p *types.Package) string { return p.Name() }))
	})
	Ty("Comparable", func(m *M, t *TypeInfo, a []Value) Value { return mkBool(t.comparable) })
	field := func(m *M, t *TypeInfo, i int) Value {
		st := t.t.Underlying().(*types.Struct)
		f := st.Field(i)
		sf := m.p.structFieldTI // Name, PkgPath string; Type; Tag; Offset; Index; Anonymous
		c := append([]Value(nil), sf.zero...)
		c[sf.offs[0]] = mkStr(f.Name())
		if !f.Exported() {
			c[sf.offs[1]] = mkStr(f.Pkg().Path())
		}
		c[sf.offs[2]] = m.mkType(t.fields[i])
		c[sf.offs[3]] = mkStr(st.Tag(i))
		o := m.alloc(typeTab.get(types.Typ[types.Int]), 1)
		o.cells = []Value{mkInt(i)}
		c[sf.offs[5]] = Value{K: KSlice, R: &Slice{o, 0, 1, 1, 1}}
		c[sf.offs[6]] = mkBool(f.Embedded())
		return Value{K: KStruct, R: c}
	}
	Ty("Field", func(m *M, t *TypeInfo, a []Value) Value {
		if t.kind != TStruct {
			m.rpanic("Field of non-struct type")
		}
		i := m.concInt(a[0])
		if i < 0 || i >= len(t.fields) {
			m.rpanic("Field index out of bounds")
		}
		return field(m, t, i)
	})
	Ty("FieldByName", func(m *M, t *TypeInfo, a []Value) Value {
		if t.kind != TStruct {
			m.rpanic("FieldByName of non-struct type")
		}
		name := m.constStr(a[0], "field name")
		st := t.t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return tup(field(m, t, i), mkBool(true))
			}
			if st.Field(i).Embedded() {
				panic(unsupported{"reflection over embedded fields"})
			}
		}
		sf := m.p.structFieldTI
		return tup(Value{K: KStruct, R: append([]Value(nil), sf.zero...)}, mkBool(false))
	})
	Ty("Bits", func(m *M, t *TypeInfo, a []Value) Value {
		k := kindOf(t)
		if k < reflect.Int || k > reflect.Complex128 {
			m.rpanic("Bits of non-arithmetic Type " + t.String())
		}
		return mkInt(int(types.SizesFor("gc", "amd64").Sizeof(t.t)) * 8)
	})
	Ty("Size", func(m *M, t *TypeInfo, a []Value) Value {
		return mkIntW(uint64(types.SizesFor("gc", "amd64").Sizeof(t.t)), 64)
	})
	Ty("Len", func(m *M, t *TypeInfo, a []Value) Value {
		if kindOf(t) != reflect.Array {
			m.rpanic("Len of non-array type " + t.String())
		}
		return mkInt(t.n)
	})
	Ty("AssignableTo", func(m *M, t *TypeInfo, a []Value) Value {
		return mkBool(types.AssignableTo(t.t, typeOfR(a[0]).t))
	})
	Ty("ConvertibleTo", func(m *M, t *TypeInfo, a []Value) Value {
		return mkBool(types.ConvertibleTo(t.t, typeOfR(a[0]).t))
	})
	kinds := func(name string, ks ...reflect.Kind) {
		V(name, func(m *M, r *RVal, a []Value) Value {
			if r != nil {
				for _, k := range ks {
					if kindOf(r.t) == k {
						return mkBool(true)
					}
				}
			}
			return mkBool(false)
		})
	}
	kinds("CanInt", reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	kinds("CanUint", reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
	kinds("CanFloat", reflect.Float32, reflect.Float64)
	V("Cap", func(m *M, r *RVal, a []Value) Value {
		m.need(r, "Cap", reflect.Slice)
		v := m.rload(r)
		if v.R == nil {
			return mkInt(0)
		}
		return mkInt(v.R.(*Slice).cap)
	})
	V("FieldByIndex", func(m *M, r *RVal, a []Value) Value {
		xs, _ := a[0].R.(*Slice)
		if xs == nil || xs.len != 1 {
			panic(unsupported{"reflection over embedded fields"})
		}
		m.need(r, "FieldByIndex", reflect.Struct)
		return mkRV(m.rField(r, m.concInt(m.loadCells(xs.obj, xs.off, 1)[0])))
	})
	V("SetZero", func(m *M, r *RVal, a []Value) Value {
		m.mustSet(r)
		m.storeTo(r.p, r.t.zeroVal(), r.t)
		return Value{}
	})
	V("IsZero", func(m *M, r *RVal, a []Value) Value {
		if r == nil {
			m.rpanic("call of IsZero on zero Value")
		}
		return termVal(m.rZero(r))
	})
	V("Convert", func(m *M, r *RVal, a []Value) Value {
		t := typeOfR(a[0])
		if r == nil || !types.ConvertibleTo(r.t.t, t.t) {
			m.rpanic("value cannot be converted to type " + t.String())
		}
		if t.kind == TIface {
			return mkRV(&RVal{t: t, v: m.rAssign(&RVal{t: r.t, v: m.rload(r)}, t), ro: r.ro})
		}
		k := kindOf(r.t)
		if r.t.kind == TIface || k == reflect.Slice && kindOf(t) != reflect.Slice && kindOf(t) != reflect.String {
			panic(unsupported{"reflect.Value.Convert of " + r.t.String()})
		}
		return mkRV(&RVal{t: t, v: m.convert(m.rload(r), r.t, t), ro: r.ro})
	})
	V("Slice", func(m *M, r *RVal, a []Value) Value {
		m.need(r, "Slice", reflect.Slice, reflect.String)
		i, j := m.concInt(a[0]), m.concInt(a[1])
		v := m.rload(r)
		if v.K == KStr {
			if i < 0 || j < i || j > strLen(v) {
				m.rpanic("slice index out of bounds")
			}
			return mkRV(&RVal{t: r.t, v: substr(v, i, j), ro: r.ro})
		}
		x, _ := v.R.(*Slice)
		if x == nil {
			x = &Slice{esz: r.t.elem.cells}
		}
		if i < 0 || j < i || j > x.cap {
			m.rpanic("slice index out of bounds")
		}
		if v.R != nil {
			v = Value{K: KSlice, R: &Slice{x.obj, x.off + i*x.esz, j - i, x.cap - i, x.esz}}
		}
		return mkRV(&RVal{t: r.t, v: v, ro: r.ro})
	})
	reg("(reflect.Kind).String", func(m *M, a []Value) Value { return mkStr(reflect.Kind(m.concInt(a[0])).String()) })
	R("AppendSlice", func(m *M, a []Value) Value {
		r, o := getRV(a[0]), getRV(a[1])
		m.need(r, "AppendSlice", reflect.Slice)
		m.need(o, "AppendSlice", reflect.Slice)
		return mkRV(&RVal{t: r.t, v: m.appendOp(m.rload(r), m.rload(o), r.t)})
	})
	Ty("Implements", func(m *M, t *TypeInfo, a []Value) Value {
		u, ok := typeOfR(a[0]).t.Underlying().(*types.Interface)
		if !ok {
			m.rpanic("non-interface type passed to Type.Implements")
		}
		return mkBool(types.Implements(t.t, u))
	})
}

// rZero is whether r is the zero value of its type.
func (m *M) rZero(r *RVal) *Term {
	switch kindOf(r.t) {
	case reflect.Struct:
		z := m.T.tru
		for i := range r.t.fields {
			z = m.T.And(z, m.rZero(m.rField(r, i)))
		}
		return z
	case reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128, reflect.Array:
		panic(unsupported{"IsZero of " + r.t.String()})
	}
	v := m.rload(r)
	switch kindOf(r.t) {
	case reflect.Slice, reflect.Ptr, reflect.Map, reflect.Func, reflect.Interface, reflect.Chan, reflect.UnsafePointer:
		return m.T.Bool(v.R == nil)
	case reflect.String:
		return m.T.Bool(strLen(v) == 0)
	}
	t := m.T.of(v)
	if t.w == 0 {
		return m.T.Not(t)
	}
	return m.T.Eq(t, m.T.Const(0, t.w))
}

func intrS(name string) simple {
	return func(m *M, a []Value) Value {
		v, _ := intrTable[name](m, nil, nil, a)
		return v
	}
}

func (m *M) rField(r *RVal, i int) *RVal {
	if i < 0 || i >= len(r.t.fields) {
		m.rpanic("Field index out of range")
	}
	st := r.t.t.Underlying().(*types.Struct)
	f := r.t.fields[i]
	o := r.t.offs[i]
	ro := r.ro || !st.Field(i).Exported()
	if r.p.R != nil {
		p := r.p
		p.N += uint64(o)
		return &RVal{t: f, p: p, addr: r.addr, ro: ro}
	}
	return &RVal{t: f, v: f.fromCells(r.v.R.([]Value)[o : o+f.cells : o+f.cells]), ro: ro}
}

func (m *M) rElem(r *RVal) *RVal {
	m.need(r, "Elem", reflect.Ptr, reflect.Interface)
	v := m.rload(r)
	if r.t.kind == TIface {
		e := m.valueOf(v)
		if e != nil {
			e.ro = r.ro
		}
		return e
	}
	if v.R == nil {
		return nil
	}
	return &RVal{t: r.t.elem, p: v, addr: true, ro: r.ro}
}

// deepEqual is reflect.DeepEqual as a term.
func (m *M) deepEqual(x, y Value, depth int) *Term {
	T := m.T
	if depth > 200 {
		panic(unsupported{"DeepEqual recursion"})
	}
	if x.R == nil || y.R == nil {
		return T.Bool(x.R == nil && y.R == nil)
	}
	a, b := x.R.(*Iface), y.R.(*Iface)
	if a.t != b.t {
		return T.fls
	}
	return m.deepEq(a.v, b.v, a.t, depth+1)
}

func (m *M) deepEq(x, y Value, t *TypeInfo, depth int) *Term {
	T := m.T
	if depth > 200 {
		panic(unsupported{"DeepEqual recursion"})
	}
	switch t.kind {
	case TIface:
		return m.deepEqual(x, y, depth+1)
	case TStruct:
		a, b := x.R.([]Value), y.R.([]Value)
		r := T.tru
		for i, f := range t.fields {
			o := t.offs[i]
			r = T.And(r, m.deepEq(f.fromCells(a[o:o+f.cells]), f.fromCells(b[o:o+f.cells]), f, depth+1))
			if r.op == OpConst && r.k == 0 {
				return r
			}
		}
		return r
	case TArray:
		a, b := x.R.([]Value), y.R.([]Value)
		r := T.tru
		e := t.elem
		for i := 0; i < t.n; i++ {
			o := i * e.cells
			r = T.And(r, m.deepEq(e.fromCells(a[o:o+e.cells]), e.fromCells(b[o:o+e.cells]), e, depth+1))
		}
		return r
	case TSlice:
		if x.R == nil || y.R == nil {
			return T.Bool(x.R == nil && y.R == nil)
		}
		a, b := x.R.(*Slice), y.R.(*Slice)
		if a.len != b.len {
			return T.fls
		}
		if a.obj == b.obj && a.off == b.off {
			return T.tru
		}
		r := T.tru
		e := t.elem
		for i := 0; i < a.len; i++ {
			va := e.fromCells(m.loadCells(a.obj, a.off+i*a.esz, a.esz))
			vb := e.fromCells(m.loadCells(b.obj, b.off+i*b.esz, b.esz))
			r = T.And(r, m.deepEq(va, vb, e, depth+1))
			if r.op == OpConst && r.k == 0 {
				return r
			}
		}
		return r
	case TMap:
		if x.R == nil || y.R == nil {
			return T.Bool(x.R == nil && y.R == nil)
		}
		if x.R == y.R {
			return T.tru
		}
		a, b := mapData(x), mapData(y)
		if len(a.keys) != len(b.keys) {
			return T.fls
		}
		r := T.tru
		for i, k := range a.keys {
			any := T.fls
			for j, l := range b.keys {
				any = T.Or(any, T.And(m.equal(k, l), m.deepEq(a.vals[i], b.vals[j], t.elem, depth+1)))
			}
			r = T.And(r, any)
		}
		return r
	case TPtr:
		if x.R == nil || y.R == nil {
			return T.Bool(x.R == nil && y.R == nil)
		}
		if x.R == y.R && x.N == y.N {
			return T.tru
		}
		if t.elem == nil {
			return T.fls
		}
		return m.deepEq(m.load(x, t.elem), m.load(y, t.elem), t.elem, depth+1)
	case TFunc:
		return T.Bool(x.R == nil && y.R == nil)
	}
	return m.equal(x, y)
}
