package main

// Capturing the outcomes of a call's paths and merging those of equal shape.

import (
	"encoding/binary"
	"sort"
)

// capture records the finished path of fr as an outcome independent of the
// machine's current memory.
func (m *M) capture(fr *frame) *outcome {
	o := &outcome{pan: fr.out.pan, val: fr.out.val, recovered: fr.didRec,
		model: m.model, steps: m.steps, monBirth: m.monBirth}
	o.path = append([]pstep(nil), fr.path...)
	base := fr.entryBirth
	type key struct {
		o *Object
		i int
	}
	var seen map[key]bool
	for i := fr.entryTrail; i < len(m.trail); i++ {
		e := &m.trail[i]
		if e.obj == nil {
			continue
		}
		if e.obj.id > base {
			if e.obj.id > m.curMark {
				// kept in place below: its last value has to survive undo
				e.obj = nil
			}
			continue
		}
		k := key{e.obj, e.idx}
		if seen == nil {
			seen = map[key]bool{}
		} else if seen[k] {
			continue
		}
		seen[k] = true
		o.eff = append(o.eff, effect{e.obj, e.idx, e.obj.get(e.idx)})
	}
	sort.Slice(o.eff, func(i, j int) bool {
		a, b := &o.eff[i], &o.eff[j]
		if a.obj != b.obj {
			if a.obj.id != b.obj.id {
				return a.obj.id < b.obj.id
			}
			return a.obj.tag < b.obj.tag
		}
		return a.idx < b.idx
	})
	c := &copier{m: m, base: base, mark: m.curMark, done: map[*Object]*Object{}}
	o.val = c.val(o.val)
	for i := range o.eff {
		o.eff[i].v = c.val(o.eff[i].v)
	}
	return o
}

// copier copies the fresh objects (born after base) reachable from a value;
// objects born after mark belong to this path alone and are kept in place.
type copier struct {
	m    *M
	base uint64
	mark uint64
	done map[*Object]*Object
}

func (c *copier) obj(o *Object) *Object {
	if o == nil || o.id <= c.base {
		return o
	}
	if n, ok := c.done[o]; ok {
		return n
	}
	if o.id > c.mark {
		c.done[o] = o
		for i := range o.cells {
			o.cells[i] = c.val(o.cells[i])
		}
		return o
	}
	n := c.m.alloc(o.typ, o.n)
	n.tag = o.tag
	n.sync = o.sync
	c.done[o] = n
	n.cells = make([]Value, len(o.cells))
	for i := range o.cells {
		n.cells[i] = c.val(o.cells[i])
	}
	return n
}

func (c *copier) vals(vs []Value) []Value {
	for i := range vs {
		n := c.val(vs[i])
		if n.R != vs[i].R && !sameR(n.R, vs[i].R) {
			out := append([]Value(nil), vs...)
			out[i] = n
			for j := i + 1; j < len(vs); j++ {
				out[j] = c.val(vs[j])
			}
			return out
		}
	}
	return vs
}

// sameR compares payloads that may hold uncomparable dynamic types.
func sameR(a, b any) bool {
	switch x := a.(type) {
	case []Value:
		y, ok := b.([]Value)
		return ok && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	}
	return false
}

func rEq(a, b any) bool {
	if _, ok := a.([]Value); ok {
		return sameR(a, b)
	}
	if _, ok := b.([]Value); ok {
		return false
	}
	return a == b
}

func (c *copier) val(v Value) Value {
	switch r := v.R.(type) {
	case nil, string, *Term, *SymStr:
		return v
	case *Object:
		if n := c.obj(r); n != r {
			v.R = n
		}
	case *Slice:
		if n := c.obj(r.obj); n != r.obj {
			s := *r
			s.obj = n
			v.R = &s
		}
	case *Iface:
		n := c.val(r.v)
		if !rEq(n.R, r.v.R) {
			v.R = &Iface{r.t, n}
		}
	case *Closure:
		b := c.vals2(r.bind)
		if b != nil {
			v.R = &Closure{r.fn, b}
		}
	case []Value:
		if b := c.vals2(r); b != nil {
			v.R = b
		}
	case *SymPtr:
		if n := c.obj(r.obj); n != r.obj {
			p := *r
			p.obj = n
			v.R = &p
		}
	case *RawView:
		if n := c.obj(r.obj); n != r.obj {
			p := *r
			p.obj = n
			v.R = &p
		}
	case *MapData:
		if n := r.mapVals(c.val); n != nil {
			v.R = n
		}
	case *RVal:
		if n := r.mapVals(c.val); n != nil {
			v.R = n
		}
	case *mapIter:
		if n := r.mapVals(c.val); n != nil {
			v.R = n
		}
	}
	return v
}

// vals2 returns a rewritten copy, or nil when nothing changed.
func (c *copier) vals2(vs []Value) []Value {
	var out []Value
	for i := range vs {
		n := c.val(vs[i])
		if !rEq(n.R, vs[i].R) {
			if out == nil {
				out = append([]Value(nil), vs...)
			}
			out[i] = n
		}
	}
	return out
}

// ---- shape signatures ----

type signer struct {
	m    *M
	base uint64
	buf  []byte
	num  map[*Object]int
}

func (s *signer) u(x uint64) {
	s.buf = binary.AppendUvarint(s.buf, x)
}

func (s *signer) objRef(o *Object) {
	if o.id <= s.base {
		s.u(0)
		s.u(o.id)
		if o.id == 0 {
			s.buf = append(s.buf, o.tag...)
		}
		return
	}
	if n, ok := s.num[o]; ok {
		s.u(1)
		s.u(uint64(n))
		return
	}
	s.num[o] = len(s.num)
	s.u(2)
	s.u(uint64(o.typ.id))
	s.u(uint64(o.n))
	s.u(uint64(len(o.cells)))
	for i := range o.cells {
		s.val(o.cells[i])
	}
}

func (s *signer) val(v Value) {
	s.buf = append(s.buf, byte(v.K))
	switch v.K {
	case KBool:
	case KInt:
		s.buf = append(s.buf, v.W)
		if v.W == 64 {
			if v.R != nil {
				s.buf = append(s.buf, 1)
			} else {
				s.buf = append(s.buf, 0)
				s.u(v.N)
			}
		}
	case KFloat:
		if v.R != nil {
			s.buf = append(s.buf, 1)
		} else {
			s.buf = append(s.buf, 0)
			s.u(v.N)
		}
	case KStr:
		switch r := v.R.(type) {
		case string:
			s.u(uint64(len(r)))
			if len(r) > 4 {
				s.buf = append(s.buf, 0)
				s.buf = append(s.buf, r...)
			} else {
				s.buf = append(s.buf, 1)
			}
		case *SymStr:
			s.u(uint64(len(r.b)))
			s.buf = append(s.buf, 1)
		}
	case KPtr:
		switch r := v.R.(type) {
		case nil:
			s.u(0)
		case *Object:
			s.u(1)
			s.u(v.N)
			s.objRef(r)
		case *RawView:
			s.u(2)
			s.u(uint64(r.off*2 + r.fld))
			s.objRef(r.obj)
		case *SymPtr:
			s.u(3)
			s.u(uint64(r.idx.id))
			s.u(uint64(r.base))
			s.u(uint64(r.add))
			s.objRef(r.obj)
		default:
			panic(unsupported{"signature of pointer"})
		}
	case KSlice:
		if v.R == nil {
			s.u(0)
			return
		}
		r := v.R.(*Slice)
		s.u(1)
		s.u(uint64(r.off))
		s.u(uint64(r.len))
		s.u(uint64(r.cap))
		s.objRef(r.obj)
	case KIface:
		if v.R == nil {
			s.u(0)
			return
		}
		r := v.R.(*Iface)
		s.u(uint64(r.t.id) + 1)
		s.val(r.v)
	case KFunc:
		if v.R == nil {
			s.u(0)
			return
		}
		r := v.R.(*Closure)
		s.buf = append(s.buf, r.fn.name...)
		s.u(uint64(len(r.bind)))
		for _, b := range r.bind {
			s.val(b)
		}
	case KMap, KChan:
		if v.R == nil {
			s.u(0)
			return
		}
		s.u(1)
		s.objRef(v.R.(*Object))
	case KStruct, KTuple:
		r := v.R.([]Value)
		s.u(uint64(len(r)))
		for i := range r {
			s.val(r[i])
		}
	case KNative:
		switch r := v.R.(type) {
		case *MapData:
			r.sign(s)
		case *RVal:
			r.sign(s)
		case *mapIter:
			r.sign(s)
		default:
			s.u(s.m.nativeID(r))
		}
	}
}

func (m *M) nativeID(r any) uint64 {
	if m.nativeIDs == nil {
		m.nativeIDs = map[any]uint64{}
	}
	id, ok := m.nativeIDs[r]
	if !ok {
		id = uint64(len(m.nativeIDs) + 1)
		m.nativeIDs[r] = id
	}
	return id
}

// ---- merging ----

type merger struct {
	m    *M
	base uint64
}

type pairKey struct{ a, b *Object }

type mergeCtx struct {
	m    *M
	base uint64
	c    *Term
	done map[pairKey]*Object
}

func (m *M) mergeOutcomes(outs []*outcome, base uint64) ([]*outcome, bool) {
	if len(outs) == 0 {
		return nil, false
	}
	full := coverFull(outs, 0)
	if len(outs) == 1 {
		o := outs[0]
		o.cond = nil
		if !full {
			o.cond = m.pathCond(o.path, 0)
			if o.cond.op == OpConst {
				o.cond = nil
			}
		}
		return outs, full
	}
	// align effects
	type key struct {
		o *Object
		i int
	}
	kidx := map[key]int{}
	var keys []key
	for _, o := range outs {
		for _, e := range o.eff {
			k := key{e.obj, e.idx}
			if _, ok := kidx[k]; !ok {
				kidx[k] = len(keys)
				keys = append(keys, k)
			}
		}
	}
	// drop keys that every outcome leaves as they were
	vals := make([][]Value, len(outs))
	for j := range outs {
		vals[j] = make([]Value, len(keys))
		for i, k := range keys {
			vals[j][i] = k.o.get(k.i)
		}
		for _, e := range outs[j].eff {
			vals[j][kidx[key{e.obj, e.idx}]] = e.v
		}
	}
	var keep []int
	for i, k := range keys {
		old := k.o.get(k.i)
		for j := range outs {
			v := vals[j][i]
			if v.K != old.K || v.N != old.N || v.W != old.W || !rEq(v.R, old.R) {
				keep = append(keep, i)
				break
			}
		}
	}
	sort.SliceStable(keep, func(x, y int) bool {
		a, b := keys[keep[x]], keys[keep[y]]
		if a.o != b.o {
			if a.o.id != b.o.id {
				return a.o.id < b.o.id
			}
			return a.o.tag < b.o.tag
		}
		return a.i < b.i
	})
	for j, o := range outs {
		eff := make([]effect, len(keep))
		for n, i := range keep {
			eff[n] = effect{keys[i].o, keys[i].i, vals[j][i]}
		}
		o.eff = eff
	}
	// group by signature
	byKey := map[string]int{}
	var groups [][]*outcome
	for n, o := range outs {
		s := &signer{m: m, base: base, num: map[*Object]int{}}
		flags := byte(0)
		if o.pan {
			flags |= 1
		}
		if o.recovered {
			flags |= 2
		}
		if o.monBirth != 0 {
			flags |= 4
		}
		s.buf = append(s.buf, flags)
		if m.noMerge {
			s.u(uint64(n))
		}
		s.val(o.val)
		for _, e := range o.eff {
			s.val(e.v)
		}
		k := string(s.buf)
		g, ok := byKey[k]
		if !ok {
			g = len(groups)
			byKey[k] = g
			groups = append(groups, nil)
		}
		groups[g] = append(groups[g], o)
	}
	res := make([]*outcome, 0, len(groups))
	for _, g := range groups {
		o, cond, f := m.mergeTree(g, 0, base)
		o.cond = nil
		if !(f || full && len(groups) == 1) && cond.op != OpConst {
			o.cond = cond
		}
		if !f && len(groups) > 1 && cond.op == OpConst && cond.k == 1 {
			// cannot happen unless the other groups are infeasible
			o.cond = nil
		}
		o.model = g[0].model
		for _, x := range g {
			o.steps = max(o.steps, x.steps)
		}
		res = append(res, o)
	}
	return res, full
}

func coverFull(outs []*outcome, depth int) bool {
	if len(outs) == 0 {
		return false
	}
	if len(outs) == 1 && len(outs[0].path) == depth {
		return true
	}
	n := outs[0].path[depth].n
	if n.alts < 0 {
		return false
	}
	parts := partition(outs, depth)
	if len(parts) != n.alts {
		return false
	}
	for _, p := range parts {
		if !coverFull(p, depth+1) {
			return false
		}
	}
	return true
}

func partition(outs []*outcome, depth int) [][]*outcome {
	var parts [][]*outcome
	idx := map[int]int{}
	for _, o := range outs {
		a := o.path[depth].alt
		i, ok := idx[a]
		if !ok {
			i = len(parts)
			idx[a] = i
			parts = append(parts, nil)
		}
		parts[i] = append(parts[i], o)
	}
	return parts
}

func (m *M) pathCond(p []pstep, depth int) *Term {
	c := m.T.tru
	for i := len(p) - 1; i >= depth; i-- {
		c = m.T.And(p[i].cond, c)
	}
	return c
}

// mergeTree merges outcomes of one group along their common decision tree.
func (m *M) mergeTree(outs []*outcome, depth int, base uint64) (*outcome, *Term, bool) {
	if len(outs) == 1 {
		return outs[0], m.pathCond(outs[0].path, depth), len(outs[0].path) == depth
	}
	n := outs[0].path[depth].n
	parts := partition(outs, depth)
	if len(parts) == 1 {
		o, c, f := m.mergeTree(parts[0], depth+1, base)
		return o, m.T.And(outs[0].path[depth].cond, c), f && n.alts == 1
	}
	full := n.alts == len(parts)
	var acc *outcome
	cond := m.T.fls
	for i := len(parts) - 1; i >= 0; i-- {
		o, c, f := m.mergeTree(parts[i], depth+1, base)
		pc := parts[i][0].path[depth].cond
		full = full && f
		cond = m.T.Or(m.T.And(pc, c), cond)
		if acc == nil {
			acc = o
			continue
		}
		mc := &mergeCtx{m: m, base: base, c: pc, done: map[pairKey]*Object{}}
		r := &outcome{pan: o.pan, recovered: o.recovered, monBirth: o.monBirth}
		r.val = mc.val(o.val, acc.val)
		r.eff = make([]effect, len(o.eff))
		for k := range o.eff {
			r.eff[k] = effect{o.eff[k].obj, o.eff[k].idx, mc.val(o.eff[k].v, acc.eff[k].v)}
		}
		acc = r
	}
	if full {
		cond = m.T.tru
	}
	return acc, cond, full
}

func (c *mergeCtx) obj(a, b *Object) *Object {
	if a == b {
		return a
	}
	if a.id <= c.base || b.id <= c.base {
		panic("merge: shape mismatch (objects)")
	}
	k := pairKey{a, b}
	if o, ok := c.done[k]; ok {
		return o
	}
	n := c.m.alloc(a.typ, a.n)
	n.tag = a.tag
	n.sync = a.sync
	c.done[k] = n
	n.cells = make([]Value, len(a.cells))
	for i := range a.cells {
		n.cells[i] = c.val(a.cells[i], b.cells[i])
	}
	return n
}

func (c *mergeCtx) vals(a, b []Value) []Value {
	if len(a) == 0 || &a[0] == &b[0] {
		return a
	}
	r := make([]Value, len(a))
	for i := range a {
		r[i] = c.val(a[i], b[i])
	}
	return r
}

// val is ite(c, a, b) over values of one shape.
func (c *mergeCtx) val(a, b Value) Value {
	T := c.m.T
	switch a.K {
	case KBool, KInt:
		if a.R == nil && b.R == nil && a.N == b.N {
			return a
		}
		if a.R != nil && a.R == b.R {
			return a
		}
		return termVal(T.Ite(c.c, T.of(a), T.of(b)))
	case KFloat:
		if a.R == nil && b.R == nil && a.N == b.N {
			return a
		}
		return floatVal(T.Ite(c.c, T.of(a), T.of(b)))
	case KStr:
		as, ok1 := a.R.(string)
		bs, ok2 := b.R.(string)
		if ok1 && ok2 && as == bs {
			return a
		}
		if a.R == b.R {
			return a
		}
		x, y := T.strTerms(a), T.strTerms(b)
		r := make([]*Term, len(x))
		for i := range x {
			r[i] = T.Ite(c.c, x[i], y[i])
		}
		return mkSymStr(r)
	case KPtr:
		switch r := a.R.(type) {
		case *Object:
			a.R = c.obj(r, b.R.(*Object))
		case *RawView:
			p := *r
			p.obj = c.obj(r.obj, b.R.(*RawView).obj)
			a.R = &p
		case *SymPtr:
			p := *r
			p.obj = c.obj(r.obj, b.R.(*SymPtr).obj)
			a.R = &p
		}
		return a
	case KSlice:
		if a.R == nil {
			return a
		}
		x, y := a.R.(*Slice), b.R.(*Slice)
		if x.obj == y.obj {
			return a
		}
		s := *x
		s.obj = c.obj(x.obj, y.obj)
		a.R = &s
		return a
	case KIface:
		if a.R == nil {
			return a
		}
		x, y := a.R.(*Iface), b.R.(*Iface)
		if x == y {
			return a
		}
		a.R = &Iface{x.t, c.val(x.v, y.v)}
		return a
	case KFunc:
		if a.R == nil {
			return a
		}
		x, y := a.R.(*Closure), b.R.(*Closure)
		if x == y || len(x.bind) == 0 {
			return a
		}
		a.R = &Closure{x.fn, c.vals(x.bind, y.bind)}
		return a
	case KMap, KChan:
		if a.R == nil {
			return a
		}
		a.R = c.obj(a.R.(*Object), b.R.(*Object))
		return a
	case KStruct, KTuple:
		a.R = c.vals(a.R.([]Value), b.R.([]Value))
		return a
	case KNative:
		switch x := a.R.(type) {
		case *MapData:
			a.R = x.merge(c, b.R.(*MapData))
		case *RVal:
			a.R = x.merge(c, b.R.(*RVal))
		case *mapIter:
			a.R = x.merge(c, b.R.(*mapIter))
		}
		return a
	}
	return a
}
