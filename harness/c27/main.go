// C27: boxes return what was stored, and refuse unset variables.
package main

import (
	"reflect"
	"strconv"

	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

const (
	kInt = iota
	kUint
	kFloat
	kBool
	kString
	kBytes
	kAny // SetAny of an arbitrary kind of value
	kinds
)

// value is an arbitrary value of a kind.
func value(name string, kind int) interface{} {
	switch kind {
	case kInt:
		return sym.Int64(name)
	case kUint:
		return sym.Uint64(name + "u")
	case kFloat:
		return sym.Float64(name + "f")
	case kBool:
		return sym.Bool(name + "b")
	case kString:
		return sym.String(name+"s", 2*sym.Choose(name+"n", 2))
	case kBytes:
		switch sym.Choose(name+"m", 3) {
		case 0:
			return []byte(nil)
		case 1:
			return []byte{}
		}
		return []byte(sym.String(name+"y", 2))
	}
	switch sym.Choose(name+"k", 4) {
	case 0:
		return nil
	case 1:
		return sym.Int(name+"i", 0, 1000)
	case 2:
		return sym.String(name+"t", 1)
	}
	return Ast{Value: sym.Int(name+"a", 0, 1000), ClassName: "x"}
}

func set(b Box, kind int, v interface{}) {
	switch kind {
	case kInt:
		b.SetInt(v.(int64))
	case kUint:
		b.SetUint(v.(uint64))
	case kFloat:
		b.SetFloat(v.(float64))
	case kBool:
		b.SetBool(v.(bool))
	case kString:
		b.SetString(v.(string))
	case kBytes:
		b.SetBytes(v.([]byte))
	case kAny:
		b.SetAny(v)
	}
}

func get(b Box, kind int) interface{} {
	switch kind {
	case kInt:
		return b.GetInt()
	case kUint:
		return b.GetUint()
	case kFloat:
		return b.GetFloat()
	case kBool:
		return b.GetBool()
	case kString:
		return b.GetString()
	case kBytes:
		return b.GetBytes()
	}
	return b.GetAny()
}

func same(a, b interface{}) bool {
	switch x := a.(type) {
	case []byte:
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	case Ast:
		y, ok := b.(Ast)
		return ok && h.EqAst(x, y)
	}
	return h.EqVal(a, b)
}

// refused runs f and reports whether it panicked.
func refused(f func()) (r bool) {
	defer func() {
		if recover() != nil {
			r = true
		}
	}()
	f()
	return
}

// ref is a map of the tested kind with its contents readable without boxes.
type ref struct {
	v    reflect.Value
	read func(k string) (interface{}, bool)
	len  func() int
}

// table is a map from strings to values of a kind (dynamic: interface{}),
// filled with entries "a" and "b".
func table(kind int, dynamic bool) ref {
	if dynamic || kind == kAny {
		m := map[string]interface{}{"a": value("a", kind), "b": value("b", kind)}
		return ref{reflect.ValueOf(m), func(k string) (interface{}, bool) { v, ok := m[k]; return v, ok }, func() int { return len(m) }}
	}
	switch kind {
	case kInt:
		m := map[string]int64{"a": sym.Int64("a"), "b": sym.Int64("b")}
		return ref{reflect.ValueOf(m), func(k string) (interface{}, bool) { v, ok := m[k]; return v, ok }, func() int { return len(m) }}
	case kUint:
		m := map[string]uint64{"a": sym.Uint64("au"), "b": sym.Uint64("bu")}
		return ref{reflect.ValueOf(m), func(k string) (interface{}, bool) { v, ok := m[k]; return v, ok }, func() int { return len(m) }}
	case kFloat:
		m := map[string]float64{"a": sym.Float64("af"), "b": sym.Float64("bf")}
		return ref{reflect.ValueOf(m), func(k string) (interface{}, bool) { v, ok := m[k]; return v, ok }, func() int { return len(m) }}
	case kBool:
		m := map[string]bool{"a": sym.Bool("ab"), "b": sym.Bool("bb")}
		return ref{reflect.ValueOf(m), func(k string) (interface{}, bool) { v, ok := m[k]; return v, ok }, func() int { return len(m) }}
	case kString:
		m := map[string]string{"a": sym.String("as", 2), "b": sym.String("bs", 2)}
		return ref{reflect.ValueOf(m), func(k string) (interface{}, bool) { v, ok := m[k]; return v, ok }, func() int { return len(m) }}
	}
	m := map[string][]byte{"a": []byte(sym.String("ay", 2)), "b": []byte(sym.String("by", 2))}
	return ref{reflect.ValueOf(m), func(k string) (interface{}, bool) { v, ok := m[k]; return v, ok }, func() int { return len(m) }}
}

var keys = []string{"a", "b", "c"}

type slot struct {
	v  interface{}
	ok bool
}

func contents(r ref) (s [3]slot, n int) {
	for i, k := range keys {
		s[i].v, s[i].ok = r.read(k)
	}
	return s, r.len()
}

// holds checks that the map has exactly the expected contents.
func holds(r ref, want [3]slot) {
	n := 0
	for i, k := range keys {
		v, ok := r.read(k)
		sym.Assert(ok == want[i].ok, "entries appear exactly where they were set")
		if ok {
			n++
			sym.Assert(same(v, want[i].v), "entries hold what was stored last")
		}
	}
	sym.Assert(r.len() == n, "no entry but the named one is added")
}

// history performs steps free operations on boxes over one map.
func history(kind int, dynamic, unset bool, steps int) {
	r := table(kind, dynamic)
	want, _ := contents(r)
	key := sym.Choose("key", 3)
	initialized := !unset
	var b Box
	if unset {
		b = &NotInitializedMapContainerReflectionBox{Container: r.v, Key: reflect.ValueOf(keys[key])}
	} else {
		b = MapContainerReflectionBox{Container: r.v, Key: reflect.ValueOf(keys[key])}
	}
	// boxes navigated to, with the entry they address
	boxes := []Box{b}
	at := []int{key}
	for i := 0; i < steps; i++ {
		n := strconv.Itoa(i)
		j := sym.Choose("box"+n, steps)
		sym.Assume(j < len(boxes))
		cur, k := boxes[j], at[j]
		blocked := j == 0 && !initialized
		switch sym.Choose("op"+n, 4) {
		case 0:
			v := value("v"+n, kind)
			set(cur, kind, v)
			want[k] = slot{v, true}
			if j == 0 {
				initialized = true
			}
			sym.Cover("set")
		case 1:
			read(cur, kind, blocked, want[k])
		case 2:
			k2 := sym.Choose("to"+n, 3)
			var nb Box
			ok := !refused(func() { nb = cur.MapIndex(keys[k2]) })
			sym.Assert(ok == !blocked, "navigation is refused exactly on an unset variable")
			if ok {
				boxes, at = append(boxes, nb), append(at, k2)
				sym.Cover("map index")
			}
		case 3:
			k2 := sym.Choose("to"+n, 3)
			var nb Box
			ok := !refused(func() { nb = cur.ComplexMapIndex(keys[k2]) })
			sym.Assert(ok == !blocked, "navigation is refused exactly on an unset variable")
			if ok {
				boxes, at = append(boxes, nb), append(at, k2)
				sym.Cover("complex map index")
			}
		}
		holds(r, want)
	}
}

func read(b Box, kind int, blocked bool, want slot) {
	var v interface{}
	ok := !refused(func() { v = get(b, kind) })
	if blocked {
		sym.Assert(!ok, "reading an unset variable is refused")
		sym.Cover("refused")
	} else if want.ok {
		sym.Assert(ok, "a stored value can be read")
		sym.Assert(same(v, want.v), "Get returns the stored value")
		sym.Assert(same(b.GetAny(), want.v), "GetAny returns the stored value")
		sym.Cover("read")
	}
}

// unset: every read and navigation of a fresh box is refused, whatever the map
// holds, and works after each kind of Set.
func unset(op, kind int) {
	r := table(kind, true)
	k := sym.Choose("key", 3)
	before, _ := contents(r)
	b := &NotInitializedMapContainerReflectionBox{Container: r.v, Key: reflect.ValueOf(keys[k])}
	ok := !refused(func() {
		switch op {
		case 7:
			b.Index(0)
		case 8:
			b.MapIndex("a")
		case 9:
			b.ComplexMapIndex("a")
		default:
			get(b, op)
		}
	})
	sym.Assert(!ok, "an unset variable is refused")
	holds(r, before)
	v := value("v", kind)
	set(b, kind, v)
	before[k] = slot{v, true}
	holds(r, before)
	sym.Assert(same(get(b, kind), v), "Get returns the stored value")
	sym.Assert(same(b.GetAny(), v), "GetAny returns the stored value")
	if before[0].ok {
		sym.Assert(same(b.MapIndex("a").GetAny(), before[0].v), "MapIndex addresses the named entry")
	}
	if before[1].ok {
		sym.Assert(same(b.ComplexMapIndex("b").GetAny(), before[1].v), "ComplexMapIndex addresses the named entry")
	}
	sym.Cover("after set")
}

// variable: boxes over settable values.
func variable(kind int) {
	var p interface{}
	var load func() interface{}
	switch kind {
	case kInt:
		x := new(int64)
		p, load = x, func() interface{} { return *x }
	case kUint:
		x := new(uint64)
		p, load = x, func() interface{} { return *x }
	case kFloat:
		x := new(float64)
		p, load = x, func() interface{} { return *x }
	case kBool:
		x := new(bool)
		p, load = x, func() interface{} { return *x }
	case kString:
		x := new(string)
		p, load = x, func() interface{} { return *x }
	case kBytes:
		x := new([]byte)
		p, load = x, func() interface{} { return *x }
	case kAny:
		x := new(interface{})
		p, load = x, func() interface{} { return *x }
	}
	b := ReflectionBox{Val: reflect.ValueOf(p).Elem()}
	for i := 0; i < 2; i++ {
		v := value("v"+strconv.Itoa(i), kind)
		set(b, kind, v)
		sym.Assert(same(load(), v), "the variable holds the stored value")
		sym.Assert(same(get(b, kind), v), "Get returns the stored value")
		sym.Assert(same(b.GetAny(), v), "GetAny returns the stored value")
	}
	if kind != kAny {
		v := value("w", kind)
		b.SetAny(v)
		sym.Assert(same(load(), v) && same(get(b, kind), v), "SetAny stores the value")
	}
	sym.Cover("variable")
}

// narrow: integer variables of other widths keep values that fit them.
func narrow(c int) {
	i := int64(sym.Int("i", -128, 127))
	u := uint64(sym.Int("u", 0, 255))
	var b Box
	signed := true
	switch c {
	case 0:
		b = ReflectionBox{Val: reflect.ValueOf(new(int8)).Elem()}
	case 1:
		b = ReflectionBox{Val: reflect.ValueOf(new(int)).Elem()}
	case 2:
		b, signed = ReflectionBox{Val: reflect.ValueOf(new(uint8)).Elem()}, false
	case 3:
		b, signed = ReflectionBox{Val: reflect.ValueOf(new(uint32)).Elem()}, false
	}
	if signed {
		b.SetInt(i)
		sym.Assert(b.GetInt() == i, "GetInt returns the stored value")
	} else {
		b.SetUint(u)
		sym.Assert(b.GetUint() == u, "GetUint returns the stored value")
	}
	sym.Cover("narrow")
}

// elements: Index addresses exactly the named element.
func elements(c, n int) {
	s := make([]int64, n)
	want := make([]int64, n)
	for i := range s {
		s[i] = sym.Int64("e" + strconv.Itoa(i))
		want[i] = s[i]
	}
	i := sym.Concrete(sym.Int("i", 0, n-1))
	v := sym.Int64("v")
	var b Box
	switch c {
	case 0:
		b = ReflectionBox{Val: reflect.ValueOf(s)}
	case 1: // a slice held in a map entry
		m := map[string][]int64{"x": s, "y": {1}}
		b = ReflectionBox{Val: reflect.ValueOf(m)}.MapIndex("x")
	case 2: // nested slices
		b = ReflectionBox{Val: reflect.ValueOf([][]int64{{5}, s, {6}})}.Index(1)
	}
	for j := range s {
		sym.Assert(b.Index(j).GetInt() == want[j], "Index reads the named element")
	}
	b.Index(i).SetInt(v)
	want[i] = v
	for j := range s {
		sym.Assert(s[j] == want[j], "Set changes the named element and no other")
		sym.Assert(b.Index(j).GetInt() == want[j], "Index reads the named element")
	}
	sym.Assert(refused(func() { b.Index(n).GetInt() }), "no element beyond the end")
	sym.Cover("elements")
}

type key struct{ A, B int64 }

// lookups: ComplexMapIndex with keys of other types, MapIndex on a value box.
func lookups(c int) {
	v0, v1, v2 := sym.Int64("v0"), sym.Int64("v1"), sym.Int64("v2")
	x := sym.Int64("x")
	switch c {
	case 0:
		m := map[int64]int64{3: v0, 5: v1, -1: v2}
		sym.Assume(x == 3 || x == 5 || x == -1)
		sym.Assert(ReflectionBox{Val: reflect.ValueOf(m)}.ComplexMapIndex(x).GetInt() == m[x], "ComplexMapIndex addresses the named entry")
	case 1:
		m := map[key]int64{{1, 2}: v0, {2, 1}: v1}
		y := sym.Int64("y")
		sym.Assume(x == 1 && y == 2 || x == 2 && y == 1)
		sym.Assert(ReflectionBox{Val: reflect.ValueOf(m)}.ComplexMapIndex(key{x, y}).GetInt() == m[key{x, y}], "ComplexMapIndex addresses the named entry")
	case 2:
		m := map[string]int64{"k": v0, "l": v1, "": v2}
		s := sym.String("s", 1)
		sym.Assume(s == "k" || s == "l")
		sym.Assert(ReflectionBox{Val: reflect.ValueOf(m)}.MapIndex(s).GetInt() == m[s], "MapIndex addresses the named entry")
		sym.Assert(ReflectionBox{Val: reflect.ValueOf(m)}.MapIndex("").GetInt() == v2, "MapIndex addresses the named entry")
	case 3:
		m := map[interface{}]int64{int64(1): v0, "1": v1}
		b := ReflectionBox{Val: reflect.ValueOf(m)}
		sym.Assert(b.ComplexMapIndex("1").GetInt() == v1 && b.MapIndex("1").GetInt() == v1, "keys are told apart by type")
		sym.Assert(b.ComplexMapIndex(int64(1)).GetInt() == v0, "keys are told apart by type")
	case 5: // entries found from a box whose own key is of another type
		m := map[interface{}]interface{}{int64(1): v0, "1": v1, key{1, 2}: v2, true: x}
		own := []interface{}{int64(1), "1", key{1, 2}, true}
		which := sym.Choose("own", 4)
		b := MapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf(own[which])}
		sym.Assert(b.GetAny() == []interface{}{v0, v1, v2, x}[which], "Get returns the stored value")
		sym.Assert(b.MapIndex("1").GetAny() == v1, "MapIndex addresses the named entry")
		sym.Assert(b.ComplexMapIndex("1").GetAny() == v1, "ComplexMapIndex addresses the named entry")
		sym.Assert(b.ComplexMapIndex(int64(1)).GetAny() == v0, "ComplexMapIndex addresses the named entry")
		sym.Assert(b.ComplexMapIndex(key{1, 2}).GetAny() == v2, "ComplexMapIndex addresses the named entry")
		sym.Assert(b.ComplexMapIndex(true).GetAny() == x, "ComplexMapIndex addresses the named entry")
		y := sym.Int64("y")
		k2 := sym.Choose("to", 4)
		b.ComplexMapIndex(own[k2]).SetAny(y)
		for i, k := range own {
			want := []interface{}{v0, v1, v2, x}[i]
			if i == k2 {
				want = y
			}
			sym.Assert(m[k] == want && b.ComplexMapIndex(k).GetAny() == want, "Set changes the named entry and no other")
		}
		sym.Assert(len(m) == 4, "no entry is added")
	case 6: // the same from an unset variable
		m := map[interface{}]interface{}{int64(1): v0, "1": v1}
		b := &NotInitializedMapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf(key{3, 4})}
		sym.Assert(refused(func() { b.MapIndex("1") }) && refused(func() { b.ComplexMapIndex(int64(1)) }), "an unset variable is refused")
		b.SetInt(v2)
		sym.Assert(m[key{3, 4}] == v2 && b.GetAny() == v2 && len(m) == 3, "Get returns the stored value")
		sym.Assert(b.MapIndex("1").GetAny() == v1, "MapIndex addresses the named entry")
		sym.Assert(b.ComplexMapIndex(int64(1)).GetAny() == v0, "ComplexMapIndex addresses the named entry")
	case 4:
		m := map[int64]int64{3: v0, 5: v1}
		b := MapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf(x)}
		b.SetInt(v2)
		sym.Assert(b.GetInt() == v2 && m[x] == v2, "Get returns the stored value")
		sym.Assert(x == 3 || b.ComplexMapIndex(int64(3)).GetInt() == v0, "ComplexMapIndex addresses the named entry")
		sym.Assert(x == 5 || m[5] == v1, "other entries are unchanged")
		sym.Assert(len(m) == sym.IfInt(sym.Or(x == 3, x == 5), 2, 3), "no other entry is added")
	}
	sym.Cover("lookups")
}

type word string

type level int

func (l level) String() string { return "level" }

type fail struct{ n int }

func (f fail) Error() string { return "1" }

var spot int

// keys of many types; several print alike
var anyKeys = []interface{}{"1", int64(1), 1, uint8(1), word("1"), level(1), 1.0, '1', true, [2]int{1, 2}, key{1, 2}, fail{1}, &spot, AstType_Int, interface{}(nil)}

// mixed: entries with keys of many types, found from each kind of box.
func mixed(from int) {
	m := map[interface{}]interface{}{}
	want := make([]interface{}, len(anyKeys))
	for i, k := range anyKeys {
		if k == nil {
			continue
		}
		want[i] = sym.Int64("v" + strconv.Itoa(i))
		m[k] = want[i]
	}
	n := len(m)
	var b Box
	switch from {
	case 0:
		b = ReflectionBox{Val: reflect.ValueOf(m)}
	case 1:
		b = MapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf(key{1, 2})}
	default:
		u := &NotInitializedMapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf(level(1))}
		want[5] = sym.Int64("u")
		u.SetAny(want[5])
		b = u
	}
	all := func() {
		sym.Assert(len(m) == n, "no entry is added")
		for i, k := range anyKeys {
			if k != nil {
				sym.Assert(m[k] == want[i], "each entry holds what was stored last")
				sym.Assert(b.ComplexMapIndex(k).GetAny() == want[i], "ComplexMapIndex addresses the entry with this very key")
			}
		}
		sym.Assert(b.MapIndex("1").GetAny() == want[0], "MapIndex addresses the entry with this name")
	}
	all()
	sym.Cover("mixed")
	if from == 0 {
		return // its entries can only be read
	}
	to := sym.Choose("to", len(anyKeys)-1)
	want[to] = sym.Int64("y")
	b.ComplexMapIndex(anyKeys[to]).SetAny(want[to])
	all()
	want[0] = sym.Int64("z")
	b.MapIndex("1").SetAny(want[0])
	all()
}

func init() {
	steps := 3
	if sym.Thorough() {
		steps = 4
	}
	sym.Check("history", kinds*4, "3 (thorough 4) free operations (set, get, navigate) on map boxes and unset map boxes over maps of 7 element types and over map[string]interface{}, keys a, b, c", func(c int) {
		history(c%kinds, c/kinds%2 == 1, c/kinds/2 == 1, steps)
	})
	sym.Check("unset", 10*kinds, "each read and navigation of an unset box, then each kind of Set", func(c int) {
		unset(c%10, c/10)
	})
	sym.Check("variable", kinds, "boxes over settable variables of 7 types, arbitrary values", variable)
	sym.Check("narrow", 4, "boxes over integers of other widths", narrow)
	sym.Check("elements", 9, "Index on slices of 1..3 elements, directly, in a map and nested", func(c int) { elements(c%3, c/3+1) })
	sym.Check("mixed", 3, "14 keys of different types and alike spelling in one map, found from each kind of box", mixed)
	sym.Check("lookups", 7, "entries by integer, struct, string and interface keys", lookups)
}
