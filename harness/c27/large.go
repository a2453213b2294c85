package main

import (
	"reflect"
	"strconv"
	"strings"

	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

// crowd: maps of n entries, one of them set through a box.
func crowd(n, kind, from int) {
	m := map[string]interface{}{}
	want := map[string]interface{}{}
	name := func(i int) string { return strings.Repeat("k", i%50) + strconv.Itoa(i) }
	for i := 0; i < n; i++ {
		m[name(i)] = int64(i)
		want[name(i)] = int64(i)
	}
	at := name([]int{0, n / 2, n - 1, n}[from%4]) // the last is a new entry
	var b Box = &NotInitializedMapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf(at)}
	if from/4 == 1 {
		b = MapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf(at)}
	}
	for i := 0; i < 2; i++ {
		v := value("v"+strconv.Itoa(i), kind)
		set(b, kind, v)
		want[at] = v
		sym.Assert(same(get(b, kind), v), "Get returns the stored value")
		sym.Assert(len(m) == len(want), "no entry but the named one is added")
		for i := 0; i <= n; i++ {
			k := name(i)
			if _, ok := want[k]; ok {
				sym.Assert(same(m[k], want[k]), "entries hold what was stored last")
				sym.Assert(same(b.MapIndex(k).GetAny(), want[k]), "MapIndex addresses the named entry")
				sym.Assert(same(b.ComplexMapIndex(k).GetAny(), want[k]), "ComplexMapIndex addresses the named entry")
			}
		}
	}
	sym.Cover("crowd")
}

type nest map[string][]nest

// deep: maps and slices within each other.
func deep(n int) {
	k, k2 := "k"+h.Pattern("k", "?"), "l"+h.Pattern("l", "?")
	x := nest{k: nil}
	leaf := x
	for i := 0; i < n; i++ {
		x = nest{"x": {nil, {"y": nil}, x, {k: nil, "z": nil}}, "y": {{"x": nil}}, "": nil}
	}
	b := Box(ReflectionBox{Val: reflect.ValueOf(x)})
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			b = b.MapIndex("x").Index(2)
		} else {
			b = b.ComplexMapIndex("x").Index(2)
		}
	}
	got := b.GetAny().(nest)
	_, ok := got[k]
	sym.Assert(ok && len(got) == 1, "boxes return what was stored")
	leaf[k2] = []nest{{"w": nil}}
	_, ok = b.MapIndex(k2).Index(0).GetAny().(nest)["w"]
	sym.Assert(ok && len(got) == 2, "boxes return what is stored")
	sym.Cover("deep")
}

// long texts survive.
func texts(c int) {
	s := h.Pattern("s", strings.Repeat("x", 20)+"?"+strings.Repeat("\u4e2d", 40)+"??")
	k := h.Pattern("k", strings.Repeat("key", 30)+"#")
	m := map[string]string{"a": "b"}
	b := MapContainerReflectionBox{Container: reflect.ValueOf(m), Key: reflect.ValueOf(k)}
	var x string
	var y []byte
	switch c {
	case 0:
		b.SetString(s)
		sym.Assert(b.GetString() == s && b.GetAny() == s && m[k] == s && m["a"] == "b" && len(m) == 2, "Get returns the stored value")
	case 1:
		r := ReflectionBox{Val: reflect.ValueOf(&x).Elem()}
		r.SetString(s)
		sym.Assert(r.GetString() == s && x == s, "Get returns the stored value")
	case 2:
		r := ReflectionBox{Val: reflect.ValueOf(&y).Elem()}
		r.SetBytes([]byte(s))
		sym.Assert(string(r.GetBytes()) == s && string(y) == s, "Get returns the stored value")
	}
	sym.Cover("texts")
}

func init() {
	sym.Check("crowd", 2*kinds*8, "maps of 20 and 70 entries with names of up to 52 bytes, an old or a new one set to any kind of value through both kinds of map box", func(c int) {
		crowd([]int{20, 70}[c%2], c/2%kinds, c/2/kinds)
	})
	sym.Check("many elements", 9, "Index on slices of 9, 17 and 40 elements", func(c int) { elements(c%3, []int{9, 17, 40}[c/3]) })
	sym.Check("deep", 3, "maps of slices of maps, nested 3, 9 and 20 deep", func(c int) { deep([]int{3, 9, 20}[c]) })
	sym.Check("long values", 3, "texts of 143 bytes and names of 91", texts)
}
