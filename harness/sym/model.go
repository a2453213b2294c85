package sym

import (
	"reflect"
	"unicode"
	"unicode/utf8"
)

// Models of standard library functions that the executor runs in their place.

// EqualFold is strings.EqualFold with the walk over case orbits replaced by a
// comparison of orbit representatives.
func EqualFold(s, t string) bool {
	for len(s) > 0 && len(t) > 0 {
		a, n := utf8.DecodeRuneInString(s)
		b, m := utf8.DecodeRuneInString(t)
		if foldRune(a) != foldRune(b) {
			return false
		}
		s, t = s[n:], t[m:]
	}
	return len(s) == len(t)
}

// foldRune is the smallest character of r's case orbit. The executor
// tabulates it (gosym/intrinsics.go).
func foldRune(r rune) rune {
	m := r
	for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
		m = min(m, f)
	}
	return m
}

// ErrorsIs is errors.Is over package reflect.
func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return errorsIs(err, target, reflect.TypeOf(target).Comparable())
}

func errorsIs(err, target error, comparable bool) bool {
	for err != nil {
		if comparable && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if errorsIs(e, target, comparable) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// ErrorsAs is errors.As over package reflect.
func ErrorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	if target == nil {
		panic("errors: target cannot be nil")
	}
	v := reflect.ValueOf(target)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		panic("errors: target must be a non-nil pointer")
	}
	return errorsAs(err, target, v)
}

func errorsAs(err error, target any, v reflect.Value) bool {
	for err != nil {
		if reflect.TypeOf(err).AssignableTo(v.Type().Elem()) {
			v.Elem().Set(reflect.ValueOf(err))
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && errorsAs(e, target, v) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// SortSlice is sort.Slice for up to 12 elements (an insertion sort there) and
// sort.SliceStable, over package reflect.
func SortSlice(x any, less func(i, j int) bool) {
	v := reflect.ValueOf(x)
	for i := 1; i < v.Len(); i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			a, b := v.Index(j), v.Index(j-1)
			t := reflect.New(a.Type()).Elem()
			t.Set(a)
			a.Set(b)
			b.Set(t)
		}
	}
}

// SliceIsSorted is sort.SliceIsSorted.
func SliceIsSorted(x any, less func(i, j int) bool) bool {
	for i := reflect.ValueOf(x).Len() - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

// Swapper is reflect.Swapper.
func Swapper(x any) func(i, j int) {
	v := reflect.ValueOf(x)
	return func(i, j int) {
		a, b := v.Index(i), v.Index(j)
		t := reflect.New(a.Type()).Elem()
		t.Set(a)
		a.Set(b)
		b.Set(t)
	}
}

// ReflectCopy is reflect.Copy.
func ReflectCopy(dst, src reflect.Value) int {
	n := min(dst.Len(), src.Len())
	if n == 0 {
		return 0
	}
	var vals []any
	for i := 0; i < n; i++ {
		vals = append(vals, src.Index(i).Interface())
	}
	for i := 0; i < n; i++ {
		if vals[i] == nil {
			dst.Index(i).Set(reflect.Zero(dst.Type().Elem()))
		} else {
			dst.Index(i).Set(reflect.ValueOf(vals[i]))
		}
	}
	return n
}

type mapIter struct {
	m    reflect.Value
	keys []reflect.Value
	i    int
}

// MapRange and the functions below are reflect.Value.MapRange and the methods
// of its iterator.
func MapRange(m reflect.Value) *mapIter { return &mapIter{m, m.MapKeys(), -1} }

func MapIterNext(it *mapIter) bool {
	it.i++
	return it.i < len(it.keys)
}

func MapIterKey(it *mapIter) reflect.Value { return it.keys[it.i] }

func MapIterValue(it *mapIter) reflect.Value { return it.m.MapIndex(it.keys[it.i]) }
