package main

// Type layout: every Go type is flattened into "cells"; a struct or array
// occupies the concatenation of its fields' or elements' cells, every other
// type exactly one cell.

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

type TKind uint8

const (
	TBool TKind = iota
	TInt
	TFloat
	TComplex
	TString
	TPtr // pointers and unsafe.Pointer
	TSlice
	TIface
	TFunc
	TMap
	TChan
	TStruct
	TArray
	TTuple
)

type TypeInfo struct {
	t          types.Type
	id         int
	kind       TKind
	w          uint8
	signed     bool
	cells      int
	zero       []Value // flattened zero
	elem       *TypeInfo
	key        *TypeInfo
	n          int // array length
	fields     []*TypeInfo
	offs       []int
	size       int64 // bytes
	noPtr      bool
	comparable bool
}

func (ti *TypeInfo) agg() bool { return ti.kind == TStruct || ti.kind == TArray }

func (ti *TypeInfo) String() string { return ti.t.String() }

type TypeTab struct {
	mu    sync.Mutex
	m     typeutil.Map
	next  int
	sizes types.Sizes
}

var typeTab = &TypeTab{sizes: types.SizesFor("gc", "amd64")}

func (tt *TypeTab) get(t types.Type) *TypeInfo {
	tt.mu.Lock()
	defer tt.mu.Unlock()
	return tt.get0(t)
}

func (tt *TypeTab) get0(t types.Type) *TypeInfo {
	t = types.Unalias(t)
	if v := tt.m.At(t); v != nil {
		return v.(*TypeInfo)
	}
	ti := &TypeInfo{t: t, id: tt.next}
	tt.next++
	tt.m.Set(t, ti)
	tt.fill(ti, t.Underlying())
	return ti
}

func (tt *TypeTab) fill(ti *TypeInfo, u types.Type) {
	scalar := func(k TKind, z Value) {
		ti.kind = k
		ti.cells = 1
		ti.zero = []Value{z}
	}
	if _, ok := u.(*types.Tuple); !ok {
		if _, tp := u.(*types.TypeParam); !tp {
			func() {
				defer func() { recover() }()
				ti.size = tt.sizes.Sizeof(u)
			}()
		}
		ti.comparable = types.Comparable(u)
	}
	switch u := u.(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case u.Kind() == types.UnsafePointer:
			scalar(TPtr, Value{K: KPtr})
		case u.Kind() == types.UntypedNil:
			scalar(TPtr, Value{K: KPtr})
		case info&types.IsBoolean != 0:
			scalar(TBool, Value{K: KBool})
			ti.noPtr = true
		case info&types.IsInteger != 0:
			w, s := intWidth(u.Kind())
			ti.w, ti.signed = w, s
			scalar(TInt, Value{K: KInt, W: w})
			ti.noPtr = true
		case info&types.IsFloat != 0:
			ti.w = 64
			if u.Kind() == types.Float32 {
				ti.w = 32
			}
			scalar(TFloat, Value{K: KFloat, W: ti.w})
			ti.noPtr = true
		case info&types.IsComplex != 0:
			scalar(TComplex, Value{K: KInv})
			ti.noPtr = true
		case info&types.IsString != 0:
			scalar(TString, Value{K: KStr, R: ""})
		default:
			scalar(TPtr, Value{K: KInv})
		}
	case *types.Pointer:
		scalar(TPtr, Value{K: KPtr})
		ti.elem = tt.get0(u.Elem())
	case *types.Slice:
		scalar(TSlice, Value{K: KSlice})
		ti.elem = tt.get0(u.Elem())
	case *types.Map:
		scalar(TMap, Value{K: KMap})
		ti.key = tt.get0(u.Key())
		ti.elem = tt.get0(u.Elem())
	case *types.Chan:
		scalar(TChan, Value{K: KChan})
	case *types.Signature:
		scalar(TFunc, Value{K: KFunc})
	case *types.Interface, *types.TypeParam:
		scalar(TIface, Value{K: KIface})
	case *types.Struct:
		ti.kind = TStruct
		ti.noPtr = true
		for i := 0; i < u.NumFields(); i++ {
			f := tt.get0(u.Field(i).Type())
			ti.fields = append(ti.fields, f)
			ti.offs = append(ti.offs, ti.cells)
			ti.cells += f.cells
			ti.zero = append(ti.zero, f.zero...)
			ti.noPtr = ti.noPtr && f.noPtr
		}
	case *types.Array:
		ti.kind = TArray
		ti.elem = tt.get0(u.Elem())
		ti.n = int(u.Len())
		ti.cells = ti.n * ti.elem.cells
		ti.noPtr = ti.elem.noPtr || ti.n == 0
		if ti.cells <= 1<<16 {
			ti.zero = make([]Value, 0, ti.cells)
			for i := 0; i < ti.n; i++ {
				ti.zero = append(ti.zero, ti.elem.zero...)
			}
		}
	case *types.Tuple:
		ti.kind = TTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, tt.get0(u.At(i).Type()))
		}
	default:
		// *types.Named of generics origin etc.
		scalar(TPtr, Value{K: KInv})
	}
	_ = fmt.Sprint
}

func intWidth(k types.BasicKind) (uint8, bool) {
	switch k {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

// zeroVal is the register value of the type's zero.
func (ti *TypeInfo) zeroVal() Value {
	if ti.agg() {
		z := make([]Value, ti.cells)
		if ti.zero != nil {
			copy(z, ti.zero)
		} else {
			for i := 0; i < ti.n; i++ {
				copy(z[i*ti.elem.cells:], ti.elem.zero)
			}
		}
		return Value{K: KStruct, R: z}
	}
	if ti.kind == TTuple {
		z := make([]Value, len(ti.fields))
		for i, f := range ti.fields {
			z[i] = f.zeroVal()
		}
		return Value{K: KTuple, R: z}
	}
	return ti.zero[0]
}

// fromCells makes a register value out of cells.
func (ti *TypeInfo) fromCells(c []Value) Value {
	if ti.agg() {
		return Value{K: KStruct, R: c}
	}
	return c[0]
}

// toCells is the inverse.
func (ti *TypeInfo) toCells(v Value) []Value {
	if ti.agg() {
		return v.R.([]Value)
	}
	return []Value{v}
}
