package h

import . "github.com/shellyln/takenoco/base"

// Ints is a source of integers for object parsers.
type Ints []int

func (s Ints) Len() int                         { return len(s) }
func (s Ints) Get(i int) interface{}            { return s[i] }
func (s Ints) Set(i int, v interface{})         { s[i] = v.(int) }
func (s Ints) Reslice(start, end int) SliceLike { return s[start:end] }
func (s Ints) Copy(start, end int) SliceLike {
	return append(Ints{}, s[start:end]...)
}
func (s Ints) Make(len, cap int) SliceLike      { return make(Ints, len, cap) }
func (s Ints) ItemEquals(a, b interface{}) bool { return a == b }
