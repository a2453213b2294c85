package main

import (
	base "github.com/shellyln/takenoco/base"
	obj "github.com/shellyln/takenoco/object"
	"verif/harness/sym"
)

// Mixed is a source of values of any comparable type.
type Mixed []interface{}

func (s Mixed) Len() int                              { return len(s) }
func (s Mixed) Get(i int) interface{}                 { return s[i] }
func (s Mixed) Set(i int, v interface{})              { s[i] = v }
func (s Mixed) Reslice(start, end int) base.SliceLike { return s[start:end] }
func (s Mixed) Copy(start, end int) base.SliceLike    { return append(Mixed{}, s[start:end]...) }
func (s Mixed) Make(len, cap int) base.SliceLike      { return make(Mixed, len, cap) }
func (s Mixed) ItemEquals(a, b interface{}) bool      { return a == b }

type named string

// values some of which print alike or are equal as numbers
func mixed() []interface{} {
	n := sym.Concrete(sym.Int("n", 0, 2)) - 1
	return []interface{}{n, "-1", int64(n), "0", uint8(n), "1", named("1"), true, "true", float64(n), nil, "<nil>", 'a', "a", [1]int{n}, "[0]", "", named(""), struct{}{}, "{}"}
}

func alike(c int) {
	vs := mixed()
	k := c % 20
	list := vs
	switch c / 20 % 4 {
	case 1: // the others
		list = append(append([]interface{}{}, vs[:k]...), vs[k+1:]...)
	case 2: // backwards
		list = nil
		for i := range vs {
			list = append(list, vs[len(vs)-1-i])
		}
	case 3: // a short one
		list = []interface{}{vs[(k+1)%20], vs[k]}
	}
	in := c/20%4 != 1
	src := Mixed{7, vs[k], 8}
	for neg, p := range []base.ParserFn{obj.ObjClass(list...), obj.ObjClassN(list...)} {
		ctx := *obj.NewObjectParserContext(src)
		ctx.Position = 1
		out, err := p(ctx)
		sym.Assert(err == nil, "no error")
		if in == (neg == 0) {
			sym.Assert(out.MatchStatus == base.MatchStatus_Matched && out.Position == 2 && out.AstStack[0].Value == vs[k], "a value of the class")
		} else {
			sym.Assert(out.MatchStatus == base.MatchStatus_Unmatched && out.Position == 1, "no value of the class")
		}
	}
	whole, err := obj.Seq(vs...)(*obj.NewObjectParserContext(Mixed(vs)))
	sym.Assert(err == nil && whole.MatchStatus == base.MatchStatus_Matched, "the values in a row")
	bad := append([]interface{}{}, vs...)
	bad[k] = vs[(k+2)%20]
	whole, err = obj.Seq(bad...)(*obj.NewObjectParserContext(Mixed(vs)))
	sym.Assert(err == nil && whole.MatchStatus == base.MatchStatus_Unmatched, "another value in the row")
	sym.Cover("mixed")
}

func init() {
	sym.Check("mixed", 20*4, "ObjClass, ObjClassN and Seq over 20 values of different types that look alike, in lists of 2, 19 and 20 of them", alike)
}
