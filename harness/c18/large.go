package main

import (
	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

// Predicates with many listed values, one of them free.
func manyValues(c int) {
	n := []int{9, 17, 40, 130}[c%4]
	at := []int{0, n / 2, n - 1}[c/4%3]
	k := 1 + c/12
	top := value(k, "top")
	s := stack(1, top)
	var rs []rune
	var is []int64
	var us []uint64
	var fs []float64
	var bs []bool
	var ss []string
	var list []interface{}
	for i := 0; i < n; i++ {
		if i == at {
			rs, is, us = append(rs, sym.Rune32("vr")), append(is, sym.Int64("vi")), append(us, sym.Uint64("vu"))
			fs, bs, ss = append(fs, sym.Float64("vf")), append(bs, sym.Bool("vb")), append(ss, sym.String("vs", 2))
			list = append(list, value(k, "v"))
			continue
		}
		rs, is, us = append(rs, rune(i*3)), append(is, int64(i*5-20)), append(us, uint64(i)<<i%64)
		fs, bs, ss = append(fs, float64(i)/4), append(bs, i%3 == 0), append(ss, string([]byte{byte(i), byte(i * 7)}))
		list = append(list, []interface{}{rune(i), int64(i), uint64(i), float64(i), "x"}[i%5])
	}
	r, isR := top.(rune)
	sym.Assert(TopIsRune(rs...)(s) == (isR && eqAny(n, func(i int) bool { return rs[i] == r })), "TopIsRune")
	i64, isI := top.(int64)
	sym.Assert(TopIsInt(is...)(s) == (isI && eqAny(n, func(i int) bool { return is[i] == i64 })), "TopIsInt")
	u, isU := top.(uint64)
	sym.Assert(TopIsUint(us...)(s) == (isU && eqAny(n, func(i int) bool { return us[i] == u })), "TopIsUint")
	f, isF := top.(float64)
	sym.Assert(TopIsFloat(fs...)(s) == (isF && eqAny(n, func(i int) bool { return fs[i] == f })), "TopIsFloat")
	b, isB := top.(bool)
	sym.Assert(TopIsBool(bs...)(s) == (isB && eqAny(n, func(i int) bool { return bs[i] == b })), "TopIsBool")
	t, isS := top.(string)
	sym.Assert(TopIsStr(ss...)(s) == (isS && eqAny(n, func(i int) bool { return ss[i] == t })), "TopIsStr")
	if !isF {
		sym.Assert(TopIs(list...)(s) == eqAny(n, func(i int) bool { return h.EqVal(top, list[i]) }), "TopIs")
	}
	sym.Cover("many values")
}

// Deep stacks below the top.
func deepStack(c int) {
	below := []int{9, 33, 130}[c%3]
	top := value(1+c/3, "top")
	s := stack(below, top)
	before := h.Clone(s)
	v := sym.Int64("v")
	x, ok := top.(int64)
	sym.Assert(TopIsInt(5, v)(s) == (ok && sym.Or(x == 5, x == v)), "TopIsInt")
	str := sym.String("vs", 2)
	y, ok := top.(string)
	sym.Assert(TopIsStr(str)(s) == (ok && y == str), "TopIsStr")
	sym.Assert(h.EqAsts(s, before), "predicates change nothing")
}

func init() {
	dims := [][4]int{{20, 40, 2, 1}, {40, 20, 2, 1}, {17, 17, 2, 2}, {1, 40, 2, 1}, {0, 40, 2, 1}, {39, 40, 1, 1}, {2, 3, 20, 1}, {5, 33, 9, 1}, {3, 9, 40, 0}, {70, 70, 1, 1}}
	sym.Check("large", len(dims), "Match(0..70) on stacks of up to 70 nodes, up to 40 cases", func(c int) {
		d := dims[c]
		apply(d[0], d[1], d[2], d[3], false)
	})
	sym.Check("many values", 4*3*9, "the TopIs predicates with 9..130 listed values, one of them free, on a top node of every type", manyValues)
	sym.Check("deep stack", 3*9, "predicates on stacks of 10..131 nodes", deepStack)
}
