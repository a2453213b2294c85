package main

import (
	"strconv"
	"strings"

	"verif/harness/sym"
)

func R(s string, n int) string { return strings.Repeat(s, n) }

// fifteen has many fields.
type fifteen struct {
	A0  string `csv:"c0"`
	A1  int    `csv:"c1"`
	A2  uint8  `csv:"c2"`
	A3  string `csv:"c3"`
	A4  int8   `csv:"c4"`
	A5  uint16 `csv:"c5"`
	A6  string `csv:"c6"`
	A7  int64  `csv:"c7"`
	A8  uint64 `csv:"c8"`
	A9  string `csv:"c9"`
	A10 int32  `csv:"c10"`
	A11 uint   `csv:"c11"`
	A12 string
	A13 int16
	A14 uint32
}

var wide = mk(
	[]string{"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11", "A12", "A13", "A14"},
	[]string{"A0", "A1", "A2", "A3", "A4", "A5", "A6", "A7", "A8", "A9", "A10", "A11", "A12", "A13", "A14"},
	[]kind{{'s', 0}, {'i', 64}, {'u', 8}, {'s', 0}, {'i', 8}, {'u', 16}, {'s', 0}, {'i', 64}, {'u', 64}, {'s', 0}, {'i', 32}, {'u', 64}, {'s', 0}, {'i', 16}, {'u', 32}},
	func(r *fifteen) []val {
		return []val{{s: r.A0}, {n: uint64(r.A1)}, {n: uint64(r.A2)}, {s: r.A3}, {n: uint64(r.A4)}, {n: uint64(r.A5)}, {s: r.A6}, {n: uint64(r.A7)},
			{n: r.A8}, {s: r.A9}, {n: uint64(r.A10)}, {n: uint64(r.A11)}, {s: r.A12}, {n: uint64(r.A13)}, {n: uint64(r.A14)}}
	},
	func(r *fifteen, v []val) {
		r.A0, r.A1, r.A2, r.A3, r.A4, r.A5, r.A6, r.A7 = v[0].s, int(v[1].n), uint8(v[2].n), v[3].s, int8(v[4].n), uint16(v[5].n), v[6].s, int64(v[7].n)
		r.A8, r.A9, r.A10, r.A11, r.A12, r.A13, r.A14 = v[8].n, v[9].s, int32(v[10].n), uint(v[11].n), v[12].s, int16(v[13].n), uint32(v[14].n)
	})

func numbered(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += "r" + strconv.Itoa(i) + "," + strconv.Itoa(i%100) + "," + strconv.Itoa(i*2%256) + "\n"
	}
	return s
}

func rows(n int, row string) (r []string) {
	for i := 0; i < n; i++ {
		r = append(r, row)
	}
	return
}

func others(n int) (r []string) {
	for i := 0; i < n; i++ {
		r = append(r, "other"+strconv.Itoa(i))
	}
	return
}

func init() {
	w := len(shapes)
	shapes = append(shapes, wide)
	reads := []input{
		{0, list("A", "b", "see"), numbered(40) + "?,1#,2#"},
		{0, list("A", "b", "see"), "?,@##,1\n" + numbered(20) + "z,-1#,#"},
		{0, append(others(20), "see", "A"), R("x,", 20) + "2#,@?"},
		{0, append(others(40), "b"), R(",", 40) + "@1#\n" + R(",", 39) + "\n" + R("x,", 40) + "5"},
		{0, list("A"), R("long", 33) + "@@"},
		{0, list("b", "A"), R("0", 30) + "1#,?"},
		{0, list("see"), R("0", 70) + "2##"},
		{2, list("x", "w"), "1." + R("0", 40) + "5," + R("0", 25) + "#"},
		{w, wide.cols, "?,1,2,@,4,5,x,7,8,y,10,11,z,13,1#\na,-1,255,b,-128,65535,c,-7#,1#,d,-2147483648,0,\"@\",-3276#,429496729#"},
		{w, list("A13", "c10", "zz", "c2", "c7", "A12", "c1"), "32#,1#,q,25#,9,@,8"},
		{w, list("c9", "A14", "c4"), "@,1,12#\n" + R("p,2,3\n", 17) + "@,4#,-12#"},
		{w, list("A3", "A10", "A5"), "@,#,6552#"},
	}
	writes := []output{
		{0, list("A", "b", "see"), append(rows(20, "x|40|90"), "?|s|s")},
		{0, append(others(17), "see", "A"), list("@|s|s", "x|1|s")},
		{0, list("b", "A"), append(list("@|z|z"), rows(40, "a,b|-5|7")...)},
		{0, list("A"), list(R("q\"", 40) + "@|1|1")},
		{w, wide.cols, list("@|1|2|a|3|4|b|s|6|c|7|8|d|9|10", "x|-1|200|\"|-100|60000||9223372036854775807|18446744073709551615|e|5|9||100|12")},
		{w, wide.cols, list("x|1|2|a|3|4|b|5|6|c|7|8|d|9|10", "x|-1|200|\"|-100|60000||7|18446744073709551615|@|5|9||100|12")},
		{w, wide.cols, list("x|1|2|a|3|4|b|5|6|c|7|8|d|9|10", "x|-1|200|\"|-100|60000||7|18446744073709551615|e|z|9||100|12")},
		{w, list("A13", "c10", "zz", "c2", "c7", "A12", "c1"), list("x|s|s|a|3|4|b|1|6|c|7|8|@|9|10")},
		{w, list("c9", "A14", "c4"), append(rows(17, "x|1|2|a|3|4|b|5|6|c|7|8|d|9|10"), "x|1|2|a|s|4|b|5|6|@|7|8|d|9|s")},
	}
	sym.Check("many rows and columns", len(reads)+len(writes), "12 texts and 9 tables of up to 41 rows and columns, long cells, and a struct of 15 fields", func(c int) {
		if c < len(reads) {
			readIn(reads[c])
		} else {
			writeOut(writes[c-len(reads)])
		}
	})
}
