// C30: CSV struct mapping is faithful, deterministic and total.
package main

import (
	"math"
	"strconv"
	"unicode/utf8"

	"github.com/shellyln/takenoco/_examples/csv"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

// val is the content of a field: the text, integer (two's complement) or float.
type val struct {
	s string
	n uint64
	f float64
}

type kind struct {
	code byte // 's'tring, 'i'nt, 'u'int, 'f'loat
	bits int
}

// shape describes a struct type: the column of each field, its kind, and
// access to its content.
type shape struct {
	cols      []string
	names     []string // Go names; used when there is no column named by the tag
	kinds     []kind
	unmarshal func(s string) (rows [][]val, err error)
	marshal   func(cols []string, rows [][]val) (string, error)
}

func mk[T any](cols, names []string, kinds []kind, get func(*T) []val, put func(*T, []val)) shape {
	return shape{cols, names, kinds,
		func(s string) ([][]val, error) {
			var xs []T
			err := csv.Unmarshal(&xs, s)
			if err != nil {
				return nil, err
			}
			var rows [][]val
			for i := range xs {
				rows = append(rows, get(&xs[i]))
			}
			return rows, nil
		},
		func(cols []string, rows [][]val) (string, error) {
			xs := make([]T, len(rows))
			for i := range rows {
				put(&xs[i], rows[i])
			}
			return csv.Marshal(cols, xs)
		}}
}

type one struct {
	A string
	B int8  `csv:"b"`
	C uint8 `csv:"see"`
}

type two struct {
	P int16
	Q uint32 `csv:"q,r"`
	R string `csv:"P2"`
	S int32  `json:"x" csv:"s s"`
}

type three struct {
	X    float64 `csv:"x"`
	Y    float32
	note string
	W    int64  `csv:"w"`
	V    uint64 `csv:"v"`
}

type four struct {
	hid string
	U   int
	T   uint   `csv:"t"`
	H   uint16 `csv:"U2"`
	N   string `csv:"n"`
	M   string
}

// two fields read one column; tags that look like options
type five struct {
	D string `csv:"-"`
	O int8   `csv:"n,omitempty"`
	L string `csv:" l"`
	S string `csv:"Own"`
	T uint16 `csv:"Own"`
}

type six struct {
	Own string
	S   string `csv:"Own"`
	E   uint8  `csv:"\u00c9,-"`
}

var shapes = []shape{
	mk([]string{"A", "b", "see"}, []string{"A", "B", "C"}, []kind{{'s', 0}, {'i', 8}, {'u', 8}},
		func(r *one) []val { return []val{{s: r.A}, {n: uint64(r.B)}, {n: uint64(r.C)}} },
		func(r *one, v []val) { r.A, r.B, r.C = v[0].s, int8(v[1].n), uint8(v[2].n) }),
	mk([]string{"P", "q,r", "P2", "s s"}, []string{"P", "Q", "R", "S"}, []kind{{'i', 16}, {'u', 32}, {'s', 0}, {'i', 32}},
		func(r *two) []val { return []val{{n: uint64(r.P)}, {n: uint64(r.Q)}, {s: r.R}, {n: uint64(r.S)}} },
		func(r *two, v []val) { r.P, r.Q, r.R, r.S = int16(v[0].n), uint32(v[1].n), v[2].s, int32(v[3].n) }),
	mk([]string{"x", "Y", "w", "v"}, []string{"X", "Y", "W", "V"}, []kind{{'f', 64}, {'f', 32}, {'i', 64}, {'u', 64}},
		func(r *three) []val {
			return []val{{f: r.X}, {f: float64(r.Y)}, {n: uint64(r.W)}, {n: r.V}}
		},
		func(r *three, v []val) {
			r.X, r.Y, r.W, r.V, r.note = v[0].f, float32(v[1].f), int64(v[2].n), v[3].n, "n"
		}),
	mk([]string{"U", "t", "U2", "n", "M"}, []string{"U", "T", "H", "N", "M"}, []kind{{'i', 64}, {'u', 64}, {'u', 16}, {'s', 0}, {'s', 0}},
		func(r *four) []val {
			return []val{{n: uint64(r.U)}, {n: uint64(r.T)}, {n: uint64(r.H)}, {s: r.N}, {s: r.M}}
		},
		func(r *four, v []val) {
			r.U, r.T, r.H, r.N, r.M = int(v[0].n), uint(v[1].n), uint16(v[2].n), v[3].s, v[4].s
		}),
	mk([]string{"-", "n,omitempty", " l", "Own", "Own"}, []string{"D", "O", "L", "S", "T"}, []kind{{'s', 0}, {'i', 8}, {'s', 0}, {'s', 0}, {'u', 16}},
		func(r *five) []val {
			return []val{{s: r.D}, {n: uint64(r.O)}, {s: r.L}, {s: r.S}, {n: uint64(r.T)}}
		},
		func(r *five, v []val) {
			r.D, r.O, r.L, r.S, r.T = v[0].s, int8(v[1].n), v[2].s, v[3].s, uint16(v[4].n)
		}),
	mk([]string{"Own", "Own", "\u00c9,-"}, []string{"Own", "S", "E"}, []kind{{'s', 0}, {'s', 0}, {'u', 8}},
		func(r *six) []val { return []val{{s: r.Own}, {s: r.S}, {n: uint64(r.E)}} },
		func(r *six, v []val) { r.Own, r.S, r.E = v[0].s, v[1].s, uint8(v[2].n) }),
}

// number reads a decimal number with an optional sign; ok when k can hold it.
func number(s string, k kind) (n uint64, ok bool) {
	i, neg := 0, false
	if k.code == 'i' && len(s) > 0 {
		neg = s[0] == '-'
		if sym.Or(neg, s[0] == '+') {
			i = 1
		}
	}
	digits := s[i:]
	if len(digits) == 0 {
		return 0, false
	}
	ok = true
	for j := range len(digits) {
		ok = sym.And(ok, h.Digit(digits[j]))
		n = n*10 + uint64(digits[j]-'0')
	}
	limit := uint64(math.MaxUint64)
	if k.code == 'u' {
		limit >>= 64 - k.bits
	} else {
		limit >>= 65 - k.bits
		if neg {
			limit++
		}
	}
	fits := n <= limit
	if len(digits) > 19 { // n may have wrapped: compare the digits
		text := strconv.FormatUint(limit, 10)
		for len(text) < len(digits) {
			text = "0" + text
		}
		fits = true
		for j := len(digits) - 1; j >= 0; j-- {
			fits = sym.Or(digits[j] < text[j], sym.And(digits[j] == text[j], fits))
		}
	}
	if neg {
		n = -n
	}
	return n, sym.And(ok, fits)
}

func index(xs []string, x string) int {
	for i := range xs {
		if xs[i] == x {
			return i
		}
	}
	return -1
}

// owner is the field a column is written from: that of a tag, or the one of
// that name. (Two fields with one tag are not written in these harnesses.)
func (sh shape) owner(c string) int {
	for f := range sh.cols {
		if sh.cols[f] == c && sh.names[f] != c {
			return f
		}
	}
	return index(sh.cols, c)
}

// fits reads the cell of a field.
func fits(cell string, k kind) (val, bool) {
	switch k.code {
	case 's':
		return val{s: cell}, true
	case 'f':
		f, err := strconv.ParseFloat(cell, k.bits)
		return val{f: f}, err == nil
	}
	n, ok := number(cell, k)
	return val{n: n}, ok
}

func same(a, b val) bool {
	return sym.And(a.s == b.s, sym.And(a.n == b.n, sym.SameFloat(a.f, b.f)))
}

func join(cols []string) string {
	s := ""
	for i, c := range cols {
		if i > 0 {
			s += ","
		}
		s += "\"" + c + "\""
	}
	return s
}

// read checks Unmarshal on the given header and text.
func read(sh shape, cols []string, body string) {
	got, err := sh.unmarshal(join(cols) + "\n" + body)
	table, isTable := h.Csv(join(cols) + "\n" + body)
	if !isTable {
		sym.Assert(err != nil, "a text that is no table is an error")
		sym.Cover("no table")
		return
	}
	if len(table) < 2 {
		sym.Assert(err == nil && len(got) == 0, "no rows in, no rows out")
		sym.Cover("empty")
		return
	}
	all := true
	rows := table[1:]
	want := make([][]val, len(rows))
	for i, row := range rows {
		want[i] = make([]val, len(sh.cols))
		for f, c := range sh.cols {
			j := index(cols, c)
			if j < 0 {
				j = index(cols, sh.names[f])
			}
			if j >= len(row) {
				sym.Cover("short row") // an error or zero fields
				return
			}
			if j >= 0 {
				v, ok := fits(row[j], sh.kinds[f])
				want[i][f] = v
				all = sym.And(all, ok)
			}
		}
	}
	if err != nil {
		sym.Assert(!all, "text that fits is no error")
		sym.Cover("error")
		return
	}
	sym.Assert(all, "text that does not fit is an error")
	sym.Assert(len(got) == len(want), "one struct for each row")
	for i := range want {
		for f := range want[i] {
			sym.Assert(same(got[i][f], want[i][f]), "each field has the content of its column")
		}
	}
	sym.Cover("read")
}

// write checks Marshal and the way back.
func write(sh shape, cols []string, rows [][]val) {
	for _, row := range rows {
		for _, v := range row {
			sym.Assume(utf8.ValidString(v.s))
		}
	}
	out, err := sh.marshal(cols, rows)
	sym.Assert(err == nil, "structs are written")
	table, ok := h.Csv(out)
	sym.Assert(ok, "the output is a table")
	sym.Assert(len(table) == len(rows), "one row for each struct")
	for i, row := range table {
		sym.Assert(len(row) == len(cols), "one cell for each column")
		for j, c := range cols {
			f := sh.owner(c)
			if f < 0 {
				sym.Assert(row[j] == "", "a column without a field is empty")
				continue
			}
			v, ok := fits(row[j], sh.kinds[f])
			sym.Assert(sym.And(ok, same(v, rows[i][f])), "each column has the content of its field")
		}
	}
	for i, c := range cols {
		if index(sh.cols, c) < 0 && index(sh.names, c) >= 0 {
			return // Unmarshal looks for such a column
		}
		if index(cols, c) != i {
			return // one column twice
		}
	}
	back, err := sh.unmarshal(join(cols) + "\n" + out)
	sym.Assert(err == nil, "the output can be read")
	sym.Assert(len(back) == len(rows), "all structs return")
	for i := range back {
		for f, c := range sh.cols {
			want := val{}
			if index(cols, c) >= 0 {
				want = rows[i][sh.owner(c)]
			}
			sym.Assert(same(back[i][f], want), "listed fields return, others are zero")
		}
	}
	sym.Cover("written")
}

type input struct {
	shape int
	cols  []string
	body  string // h.Pattern
}

func list(cs ...string) []string { return cs }

var inputs = []input{
	{0, list("A", "b", "see"), "?,?,?"},
	{0, list("A", "b", "see"), "x,1##,2##"},
	{0, list("A", "b", "see"), "@,@##,200"},
	{0, list("see", "A", "b"), "@#,?,-#"},
	{0, list("see", "A", "b"), "1,x,@1@\n9,y,2"},
	{0, list("b", "zz", "A"), "##,x,?\n-1##,z,y"},
	{0, list("b", "zz", "A"), "12,x\n-1#,z,?"},
	{0, list("A", "zz"), "?@\n@"},
	{0, list("zz", "b"), "?,@\nx,1?\n,3"},
	{0, list("b"), "?\n?"},
	{0, list("see"), "@##\n1"},
	{0, list("a", "B", "See"), "?,1@,?"},
	{0, list("C", "B", "b"), "@,x,##"},
	{0, list(), "?,?"},
	{0, list("b", "A", "see", "zz"), "1,\"?\",#,?"},
	{1, list("P", "q,r", "P2", "s s"), "@####,40000,x,1"},
	{1, list("P", "q,r", "P2", "s s"), "32767,4######,x,1"},
	{1, list("s s", "P2"), "@214748####,x"},
	{1, list("q,r", "P"), "429496####,-327##"},
	{1, list("q,r", "P"), "#,12\n5,@32##7"},
	{1, list("R", "S", "Q", "P"), "?,?,2,#"},
	{1, list("P2", "R", "s s"), "?,x,-2#\n\"\"\"?\",y,1"},
	{2, list("x", "Y", "w", "v"), "1.5,3.4e38,@#,#"},
	{2, list("Y", "x"), "1e39,3.5\n"},
	{2, list("Y", "x"), "0.1,0.1\n-7,1e309"},
	{2, list("Y"), "1e38\n 0.3333333333333 \nNaN"},
	{2, list("w", "v", "note"), "92233720368547758##,5"},
	{2, list("w", "v"), "-922337203685477####,18446744073709551@##"},
	{2, list("v", "w"), "1844674407370955####,1"},
	{2, list("v", "w"), "1#44674407370955161##,+9223372036854775807"},
	{2, list("x", "w"), "-1.25e-3,#\n1e,@"},
	{2, list("X", "w"), "0x1p4,?"},
	{3, list("U", "t", "U2", "n", "M"), "@#,1,655##,?,x"},
	{3, list("M", "n", "U"), "?,?,-922337203685477580#"},
	{3, list("M", "hid", "U"), "x,,1\n@,\"@\",0"},
	{3, list("U2", "T", "t"), "@####,x,1844674407370955161#"},
	{3, list("H", "N", "M"), "?,?@,@"},
	{0, list("b", "see"), "\"?1\",\"2?\""},
	{0, list("b", "see", "A"), "\"\",\"3\",\"?\""},
	{2, list("x", "w"), "\" 1.5\",1"},
	{2, list("Y", "v"), "\"2.5\n\",\"#\""},
	{2, list("w", "v"), "1_0,\"?5\""},
	{4, list("-", "D", "n,omitempty", "n"), "?,x,1@#,5"},
	{4, list("l", " l", "L"), "?,\" ?\",y"},
	{4, list("Own"), "@\n\n7#"},
	{4, list("S", "Own", "T"), "x,655#@,?"},
	{4, list("O", "omitempty", "T", "D"), "@,?,7,x"},
	{5, list("Own", "\u00c9", "E"), "?,x,@"},
	{5, list("S", "\u00c9,-", "Own"), "?,2@,y?"},
}

var deeper = []input{
	{0, list("A", "b", "see"), "??,1?,2"},
	{0, list("b", "see", "A"), "@##,@##,?"},
	{0, list("see", "b"), "???"},
	{0, list("zz", "A"), "????"},
	{1, list("P", "s s"), "@#####,-21474836@#"},
	{1, list("P2", "P"), "?,?\n?,?"},
	{3, list("U", "t"), "@9223372036854775###,?"},
	{3, list("t", "n"), "184467440737095516##,??"},
	{3, list("n", "U2", "M"), "@?,?,@@"},
}

var orders = []input{
	{0, list("see", "A", "b"), "#,x@,-#"},
	{0, list("b", "see", "A"), "1@,2#,y\n3,,z"},
	{1, list("P", "q,r", "P2", "s s"), "12,34,@b,#"},
	{1, list("s s", "zz", "P2", "P"), "3#,y,4,5\n1"},
	{2, list("v", "w", "x", "Y"), "#,-2,3.5,4.25"},
	{3, list("n", "M", "U2"), "#,b,2\n@,\"d\",1"},
	{0, list("see", "b"), "x,y\n?,@"},
	{4, list("Own", "n,omitempty"), "@,#"},
	{5, list("Own", "\u00c9,-"), "@,#"},
}

type output struct {
	shape int
	cols  []string
	rows  []string // per field, separated by '|': h.Pattern text, a kind of number, a float
}

var outputs = []output{
	{0, list("A", "b", "see"), list("??|s|s")},
	{0, list("A", "b", "see"), list("?|z|z")},
	{0, list("see", "zz", "b", "A"), list("?|m|s", "@|M|M")},
	{0, list("b"), list("x|z|s", "y|s|s", "z|m|s")},
	{0, list("zz", "see"), list("?|s|s", "|s|z")},
	{0, list("A", "zz"), list("?@|s|s")},
	{0, list("A", "B"), list("?|s|s", "|s|s")},
	{1, list("P", "q,r", "P2", "s s"), list("s|s|??|s")},
	{1, list("s s", "P2", "P"), list("m|s|?|M", "M|s||m")},
	{1, list("q,r", "R"), list("s|M|@|s", "s|z|x|s")},
	{1, list("P2", "zz"), list("s|s|@@|s", "s|s|?|s")},
	{2, list("x", "Y", "w", "v"), list("1.5|-0.25|s|s")},
	{2, list("v", "x"), list("0.1|1e30|s|M")},
	{2, list("w", "Y"), list("1|3.4028234663852886e38|m|s", "-Inf|1.401298464324817e-45|M|s")},
	{2, list("Y", "zz", "x"), list("1e-320|0.1|s|s", "NaN|-0|s|s")},
	{2, list("xx", "w"), list("1|1|z|s")},
	{3, list("U", "t", "U2", "n", "M"), list("s|s|s|?|@")},
	{3, list("M", "n"), list("s|s|s|@|??", "s|s|s|?|x")},
	{3, list("t", "M", "U"), list("m|z|s||b,", "M|s|s|a|\"b")},
	{3, list("t", "U"), list("z|M|s|a|b")},
	{3, list("n", "U2"), list("s|s|M|@|@", "s|s|z|x|y")},
	{3, list("t", "zz"), list()},
	{2, list("w", "v"), list("0|0|9223372036854775807|18446744073709551615", "0|0|-9223372036854775808|0", "1|1|9007199254740993|9007199254740993", "1|1|-1000000007|10000000000000001")},
	{3, list("U", "t", "M", "U2"), list("-9007199254740993|18446744073709551614|65535|a|?", "9223372036854775806|9007199254740995|0||b", "21|1000000|1000||")},
	{0, list("see", "b", "A"), list("?|-128|255", "|127|100", "a|-100|0")},
	{2, list("x", "Y"), list("0.3333333333333333|0.1|s|s", "123456789.12345679|0.33333334|s|s", "2.2250738585072014e-308|16777216|s|s", "1.7976931348623157e308|-1e-7|s|s", "1e21|1e20|s|s", "100000|-1000000|s|s")},
	{0, list("A", "b", "A", "b"), list("?|s|s", "x|m|s")},
	{2, list("x", "zz", "w", "x"), list("1.5|2|s|s")},
	{4, list("-", "n,omitempty", " l"), list("?|s|@|a|1")},
	{4, list("D", "n", "l", " l"), list("?|s|@|a|1", "x|s|y|a|1")},
	{5, list("Own", "\u00c9,-"), list("?|@|s", "x|y|s")},
	{5, list("S", "\u00c9", "Own"), list("?|@|s")},
	{1, list("P", "s s", "q,r"), list("-32768|4294967295||-2147483648", "32767|4000000000|x|2147483647", "100|1000|y|-1000000")},
}

var permuted = []output{
	{0, list("see", "A", "b"), list("@|s|s")},
	{0, list("b", "zz", "A"), list("a|s|s", "@|z|s")},
	{1, list("s s", "P2", "q,r", "P"), list("s|s|a|s")},
	{1, list("P2", "P"), list("s|s|@|s", "s|s||s")},
	{2, list("v", "w", "x"), list("1.5|2|s|s")},
	{2, list("Y", "w"), list("1.5|2.5|s|s")},
	{5, list("Own", "\u00c9,-", "Own"), list("a|@|s")},
}

// fill builds the fields of row i.
func fill(sh shape, row string, i int) (r []val) {
	start := 0
	for j := 0; j <= len(row); j++ {
		if j < len(row) && row[j] != '|' {
			continue
		}
		p, k, name := row[start:j], sh.kinds[len(r)], "r"+strconv.Itoa(i)+"f"+strconv.Itoa(len(r))
		start = j + 1
		var v val
		switch k.code {
		case 's':
			v.s = h.Pattern(name, p)
		case 'f':
			v.f, _ = strconv.ParseFloat(p, k.bits)
		case 'i':
			if n, err := strconv.ParseInt(p, 10, k.bits); err == nil {
				v.n = uint64(n)
				break
			}
			// s: 40..49, z: -5..5, m and M: the ends of the range
			limit := int64(1) << (k.bits - 1)
			d := int64(sym.Int(name, 0, 7))
			switch p {
			case "s":
				v.n = uint64(40 + d)
			case "z":
				v.n = uint64(sym.Int(name+"z", -5, 5))
			case "m":
				v.n = uint64(-limit + d)
			case "M":
				v.n = uint64(limit - 1 - d)
			}
		case 'u':
			if n, err := strconv.ParseUint(p, 10, k.bits); err == nil {
				v.n = n
				break
			}
			d := uint64(sym.Int(name, 0, 5))
			switch p {
			case "s":
				v.n = 90 + d
			case "z":
				v.n = 5 + d + d
			case "M":
				v.n = uint64(math.MaxUint64)>>(64-k.bits) - d
			}
		}
		r = append(r, v)
	}
	return
}

func readIn(in input) { read(shapes[in.shape], in.cols, h.Pattern("s", in.body)) }

func writeOut(o output) {
	var rows [][]val
	for i, r := range o.rows {
		rows = append(rows, fill(shapes[o.shape], r, i))
	}
	write(shapes[o.shape], o.cols, rows)
}

func init() {
	if sym.Thorough() {
		inputs = append(inputs, deeper...)
	}
	sym.Check("unmarshal", len(inputs), "49 (thorough 58) headers and bodies for 6 struct types (all integer and float kinds), 1..6 arbitrary characters", func(c int) { readIn(inputs[c]) })
	sym.Check("marshal", len(outputs), "33 selections of columns and rows of 6 struct types with free text, small numbers and numbers at the ends of the range", func(c int) { writeOut(outputs[c]) })
	sym.Check("unmarshal-order", len(orders), "9 headers and bodies, every map iteration order", func(c int) {
		sym.AnyMapOrder(true)
		readIn(orders[c])
	})
	sym.Check("same error", len(orders), "9 headers and bodies read twice, every map iteration order", func(c int) {
		sym.AnyMapOrder(true)
		in := orders[c]
		text := join(in.cols) + "\n" + h.Pattern("s", in.body)
		_, e1 := shapes[in.shape].unmarshal(text)
		_, e2 := shapes[in.shape].unmarshal(text)
		sym.Assert((e1 == nil) == (e2 == nil), "the outcome is the same each time")
		if e1 != nil && e2 != nil {
			sym.Assert(e1.Error() == e2.Error(), "the error is the same each time")
		}
		sym.Cover("twice")
	})
	sym.Check("marshal-order", len(permuted), "7 selections of columns and rows, every map iteration order", func(c int) {
		sym.AnyMapOrder(true)
		writeOut(permuted[c])
	})
	sym.Check("types", 1, "arguments that are not (pointers to) slices of structs", func(int) {
		s := sym.String("s", 2)
		n, p := 1, []string{"a"}
		for _, x := range []interface{}{nil, one{}, &n, &one{}, p, []one{}, (*[]one)(nil), &p, map[string]one{}} {
			sym.Assert(csv.Unmarshal(x, s) != nil, "Unmarshal needs a pointer to a slice of structs")
		}
		for _, x := range []interface{}{nil, one{}, &n, p, &[]one{{}}, map[string]one{}} {
			_, err := csv.Marshal([]string{s}, x)
			sym.Assert(err != nil, "Marshal needs a slice of structs")
		}
	})
}
