// Self-test of the symbolic executor: general Go programs whose observations
// on sampled paths are compared with native runs.
package main

import (
	"bufio"
	"bytes"
	"container/list"
	"encoding/csv"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"verif/harness/sym"
)

func main() { sym.Main() }

type shape interface{ area() int }
type sq struct{ a int }
type rc struct{ w, h int }

func (s sq) area() int  { return s.a * s.a }
func (r *rc) area() int { return r.w * r.h }

type node struct {
	l, r *node
	v    int
}

func (n *node) insert(v int) *node {
	if n == nil {
		return &node{v: v}
	}
	if v < n.v {
		n.l = n.l.insert(v)
	} else {
		n.r = n.r.insert(v)
	}
	return n
}
func (n *node) walk(f func(int)) {
	if n != nil {
		n.l.walk(f)
		f(n.v)
		n.r.walk(f)
	}
}

func div(a, b int) (r int, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = errors.New("div")
			r = -1
		}
	}()
	return a / b, nil
}

func deep(n int) (s string) {
	defer func() { s += strconv.Itoa(n) }()
	if n == 0 {
		return "x"
	}
	return deep(n-1) + "."
}

type gen[T any] struct{ xs []T }

func (g *gen[T]) push(x T) { g.xs = append(g.xs, x) }
func mapf[A, B any](xs []A, f func(A) B) (r []B) {
	for _, x := range xs {
		r = append(r, f(x))
	}
	return
}

func classify(b byte) int {
	switch {
	case b >= '0' && b <= '9':
		return 1
	case b >= 'a' && b <= 'z', b >= 'A' && b <= 'Z':
		return 2
	case b == ' ':
		return 3
	}
	return 4
}

func init() {
	sym.Check("arith", 1, "", func(int) {
		a, b := sym.Int64("a"), sym.Int64("b")
		x := int(sym.Byte("x"))
		sym.Obs("sum", a+b)
		sym.Obs("xor", a^b)
		sym.Obs("shl", int64(uint64(a)<<uint(x)))
		sym.Obs("shr", a>>uint(x))
		sym.Obs("i8", int64(int8(a)))
		sym.Obs("u16", int64(uint16(b)))
		q, err := div(int(a), x)
		if err != nil {
			sym.ObsS("err", err.Error())
		}
		sym.Obs("q", int64(q))
		if x != 0 {
			sym.Obs("rem", int64(int(int32(b))%x))
		}
		sym.Assert((a&b)+(a|b) == a+b, "identity")
	})
	sym.Check("slices", 1, "", func(int) {
		n := sym.Choose("n", 4)
		k := sym.Choose("k", 4)
		a := make([]int, n, 5)
		for i := range a {
			a[i] = int(sym.Byte("a" + strconv.Itoa(i)))
		}
		b := append(a, 100)
		c := append(a, 200)
		sym.Obs("alias", int64(b[n]))
		sym.Obs("c", int64(c[n]))
		if k <= n {
			d := append([]int{}, a[:k]...)
			d = append(d, a[k:]...)
			sym.Obs("len", int64(len(d)))
			copy(d, d[min(1, len(d)):])
			for _, x := range d {
				sym.Obs("d", int64(x))
			}
			sym.Obs("cap", int64(cap(d)))
		}
		idx := sym.Int("i", 0, 5)
		func() {
			defer func() {
				if e := recover(); e != nil {
					sym.Obs("oob", 1)
				}
			}()
			sym.Obs("a[i]", int64(a[idx]))
		}()
		sort.Ints(a)
		for _, x := range a {
			sym.Obs("sorted", int64(x))
		}
		var arr [4]byte
		arr[sym.Choose("j", 4)] = 7
		e := arr
		e[0]++
		sym.Obs("arr", int64(arr[0])<<8|int64(e[0]))
	})
	sym.Check("strings", 1, "", func(int) {
		n := sym.Choose("n", 5)
		s := sym.String("s", n)
		for i, r := range s {
			sym.Obs("i", int64(i))
			sym.Obs("r", int64(r))
		}
		sym.Obs("cnt", int64(utf8.RuneCountInString(s)))
		r, w := utf8.DecodeLastRuneInString(s)
		sym.Obs("last", int64(r)*10+int64(w))
		sym.ObsB("valid", utf8.ValidString(s))
	})
	sym.Check("strings2", 1, "", func(int) {
		n := sym.Choose("n", 4)
		s := sym.String("s", n)
		sym.ObsS("up", strings.Replace(s, "a", "xy", 1))
		sym.Obs("idx", int64(strings.Index(s, "bc")))
		sym.ObsB("has", strings.Contains(s, "a"))
		sym.ObsS("trim", strings.TrimSpace(s))
		sym.Obs("n", int64(len(strings.Split(s, ","))))
		sym.ObsB("pre", strings.HasPrefix(s, "a"))
		sym.ObsB("fold", strings.EqualFold(s, "kS"))
	})
	sym.Check("runes", 1, "", func(int) {
		r := sym.Rune32("r")
		s := string(r)
		sym.ObsS("s", s)
		sym.Obs("len", int64(len(s)))
		var sb strings.Builder
		sb.WriteRune(r)
		sym.Assert(sb.String() == s, "WriteRune")
		sym.ObsB("letter", unicode.IsLetter(r))
		sym.ObsB("digit", unicode.IsDigit(r))
		sym.ObsB("space", unicode.IsSpace(r))
		sym.ObsB("upper", unicode.Is(unicode.Upper, r))
	})
	sym.Check("maps", 1, "", func(int) {
		m := map[string]int{"a": 1, "b": 2}
		k := sym.String("k", 1)
		m[k]++
		v, ok := m["a"]
		sym.Obs("a", int64(v))
		sym.ObsB("ok", ok)
		delete(m, "b")
		sym.Obs("len", int64(len(m)))
		s := 0
		for k, v := range m {
			s += v * int(k[0])
		}
		sym.Obs("sum", int64(s))
		mi := map[interface{}]string{1: "int", "1": "str", int64(1): "i64"}
		sym.ObsS("mi", mi[int64(1)]+mi["1"]+mi[1]+mi[2])
	})
	sym.Check("ifaces", 1, "", func(int) {
		var s shape = sq{sym.Int("a", 0, 9)}
		if sym.Bool("b") {
			s = &rc{sym.Int("w", 1, 5), 3}
		}
		sym.Obs("area", int64(s.area()))
		switch x := s.(type) {
		case sq:
			sym.Obs("sq", int64(x.a))
		case *rc:
			x.h = 10
			sym.Obs("rc", int64(s.area()))
		}
		_, isErr := s.(error)
		sym.ObsB("err", isErr)
		f := s.area
		sym.Obs("mv", int64(f()))
		g := (*rc).area
		sym.Obs("me", int64(g(&rc{2, 3})))
	})
	sym.Check("tree", 1, "", func(int) {
		var t *node
		for i := 0; i < 4; i++ {
			t = t.insert(int(sym.Byte("v" + strconv.Itoa(i))))
		}
		prev := -1
		t.walk(func(v int) {
			sym.Assert(prev <= v, "sorted")
			prev = v
			sym.Obs("v", int64(v))
		})
	})
	sym.Check("defer", 1, "", func(int) {
		sym.ObsS("deep", deep(sym.Choose("n", 4)))
		out := ""
		func() {
			defer func() { recover() }()
			defer func() { out += "b" }()
			for i := 0; i < 2; i++ {
				defer func(i int) { out += strconv.Itoa(i) }(i)
			}
			if sym.Bool("p") {
				panic("x")
			}
			out += "n"
		}()
		sym.ObsS("out", out)
		func() {
			defer func() {
				e := recover()
				sym.ObsB("rt", e != nil)
				if err, ok := e.(error); ok {
					sym.ObsB("nonempty", err.Error() != "")
				}
			}()
			var mm map[string]int
			if sym.Bool("q") {
				mm["x"] = 1
			}
			var p *node
			_ = p.v
		}()
	})
	sym.Check("merge", 1, "", func(int) {
		c := 0
		for i := 0; i < 5; i++ {
			c += classify(sym.Byte("b" + strconv.Itoa(i)))
		}
		sym.Obs("c", int64(c))
		sym.Assert(c >= 5, "lower")
		sym.Assert(c <= 20, "upper")
	})
	sym.Check("generic", 1, "", func(int) {
		g := &gen[string]{}
		g.push("a")
		g.push(sym.String("s", 1))
		ls := mapf(g.xs, func(s string) int { return len(s) + int(s[0]) })
		sym.Obs("1", int64(ls[1]))
		sym.ObsB("eq", g.xs[0] == g.xs[1])
	})
	sym.Check("conv", 1, "", func(int) {
		s := sym.String("s", sym.Choose("n", 3))
		v, err := strconv.ParseInt(s, 10, 64)
		sym.Obs("v", v)
		sym.ObsB("err", err != nil)
		u, err := strconv.ParseUint(s, 16, 8)
		sym.Obs("u", int64(u))
		sym.ObsB("uerr", err != nil)
		sym.ObsS("itoa", strconv.Itoa(sym.Int("k", 95, 103)))
		sym.ObsS("fi", strconv.FormatInt(int64(sym.Choose("z", 3)-1)*1000003, 10))
		t, err := time.Parse("2006-01-02", "2020-02-29")
		sym.Obs("t", t.Unix())
		sym.ObsB("terr", err != nil)
		tm, err := time.Parse("2006-01-02T15:04:05.000000000-07:00", "2020-02-29T01:02:03.000000004+09:30")
		sym.Obs("t", tm.UnixNano())
		sym.ObsB("terr", err != nil)
	})
	type st struct {
		A string `csv:"x"`
		B int8
		c int
	}
	sym.Check("reflect", 1, "", func(int) {
		x := st{"q", 5, 1}
		v := reflect.ValueOf(&x).Elem()
		v.Field(0).SetString(sym.String("s", 2))
		v.FieldByName("B").SetInt(sym.Int64("n"))
		sym.Obs("B", int64(x.B))
		sym.ObsS("A", x.A)
		sym.ObsS("tag", v.Type().Field(0).Tag.Get("csv")+v.Type().Field(1).Name)
		sym.Obs("kind", int64(v.Field(1).Kind()))
		a := []interface{}{1, "a", []byte{1, sym.Byte("y")}}
		b := []interface{}{1, "a", []byte{1, 2}}
		sym.ObsB("deq", reflect.DeepEqual(a, b))
		m := map[string]int{"k": 3}
		mv := reflect.ValueOf(m)
		mv.SetMapIndex(reflect.ValueOf(sym.String("mk", 1)), reflect.ValueOf(9))
		sym.Obs("m", int64(m["k"]))
		sl := reflect.MakeSlice(reflect.TypeOf([]int{}), 2, 2)
		sl.Index(1).SetInt(4)
		sym.Obs("sl", int64(sl.Interface().([]int)[1]))
		func() {
			defer func() { sym.ObsB("pan", recover() != nil) }()
			v.Field(2).SetInt(3)
		}()
	})
	sym.Check("once", 1, "", func(int) {
		var once sync.Once
		n := 0
		for i := 0; i < 3; i++ {
			once.Do(func() { n++ })
		}
		sym.Obs("n", int64(n))
	})
	sym.Check("float", 1, "", func(int) {
		f := 1.5
		for i := 0; i < sym.Choose("n", 3); i++ {
			f *= 2.25
		}
		sym.ObsF("f", f)
		sym.ObsS("s", strconv.FormatFloat(f, 'g', -1, 64))
		g, err := strconv.ParseFloat("12.5e3", 64)
		sym.ObsF("g", g)
		sym.ObsB("e", err != nil)
		sym.ObsB("lt", f < g)
	})
}

// A value allocated after the last fork of a call and written by a callee
// keeps that value in every outcome of the call.
type cell struct{ x int }

func (c *cell) set(v int) { c.x = v }

func forked(x int) (*cell, bool) {
	if x > 50 {
		return nil, false
	}
	c := &cell{}
	c.set(x + 1)
	return c, true
}

func init() {
	sym.Check("fresh", 1, "", func(int) {
		x := sym.Int("x", 0, 100)
		c, ok := forked(x)
		if ok {
			sym.Assert(c.x == x+1, "written")
		}
	})
	sym.Check("assumed", 1, "", func(int) {
		x := assumed(sym.Choose("k", 2))
		sym.Assert(x < 50, "an assumption made in a callee holds in the caller")
	})
}

func assumed(k int) int {
	if sym.Bool("b") {
		return bounded("x", k)
	}
	return bounded("y", k)
}

func bounded(n string, k int) int {
	x := sym.Int(n, 0, 100)
	sym.Assume(x < 50-k)
	return x
}

type named int

func (n named) String() string { return "n" + strconv.Itoa(int(n)) }

func init() {
	sym.Check("fmt", 1, "", func(int) {
		k := sym.Choose("n", 3)
		sym.ObsS("a", fmt.Sprintf("%d/%s/%v/%q", k, "x", named(k), "q"))
		sym.ObsS("b", fmt.Sprint(k, nil, true, 1.5, []int{1, k}))
		err := fmt.Errorf("wrapped: %w", errors.New("inner"))
		sym.ObsS("c", err.Error())
		sym.ObsB("d", errors.Unwrap(err) != nil)
		sym.ObsS("e", fmt.Sprintf("%T %x %c %5.2f", err, 255, 'r', 1.25))
		s := sym.String("s", 2)
		sym.ObsS("f", fmt.Sprintf("<%s|%v>", s, s))
		n := sym.Int("i", -9, 9)
		sym.ObsS("g", fmt.Sprintf("%d", n))
		sym.ObsS("h", fmt.Sprintln("end", n > 0))
		var fe *myErr
		e2 := fmt.Errorf("a: %w", &myErr{k})
		sym.ObsB("as", errors.As(e2, &fe) && fe.k == k)
		sym.ObsB("is", errors.Is(e2, fe))
		sym.ObsB("isnot", errors.Is(e2, err))
	})
}

type myErr struct{ k int }

func (e *myErr) Error() string { return "my" }

func init() {
	sym.Check("libs", 1, "", func(int) {
		s := sym.String("s", 3)
		for i := 0; i < 3; i++ {
			sym.Assume(s[i] == 'a' || s[i] == '1' || s[i] == ',')
		}
		sym.ObsB("re", regexp.MustCompile(`^[a-z]+,?\d*$`).MatchString(s))
		r := csv.NewReader(strings.NewReader(s + "\n\"x\"\"y\",z"))
		r.FieldsPerRecord = -1
		rows, err := r.ReadAll()
		sym.ObsB("err", err != nil)
		for _, row := range rows {
			sym.ObsS("row", strings.Join(row, "|"))
		}
		sc := bufio.NewScanner(strings.NewReader(s + "\nab"))
		for sc.Scan() {
			sym.ObsS("line", sc.Text())
		}
		l := list.New()
		l.PushBack(1)
		l.PushFront(2)
		sym.Obs("front", int64(l.Front().Value.(int)))
		sym.ObsS("r", strings.NewReplacer("a", "b", "1", "two").Replace(s))
		sym.ObsS("m", strings.Map(func(r rune) rune { return r + 1 }, s))
		sym.ObsS("f", strings.Join(strings.Fields("a b  "+s), "-"))
		sym.ObsS("t", strings.Title(s)+strings.ToUpper(s))
		sym.Obs("n", int64(bytes.Count([]byte(s), []byte("a"))))
	})
}

type pair struct {
	a int
	b string
	C []int
}

func (p pair) M() int { return p.a }

func init() {
	sym.Check("sortslice", 1, "", func(int) {
		ps := []pair{{3, "x", nil}, {1, "y", nil}, {sym.Int("a", 0, 4), "z", nil}, {1, "w", nil}}
		sort.Slice(ps, func(i, j int) bool { return ps[i].a < ps[j].a })
		for _, p := range ps {
			sym.ObsS("p", p.b)
		}
		sym.ObsB("s", sort.SliceIsSorted(ps, func(i, j int) bool { return ps[i].a < ps[j].a }))
		sort.SliceStable(ps, func(i, j int) bool { return ps[i].b < ps[j].b })
		for _, p := range ps {
			sym.ObsS("p", p.b)
		}
	})
	sym.Check("reflect2", 13, "", func(c int) {
		x := sym.Int("x", 0, 9)
		switch c {
		case 0:
			sym.ObsB("de", reflect.DeepEqual([]int{1, x}, []int{1, 5}))
			sym.ObsB("de2", reflect.DeepEqual(map[string]int{"a": x}, map[string]int{"a": 3}))
			sym.ObsB("de3", reflect.DeepEqual(pair{x, "a", nil}, pair{2, "a", nil}))
			sym.ObsB("de4", reflect.DeepEqual(nil, x))
		case 1:
			s := reflect.Append(reflect.MakeSlice(reflect.TypeOf([]int{}), 0, 2), reflect.ValueOf(x), reflect.ValueOf(2))
			sym.Obs("s", int64(s.Interface().([]int)[0]))
			sym.Obs("l", int64(s.Len()))
		case 2:
			m := reflect.MakeMap(reflect.TypeOf(map[string]int{}))
			m.SetMapIndex(reflect.ValueOf("k"), reflect.ValueOf(x))
			sym.Obs("m", int64(m.Interface().(map[string]int)["k"]))
			sym.Obs("keys", int64(len(m.MapKeys())))
		case 3:
			it := reflect.ValueOf(map[string]int{"a": x}).MapRange()
			for it.Next() {
				sym.ObsS("k", it.Key().String())
				sym.Obs("v", it.Value().Int())
			}
		case 4:
			s := []int{1, x, 3}
			reflect.Swapper(s)(0, 1)
			sym.Obs("s", int64(s[0]))
		case 5:
			sym.Obs("conv", reflect.ValueOf(x).Convert(reflect.TypeOf(int64(0))).Int())
			sym.ObsF("convf", reflect.ValueOf(7).Convert(reflect.TypeOf(float64(0))).Float())
		case 6:
			v := reflect.New(reflect.TypeOf(0))
			reflect.Indirect(v).SetInt(int64(x))
			sym.Obs("n", int64(*(v.Interface().(*int))))
		case 7:
			z := reflect.Zero(reflect.TypeOf(pair{}))
			sym.ObsB("z", z.IsZero())
			sym.Obs("nf", int64(z.NumField()))
		case 8:
			d := make([]int, 3)
			sym.Obs("c", int64(reflect.Copy(reflect.ValueOf(d), reflect.ValueOf([]int{x, 1}))))
			sym.Obs("d", int64(d[0]))
		case 9:
			t := reflect.TypeOf((*error)(nil)).Elem()
			sym.ObsB("i", reflect.TypeOf(&myErr{}).Implements(t))
			sym.ObsB("j", reflect.TypeOf(pair{}).Implements(t))
		case 10:
			sym.ObsS("ks", reflect.TypeOf(1.5).Kind().String())
		case 11:
			v := reflect.ValueOf(pair{x, "b", []int{x}})
			sym.ObsB("valid", v.FieldByName("q").IsValid())
			sym.Obs("f", v.FieldByName("a").Int())
			sym.Obs("g", int64(v.Field(2).Slice(0, 1).Len()))
			sym.ObsB("can", v.Field(0).CanInterface())
		case 12:
			v := reflect.AppendSlice(reflect.ValueOf([]int{x}), reflect.ValueOf([]int{1, 2}))
			sym.Obs("as", v.Index(2).Int())
			sym.ObsS("kind", v.Kind().String()+v.Type().String())
		}
	})
}

func init() {
	sym.Check("symstr", 24, "", func(c int) {
		s := sym.String("s", 2)
		if c%2 == 0 {
			sym.Assume(s[0] < 0x80 && s[1] < 0x80)
		}
		switch c / 2 {
		case 0:
			sym.ObsS("l", strings.ToLower(s))
			sym.ObsS("u", strings.ToUpper(s))
		case 1:
			for _, r := range s {
				sym.ObsB("l", unicode.IsLetter(r))
				sym.ObsB("d", unicode.IsDigit(r))
				sym.ObsB("s", unicode.IsSpace(r))
				sym.ObsB("i", unicode.In(r, unicode.L, unicode.Nd))
				sym.ObsB("u", unicode.IsUpper(r))
				sym.ObsB("p", unicode.IsPunct(r))
				sym.ObsB("c", unicode.IsControl(r))
			}
		case 2:
			sym.Obs("i", int64(strings.IndexFunc(s, unicode.IsDigit)))
			sym.ObsS("t", strings.TrimFunc(s, func(r rune) bool { return r == 'a' }))
			sym.ObsS("ts", strings.TrimSpace(s))
		case 3:
			sym.ObsB("v", utf8.ValidString(s))
			sym.Obs("n", int64(utf8.RuneCountInString(s)))
			sym.Obs("r", int64(len([]rune(s))))
		case 4:
			sym.ObsS("q", strconv.Quote(s))
		case 5:
			n, err := strconv.Atoi(s)
			sym.ObsB("e", err != nil)
			sym.Obs("n", int64(n))
			b, err := strconv.ParseBool(s)
			sym.ObsB("b", b)
			sym.ObsB("be", err != nil)
		case 6:
			sym.Obs("c", int64(strings.Count(s, "a")))
			sym.Obs("i", int64(strings.Index(s, "b")))
			sym.Obs("l", int64(strings.LastIndexByte(s, 'c')))
			sym.ObsB("p", strings.HasPrefix(s, "a"))
			a, b, ok := strings.Cut(s, ",")
			sym.ObsS("a", a+"|"+b)
			sym.ObsB("ok", ok)
		case 7:
			sym.ObsS("r", strings.ReplaceAll(s, "a", "bc"))
			sym.ObsS("r2", strings.Join(strings.Split(s, ","), "+"))
			sym.ObsS("rep", strings.Repeat(s, 2))
		case 8:
			var b bytes.Buffer
			b.WriteString(s)
			b.WriteByte('x')
			b.WriteRune('é')
			sym.ObsS("b", b.String())
			sym.ObsB("eq", bytes.Equal([]byte(s), []byte("ab")))
		case 9:
			sym.Obs("cmp", int64(strings.Compare(s, "mm")))
			sym.ObsB("lt", s < "mm")
			sym.ObsB("any", strings.ContainsAny(s, "xyz"))
			sym.ObsB("ef", strings.EqualFold(s, "ab"))
		case 10:
			for _, r := range s {
				sym.Obs("lo", int64(unicode.ToLower(r)))
				sym.Obs("up", int64(unicode.ToUpper(r)))
				sym.Obs("fo", int64(unicode.SimpleFold(r)))
				sym.ObsS("s", string(r))
			}
		case 11:
			m := map[string]int{"ab": 1, "cd": 2}
			sym.Obs("m", int64(m[s]))
			switch s {
			case "xy":
				sym.Obs("x", 1)
			case "zz":
				sym.Obs("z", 1)
			}
		}
	})

	sym.Check("symfloat", 5, "", func(c int) {
		switch c {
		case 0:
			a, b := sym.Float64("a"), sym.Float64("b")
			if c := []float64{0, 1.5, -2}[sym.Choose("c", 3)]; a != a || b != b {
				sym.ObsB("nanlt", a < b || a > b || a <= b || a >= b)
			} else {
				sym.ObsB("lt", a < b)
				sym.ObsB("le", a <= b)
				sym.ObsB("gt", a > c)
				sym.ObsB("ge", c >= a)
				sym.Assert(a < b || a == b || a > b, "ordered")
				sym.Assert((a <= b) == !(a > b), "le is not gt")
			}
		case 1:
			n := sym.Int64("n")
			sym.ObsB("exact", int64(float64(n)) == n)
		case 2:
			n := sym.Int("n", -5, 5)
			sym.ObsF("half", float64(n)/2)
		case 3:
			u := sym.Uint64("u")
			sym.ObsF("f", float64(u))
		case 4:
			a := sym.Float64("a")
			sym.Assume(a > 1 && a < 3)
			sym.ObsB("in", 0.5 < a && a <= 3)
			sym.ObsF("sum", a+1)
			sym.Obs("i", int64(a))
		}
	})
}
