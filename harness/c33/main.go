// C33: date and time conversions yield the written instant or an error.
package main

import (
	"strconv"
	"strings"
	"time"

	. "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

func two(s string, i int) int { return int(s[i]-'0')*10 + int(s[i+1]-'0') }

func year(s string) int { return two(s, 0)*100 + two(s, 2) }

// leap is 1 in leap years.
func leap(y int) int {
	return sym.IfInt(sym.And(y%4 == 0, sym.Or(y%100 != 0, y%400 == 0)), 1, 0)
}

var months = []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

// day is the number of days from 1970-01-01 to the date at the start of s, ok
// when there is such a date.
func day(s string) (n int, ok bool) {
	y, m, d := year(s), two(s, 5), two(s, 8)
	l := leap(y)
	before, length := 0, 0
	for i, k := range months {
		if i == 1 {
			k += l
		}
		before += sym.IfInt(m > i+1, k, 0)
		length = sym.IfInt(m == i+1, k, length)
	}
	n = 365*y + (y+3)/4 - (y+99)/100 + (y+399)/400 + before + d - 1 - 719528
	return n, sym.And(sym.And(1 <= m, m <= 12), sym.And(1 <= d, d <= length))
}

// clock is the time of day hh:mm:ss.fffffffff.
func clock(s string) (sec, nano int, ok bool) {
	hh, mm, ss := two(s, 0), two(s, 3), two(s, 6)
	for i := 9; i < 18; i++ {
		nano = nano*10 + int(s[i]-'0')
	}
	return hh*3600 + mm*60 + ss, nano, sym.And(hh < 24, sym.And(mm < 60, ss < 60))
}

// offset in seconds; certain when every conversion knows such an offset.
func offset(s string) (sec int, certain bool) {
	hh, mm := two(s, 1), two(s, 4)
	sec = hh*3600 + mm*60
	return sym.IfInt(s[0] == '-', -sec, sec), sym.And(hh < 24, mm < 60)
}

// digits is the pattern with a free digit for every '#' (numbers with a range
// keep the calendar arithmetic easy to decide).
func digits(p string) string { return named("d", p) }

func named(name, p string) string {
	r := []byte(p)
	for i := range r {
		if r[i] == '#' {
			r[i] = byte('0' + sym.Int(name+strconv.Itoa(i), 0, 9))
		}
	}
	return string(r)
}

// judge checks the converter on the text s: ok tells whether s names an
// instant, certain whether an error would be wrong then.
func judge(tr TransformerFn, s string, days, secs, nano int, ok, certain bool) {
	in := AstSlice{h.Node(3), {ClassName: "text", Type: AstType_String, Value: s}}
	out, err := tr(ParserContext{Tag: 1}, in[1:])
	if err != nil {
		sym.Assert(!sym.And(ok, certain), "a text that names an instant is converted")
		sym.Cover("error")
		return
	}
	sym.Assert(ok, "a text that names no instant is an error")
	sym.Assert(len(out) == 1, "one node results")
	t, isTime := out[0].Value.(time.Time)
	sym.Assert(isTime, "the result is a time")
	sym.Assert(t.Nanosecond() == nano, "the fraction is kept")
	sym.Assert(t.Unix() == int64(days*86400+secs), "the instant is the one written")
	sym.Assert(t.Location() == time.UTC, "the time is in UTC")
	sym.Cover("converted")
}

func date(s string) {
	d, ok := day(s)
	judge(extra.ParseDate, s, d, 0, 0, ok, true)
}

func timeOfDay(s string) {
	sec, nano, ok := clock(s)
	judge(extra.ParseTime, s, 0, sec, nano, ok, true)
}

func dateTime(s string) {
	d, ok := day(s)
	sec, nano, ok2 := clock(s[11:])
	off, certain := offset(s[29:])
	judge(extra.ParseDateTime, s, d, sec-off, nano, sym.And(ok, ok2), certain)
}

// expand replaces every '%' by each of the digits.
func expand(ps ...string) (r []string) {
	for _, p := range ps {
		if i := strings.IndexByte(p, '%'); i >= 0 {
			for c := '0'; c <= '9'; c++ {
				r = append(r, expand(p[:i]+string(c)+p[i+1:])...)
			}
		} else {
			r = append(r, p)
		}
	}
	return
}

var dates = expand("2021-##-##", "2000-##-##", "1900-##-##", "%%##-02-29", "%%##-12-31", "0000-##-##", "9999-##-##", "19##-0%-##", "202#-%2-##")

var times = []string{"##:##:##.000000000", "23:59:5#.#########", "00:0#:00.0000#####", "1#:4#:#0.#########"}

var stamps = expand(
	"2021-03-04T##:##:##.123456789+00:00", "2020-02-##T12:34:56.#########-01:30", "1970-01-01T00:00:00.000000000+##:##", "1970-01-01T00:00:00.000000001-##:##",
	"%%##-01-01T0#:00:00.5000000##+09:00", "2000-##-##T23:59:59.999999999+05:4#", "1999-12-31T2#:##:00.000000000-0#:##", "9999-12-31T23:59:59.999999999-#0:00",
	"0000-01-01T00:00:##.000000000+0#:00", "2100-0#-29T01:02:0#.0#0000000+00:00",
)

// Texts of other lengths: years of more digits or negative years.
var odd = []string{"-####-01-01", "1####-01-01", "-1####-12-3#", "1844674407370957####-01-01", strings.Repeat("0", 40) + "202#-01-01", "-" + strings.Repeat("9", 70) + "#-12-31"}

func other(p string) {
	s := digits(p)
	out, err := extra.ParseDate(ParserContext{}, AstSlice{{Value: s}})
	if err == nil {
		neg := s[0] == '-'
		i, y := sym.IfInt(neg, 1, 0), 0
		for ; s[i] != '-'; i++ {
			y = y*10 + int(s[i]-'0')
		}
		t := out[0].Value.(time.Time)
		sym.Assert(t.Year() == sym.IfInt(neg, -y, y), "no other year")
	}
	sym.Assert(err != nil || len(out) == 1, "an error or one node")
}

// Texts whose separators (and more) are arbitrary characters: '?' against the
// form the text must have.
var forms = []struct{ kind, given, form string }{
	{"date", "202#?0#?1#", "202#-0#-1#"},
	{"date", "2?21-0#-?1", "2#21-0#-#1"},
	{"date", "2021-0#-1#?", ""},
	{"date", "2021-0#-?", ""},
	{"date", "2021-0?-#", ""},
	{"time", "1#?3#?0#?00000001#", "1#:3#:0#.00000001#"},
	{"time", "?#:3#:0?.0000000??", "##:3#:0#.0000000##"},
	{"time", "1#:3#:0#.1?", ""},
	{"time", "1#:3#:0#.12345678#?", ""},
	{"datetime", "2021-03-0#?1#?30?00.#00000000?09:00", "2021-03-0#T1#:30:00.#00000000+09:00"},
	{"datetime", "2021-03-0#T1#:30:00.#00000000+0#?0?", "2021-03-0#T1#:30:00.#00000000+0#:0#"},
	{"datetime", "2021-03-01T1#:30:00.000000000+0#:0#?", ""},
	{"datetime", "2021-03-01T1#:30:00.00000000?", ""},
	{"date", "2021-01-01" + strings.Repeat("0", 60) + "?", ""},
	{"time", "1#:30:00.000000000" + strings.Repeat("0", 40) + "?", ""},
	{"datetime", "2021-03-01T1#:30:00.000000000" + strings.Repeat("0", 40) + "?+00:00", ""},
	{"datetime", strings.Repeat(" ", 40) + "2021-03-01T1#:30:00.000000000+00:0?", ""},
}

// wrong: a text of another form is an error.
func wrong(kind, given, form string) {
	r, ok := []byte(digits(given)), form != ""
	free := sym.String("c", len(r))
	for i := range r {
		if given[i] != '?' {
			continue
		}
		c := free[i]
		r[i] = c
		if form != "" {
			switch form[i] {
			case '#':
				ok = sym.And(ok, sym.And(c >= '0', c <= '9'))
			case '.': // ISO 8601 also writes a comma
				ok = sym.And(ok, sym.Or(c == '.', c == ','))
			case '+':
				ok = sym.And(ok, sym.Or(c == '+', c == '-'))
			default:
				ok = sym.And(ok, c == form[i])
			}
		}
	}
	tr := map[string]TransformerFn{"date": extra.ParseDate, "time": extra.ParseTime, "datetime": extra.ParseDateTime}[kind]
	out, err := tr(ParserContext{}, AstSlice{{Value: string(r)}})
	if err == nil {
		sym.Assert(ok, "only texts of the form are converted")
		sym.Cover("right form")
	} else {
		sym.Assert(out == nil || len(out) <= 1, "an error or one node")
		sym.Cover("another form")
	}
}

func init() {
	sym.Check("form", len(forms), "17 families of texts with up to 4 arbitrary characters at separators, digits and the end", func(c int) { wrong(forms[c].kind, forms[c].given, forms[c].form) })
	sym.Check("date", len(dates), "ParseDate on 9 families of dates with up to 4 free digits", func(c int) { date(digits(dates[c])) })
	sym.Check("time", len(times), "ParseTime on 4 families of times with up to 10 free digits", func(c int) { timeOfDay(digits(times[c])) })
	sym.Check("datetime", len(stamps), "ParseDateTime on 10 families of date-times with up to 9 free digits", func(c int) { dateTime(digits(stamps[c])) })
	sym.Check("odd", len(odd), "years that are negative or have 5, 20, 44 or 71 digits", func(c int) { other(odd[c]) })
}
