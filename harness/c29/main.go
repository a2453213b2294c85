// C29: CSV output parses back to the same table.
package main

import (
	"strconv"
	"unicode/utf8"

	"github.com/shellyln/takenoco/_examples/csv"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

func roundTrip(table [][]string) {
	for _, row := range table {
		if len(row) == 1 {
			sym.Assume(row[0] != "")
		}
		for _, cell := range row {
			sym.Assume(utf8.ValidString(cell))
		}
	}
	got, err := csv.Parse(csv.ToCsv(table))
	sym.Assert(err == nil, "the output is a table")
	sym.Assert(len(got) == len(table), "all rows return")
	for i := range table {
		sym.Assert(len(got[i]) == len(table[i]), "each row has its cells")
		for j := range table[i] {
			sym.Assert(got[i][j] == table[i][j], "each cell has its text")
		}
	}
	sym.Cover("back")
}

// shape describes a table: rows are separated by '/', cells by ','; a cell is
// h.Pattern text.
func build(shape string) [][]string {
	var table [][]string
	var row []string
	start, n := 0, 0
	for i := 0; i <= len(shape); i++ {
		if i < len(shape) && shape[i] != ',' && shape[i] != '/' {
			continue
		}
		row = append(row, h.Pattern("cell"+strconv.Itoa(n), shape[start:i]))
		n++
		start = i + 1
		if i == len(shape) || shape[i] == '/' {
			table = append(table, row)
			row = nil
		}
	}
	return table
}

// classed narrows the first byte of each '?' cell to one class.
func classed(shape string, c int) [][]string {
	table := build(shape)
	for _, row := range table {
		for _, cell := range row {
			if len(cell) > 0 {
				b := cell[0]
				switch c % 4 {
				case 0:
					sym.Assume(sym.Or(b == ',', b == '"'))
				case 1:
					sym.Assume(sym.Or(b == ' ', sym.And(b >= 9, b <= 13)))
				case 2:
					sym.Assume(b >= 0x80)
				case 3:
					sym.Assume(b < 0x80 && b != ',' && b != '"' && b != ' ')
					sym.Assume(!sym.And(b >= 9, b <= 13))
				}
				c /= 4
			}
		}
	}
	return table
}

func total(n int) int {
	if n == 0 {
		return 1
	}
	return 4 * total(n-1)
}

type job struct {
	shape string
	class int
}

func jobs(quick, thorough []string) (r []job) {
	if sym.Thorough() {
		quick = append(quick, thorough...)
	}
	for _, s := range quick {
		n := 0
		for i := range s {
			if s[i] == '?' && (i == 0 || s[i-1] == ',' || s[i-1] == '/') {
				n++
			}
		}
		for c := range total(n) {
			r = append(r, job{s, c})
		}
	}
	return
}

var small = []string{"?", "??", "???", "?,?", "?,?,?", "?/?", "?/?/?", ",?", "?,", "??,?", "?,??", "??/?", "?/??", "?,?/?,?", ",,?/,?,/?,,", "?,/?", "????", "??,??", "???,?", "?,???", "??/??", "?,?/?", "?/?,?", "??,?/?"}

var more = []string{"?????", "???,??", "??,???", "?,?,?,?", "?,?/?/?", "???/??", "??,??/?", "????,?", "?/????", "??????"}

// '@' is an ASCII byte
var patterns = []string{
	"a@b", "@ @", "\xc2\xa0@", "@\xc2\x85", "\xe3\x80\x80@a", "a@\"@", "x/@@@@", "1,@@/2,@@", "@@,\"@\",@", "\xf0\x9f\x98\x80@@", "a@b@c", "@a\xc2?", "é@ /\xe2\x80?@", "/,@/,@", "@@\r\n@", "a,@/\"@/b", ",/,/@",
}

func init() {
	js := jobs(small, more)
	sym.Check("tables", len(js), "tables of 24 (thorough 34) shapes of up to 4 rows and columns with 1..4 (thorough 6) arbitrary bytes (valid UTF-8)", func(c int) { roundTrip(classed(js[c].shape, js[c].class)) })
	sym.Check("patterns", len(patterns), "17 tables with longer cells, 1..4 arbitrary bytes", func(c int) {
		table := build(patterns[c])
		if len(table[0]) == 1 && len(table[0][0]) == 0 {
			table = table[1:]
		}
		roundTrip(table)
	})
}
