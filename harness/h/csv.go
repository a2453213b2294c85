package h

import "verif/harness/sym"

// LineBreakAt is the length of the line break (LF, VT, FF, CR, NEL) at s[i:].
func LineBreakAt(s string, i int) int {
	if i < len(s) && sym.And(s[i] >= 10, s[i] <= 13) {
		return 1
	}
	if i+1 < len(s) && sym.And(s[i] == 0xc2, s[i+1] == 0x85) {
		return 2
	}
	return 0
}

// blankAt is the length of the blank (HT, SP, NBSP) at s[i:].
func blankAt(s string, i int) int {
	if i < len(s) && sym.Or(s[i] == '\t', s[i] == ' ') {
		return 1
	}
	if i+1 < len(s) && sym.And(s[i] == 0xc2, s[i+1] == 0xa0) {
		return 2
	}
	return 0
}

func spaceAt(s string, i int) int {
	if n := blankAt(s, i); n > 0 {
		return n
	}
	return LineBreakAt(s, i)
}

func trim(s string) string {
	for n := spaceAt(s, 0); n > 0; n = spaceAt(s, 0) {
		s = s[n:]
	}
	for {
		n := len(s)
		if n > 0 && spaceAt(s, n-1) == 1 {
			s = s[:n-1]
		} else if n > 1 && spaceAt(s, n-2) == 2 {
			s = s[:n-2]
		} else {
			return s
		}
	}
}

// char is the text of the character at s[i:] and its length.
func char(s string, i int) (string, int) {
	if s[i] < 0x80 {
		return s[i : i+1], 1
	}
	r, n := DecodeRune(s, i)
	if r == 0xfffd {
		return "\ufffd", n
	}
	return s[i : i+n], n
}

// Csv is the table a text denotes.
func Csv(s string) (rows [][]string, ok bool) {
	rows, at := csvTable(s)
	return rows, at == Fine
}

// What a parse comes to, other than an error at a place of the text.
const (
	Fine    = -1
	NoMatch = -2
)

// CsvPlace is the place of the error in s, if any.
func CsvPlace(s string) int {
	_, at := csvTable(s)
	return at
}

func csvTable(s string) (rows [][]string, at int) {
	i := 0
	for {
		var row []string
		for {
			var cell string
			var ok bool
			cell, i, ok = csvCell(s, i)
			if !ok {
				return nil, i
			}
			row = append(row, cell)
			if i == len(s) || s[i] != ',' {
				break
			}
			i++
		}
		rows = append(rows, row)
		n := LineBreakAt(s, i)
		if n == 0 {
			break
		}
		for ; n > 0; n = LineBreakAt(s, i) {
			i += n
		}
	}
	if i < len(s) {
		return nil, NoMatch
	}
	for len(rows) > 0 && len(rows[len(rows)-1]) == 1 && rows[len(rows)-1][0] == "" {
		rows = rows[:len(rows)-1]
	}
	return rows, Fine
}

func csvCell(s string, i int) (cell string, end int, ok bool) {
	for quoted := false; ; quoted = true {
		j := i
		for n := blankAt(s, j); n > 0; n = blankAt(s, j) {
			j += n
		}
		if j == len(s) || s[j] != '"' {
			if quoted {
				return cell, j, true
			}
			break
		}
		i = j + 1
		for {
			if i == len(s) {
				return "", i, false
			}
			if s[i] == '"' {
				i++
				if i == len(s) || s[i] != '"' {
					break
				}
			}
			t, n := char(s, i)
			cell += t
			i += n
		}
	}
	for i < len(s) && s[i] != ',' && LineBreakAt(s, i) == 0 {
		t, n := char(s, i)
		cell += t
		i += n
	}
	return trim(cell), i, true
}

// EqTable compares tables cell by cell.
func EqTable(a, b [][]string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			r = sym.And(r, a[i][j] == b[i][j])
		}
	}
	return r
}
