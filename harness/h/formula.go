package h

import (
	"math"
	"strings"

	"verif/harness/sym"
)

// Formula is what an expression denotes.
type Formula struct {
	Val     int64
	Undef   []string // divisions by zero; no bool, so that the executor does not merge the cases
	Rpn     []interface{}
	Literal bool // one operand, possibly negated or in parentheses
}

// ParseFormula reads s as
//
//	expr   = term { ("+"|"-") term }
//	term   = factor { ("*"|"/") factor }
//	factor = "-" factor | "(" expr ")" | ["+"] number
//
// with whitespace allowed before and after every token ("+" and its number
// are one token, and so are "-" and a number directly behind an operator,
// which shows only in -9223372036854775808).
func ParseFormula(s string) (Formula, bool) {
	e, i, ok := fExpr(s, ws(s, 0))
	return e, ok && i == len(s)
}

func ws(s string, i int) int {
	for n := spaceAt(s, i); n > 0; n = spaceAt(s, i) {
		i += n
	}
	return i
}

func fExpr(s string, i int) (Formula, int, bool) {
	a, i, ok := fTerm(s, i, false)
	for ok && i < len(s) && sym.Or(s[i] == '+', s[i] == '-') {
		op := s[i]
		var b Formula
		b, i, ok = fTerm(s, ws(s, i+1), true)
		if op == '+' {
			a = a.with("+", b, a.Val+b.Val)
		} else {
			a = a.with("-", b, a.Val-b.Val)
		}
	}
	return a, i, ok
}

func fTerm(s string, i int, after bool) (Formula, int, bool) {
	a, i, ok := fFactor(s, i, after, false)
	for ok && i < len(s) && sym.Or(s[i] == '*', s[i] == '/') {
		op := s[i]
		var b Formula
		b, i, ok = fFactor(s, ws(s, i+1), true, false)
		if op == '*' {
			a = a.with("*", b, a.Val*b.Val)
		} else if b.Val == 0 {
			a = a.with("/", b, 0)
			a.Undef = append(a.Undef, "/")
		} else {
			a = a.with("/", b, a.Val/b.Val)
		}
	}
	return a, i, ok
}

func (a Formula) with(op string, b Formula, v int64) Formula {
	return Formula{v, append(append([]string(nil), a.Undef...), b.Undef...), append(append(append([]interface{}{}, a.Rpn...), b.Rpn...), op), false}
}

// fFactor reads a factor: after an operator or not, signed when a '-' directly
// before it may belong to it.
func fFactor(s string, i int, after, signed bool) (Formula, int, bool) {
	if i == len(s) {
		return Formula{}, i, false
	}
	switch s[i] {
	case '-':
		j := ws(s, i+1)
		a, i, ok := fFactor(s, j, false, after && j == i+1)
		a.Val = -a.Val
		if a.Literal {
			a.Rpn = []interface{}{a.Val}
		} else {
			a.Rpn = append(a.Rpn, "-")
		}
		return a, i, ok
	case '(':
		a, i, ok := fExpr(s, ws(s, i+1))
		if !ok || i == len(s) || s[i] != ')' {
			return a, i, false
		}
		return a, ws(s, i+1), true
	case '+':
		signed = false
		i++
	}
	v, i, ok := fNumber(s, i, signed)
	return Formula{v, nil, []interface{}{v}, true}, ws(s, i), ok
}

func wordByte(c byte) bool {
	letter := sym.Or(sym.And(c >= 'a', c <= 'z'), sym.And(c >= 'A', c <= 'Z'))
	return sym.Or(Digit(c), sym.Or(letter, sym.Or(c == '_', c == '$')))
}

func fNumber(s string, i int, negative bool) (v int64, end int, ok bool) {
	if i == len(s) || !Digit(s[i]) {
		return 0, i, false
	}
	zero, digits := s[i] == '0', 0
	last := int64(math.MaxInt64 % 10)
	if negative {
		last++
	}
	for ; i < len(s); i++ {
		if s[i] == '_' {
			continue
		}
		if !Digit(s[i]) || zero && ok {
			break
		}
		d := int64(s[i] - '0')
		if digits++; digits > 18 && (digits > 19 || v > math.MaxInt64/10 || v == math.MaxInt64/10 && d > last) {
			return 0, i, false
		}
		v, ok = v*10+d, true
	}
	return v, i, i == len(s) || !wordByte(s[i])
}

// FormulaPlace is the place of the first error in s, if any: a missing operand,
// an unclosed parenthesis (just inside of it), the end of a number that is out
// of range or, with div, of an expression that divides by zero.
func FormulaPlace(s string, div bool) int {
	i, at := placeExpr(s, ws(s, 0), div)
	if at == Fine && i < len(s) {
		at = NoMatch
	}
	return at
}

func placeExpr(s string, i int, div bool) (end, at int) {
	start := i
	i, at = placeOperand(s, i, false, div)
	for at == Fine && i < len(s) && sym.Or(sym.Or(s[i] == '+', s[i] == '-'), sym.Or(s[i] == '*', s[i] == '/')) {
		i, at = placeOperand(s, ws(s, i+1), true, div)
	}
	if at == Fine && div {
		if f, _, _ := fExpr(s[:i], start); len(f.Undef) > 0 {
			at = i
		}
	}
	return i, at
}

func placeOperand(s string, i int, after, div bool) (end, at int) {
	j, signed := i, false
	for j < len(s) && s[j] == '-' {
		k := ws(s, j+1)
		signed = after && j == i && k == j+1
		j = k
	}
	missing := j
	if after {
		missing = i
	}
	if j == len(s) {
		return j, missing
	}
	if s[j] == '(' {
		end, at = placeExpr(s, ws(s, j+1), div)
		if at != Fine {
			return end, at
		}
		if end == len(s) || s[end] != ')' {
			return end, j + 1
		}
		return ws(s, end+1), Fine
	}
	if s[j] == '+' {
		signed = false
		j++
	}
	if j == len(s) || !Digit(s[j]) {
		return j, missing
	}
	end = j + 1
	for zero := s[j] == '0'; end < len(s) && sym.Or(s[end] == '_', sym.And(!zero, Digit(s[end]))); end++ {
	}
	if end < len(s) && wordByte(s[end]) {
		return j, missing
	}
	_, _, ok := fNumber(s, j, signed)
	end = ws(s, end)
	if !ok {
		return end, end
	}
	return end, Fine
}

// Build makes a source of a pattern in which '?' is an arbitrary byte, 'o' an
// operator, 'd' a digit, 'n' a digit other than 0, 'u' '-' or '(', 's'
// whitespace, and anything else itself.
func Build(name, pattern string) string {
	b := sym.String(name, len(pattern))
	r := []byte(b)
	for i := range r {
		c := b[i]
		switch pattern[i] {
		case '?':
		case 'o':
			sym.Assume(sym.Or(sym.Or(c == '+', c == '-'), sym.Or(c == '*', c == '/')))
		case 'd':
			sym.Assume(Digit(c))
		case 'n':
			sym.Assume(sym.And(Digit(c), c != '0'))
		case 'x': // nothing an expression begins with, save U+0085 and U+00A0
			sym.Assume(sym.And(!Digit(c), sym.And(sym.And(c != '-', c != '+'), sym.And(c != '(', sym.And(c != ' ', sym.Or(c < 9, c > 13))))))
		case 'y': // no operator
			sym.Assume(sym.And(sym.And(c != '+', c != '-'), sym.And(c != '*', c != '/')))
		case 's':
			sym.Assume(sym.Or(c == ' ', sym.And(c >= 9, c <= 13)))
		default:
			r[i] = pattern[i]
		}
	}
	return string(r)
}

// Formulas are patterns of expressions in which precedence, associativity,
// grouping, signs and spacing show.
var Formulas = []string{
	"dodod", "(dod)od", "do(dod)", "-dod", "do-d", "-(dod)", "9o8o7o2", "8o(7o3)o2", "(9o4)o(5o3)", "--dod", "-do-d", "1o-(2od)",
	"2o3o4o5o2", "-(-d)od", "((d)od)", "9o(8o(7od))", "d sos d", " (s-sd)s", "1_dod", "0dod", "dd0dd", "-9od?", "1od)", "(1od", "7o2o?",
	"do+d", "1od?2", "d(d)", "(d)(d)", "()?", "1o(?)o2", "4o2o2", "-+do3", "3o--2o4", "12345678901234567od", "?1od", "9o4\u00a0o3", "5o\u00852",
	"922337203685477580d", "1o-922337203685477580d", "-922337203685477580d", "1o922337203685477580n", "9223372036854775807od", "99999999999999999999", "n922337203685477580d", "1o1000000000000000000d", "4611686018427387904od", "d_od", "_dod", "$", "1od2.d",
	"6/d/d", "8-d-d", "2*d-d/n", "8o4od-(1od)", "-n/-n", "(((((d)))))", "7od o do3",
	"--(9o3od)", "-(-(9od o2))", "--(8o(do3))", "7o--(do3)", "-(d)od", "(-(-d))o2", "-(-(-(9od)))", "9o-(-(8o3))od",
}

// FormulaCases lists the patterns with the operators of those that have other
// arbitrary bytes spelled out.
func FormulaCases() []string {
	var r []string
	for _, p := range Formulas {
		if strings.ContainsAny(p, "dn?") {
			r = append(r, operators("", p)...)
		} else {
			r = append(r, p)
		}
	}
	return r
}

func operators(done, rest string) []string {
	i := strings.IndexByte(rest, 'o')
	if i < 0 {
		return []string{done + rest}
	}
	var r []string
	for _, op := range []string{"+", "-", "*", "/"} {
		r = append(r, operators(done+rest[:i]+op, rest[i+1:])...)
	}
	return r
}

// FormulaStarts splits all sources of up to n bytes by their beginning.
func FormulaStarts(n int) ([]string, string) {
	r := []string{""}
	for k := 1; k < n; k++ {
		r = append(r, r[k-1]+"?")
	}
	rest := r[n-1]
	for _, c := range []string{"-", "+", "(", "s", "x"} {
		r = append(r, c+rest)
	}
	for _, c := range []string{"d+", "d-", "d*", "d/", "dy"} {
		r = append(r, c+rest[1:])
	}
	if n > 4 {
		return r, "all texts of 0..5 bytes"
	}
	return r, "all texts of 0..4 (thorough 5) bytes"
}
