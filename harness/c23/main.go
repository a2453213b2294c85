// C23: reported line, column and excerpt locate the position.
package main

import (
	. "github.com/shellyln/takenoco/base"
	"verif/harness/h"
	"verif/harness/sym"
)

func main() { sym.Main() }

// lines are the line starts of text; a line break is CR, LF or CRLF.
func lines(text string) []int {
	starts := []int{0}
	for i := 0; i < len(text); i++ {
		if text[i] == '\n' {
			starts = append(starts, i+1)
		} else if text[i] == '\r' && (i+1 == len(text) || text[i+1] != '\n') {
			starts = append(starts, i+1)
		}
	}
	return starts
}

// cut is the text without its line break.
func cut(text string) string {
	for i := range len(text) {
		if text[i] == '\r' || text[i] == '\n' {
			return text[:i]
		}
	}
	return text
}

func expand(text string, tab int) string {
	r := ""
	for i := range len(text) {
		if text[i] == '\t' {
			r += spaces(tab)
		} else {
			r += text[i : i+1]
		}
	}
	return r
}

func spaces(n int) string {
	r := ""
	for ; n > 0; n-- {
		r += " "
	}
	return r
}

// split cuts an excerpt into its lines.
func split(text string) (r []string) {
	starts := lines(text)
	for i, s := range starts {
		end := len(text)
		if i+1 < len(starts) {
			end = starts[i+1]
		}
		r = append(r, cut(text[s:end]))
	}
	return
}

func locate(src string, pos, tab int) {
	got := GetLineAndColPosition(src, SourcePosition{Position: pos, Length: sym.Int("len", 0, 5)}, tab)
	starts := lines(src[:pos])
	n := len(starts)
	at := starts[n-1]
	sym.Assert(got.Line == n, "the line is one plus the line breaks before the position")
	sym.Assert(got.LineIndex == at, "the line index is the start of the line")
	sym.Assert(got.Col == pos-at+1, "the column counts the bytes from the line's start")
	sym.Assert(got.Position == pos, "the position is kept")
	var want []string
	if n > 1 {
		want = append(want, "   | "+expand(cut(src[starts[n-2]:at]), tab))
		sym.Cover("second line")
	}
	want = append(want, " > | "+expand(src[at:pos]+cut(src[pos:]), tab))
	want = append(want, "   | "+spaces(len(expand(src[at:pos], tab)))+"^^^^")
	lines := split(got.ErrSource)
	sym.Assert(len(lines) == len(want), "the excerpt has the previous line, the line and the caret line")
	for i, l := range lines {
		switch len(want) - i {
		case 3:
			sym.Assert(l == want[i], "the previous line is shown")
		case 2:
			sym.Assert(l == want[i], "the whole line is shown with its tabs expanded")
		default:
			sym.Assert(l == want[i], "the caret line points at the position")
		}
	}
}

// longer sources, in which all but a few bytes are given
var patterns = []string{
	"ab\r\ncd??ef\r\ngh", "\n\n?\t\tx\n?y", "one\rtwo\r\n\tth?ee\nfo?r\r", "\xe4\xb8\xad\t?\xe6\x96\x87\n\t\xe5?", "\r\n\r\n\n\r\r\n??",
}

var tabs = []int{4, 0, 1, 8}

func init() {
	max := 5
	if sym.Thorough() {
		max = 7
	}
	type shape struct{ n, pos, tab int }
	var shapes []shape
	for n := 0; n <= max; n++ {
		for p := 0; p <= n; p++ {
			for _, t := range tabs {
				if t == 4 || n <= max-1 {
					shapes = append(shapes, shape{n, p, t})
				}
			}
		}
	}
	sym.Check("sources", len(shapes), "all sources of 0..5 (thorough 7) bytes, every position, tab widths 0, 1, 4 and 8", func(c int) {
		s := shapes[c]
		locate(sym.String("s", s.n), s.pos, s.tab)
	})
	var ps []shape
	for i, p := range patterns {
		for pos := 0; pos <= len(p); pos++ {
			ps = append(ps, shape{i, pos, tabs[pos%len(tabs)]})
		}
	}
	sym.Check("patterns", len(ps), "5 sources of several lines with 2 arbitrary bytes, every position", func(c int) {
		s := ps[c]
		locate(h.Pattern("s", patterns[s.n]), s.pos, s.tab)
	})
}
