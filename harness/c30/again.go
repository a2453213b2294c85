package main

import (
	"verif/harness/h"
	"verif/harness/sym"
)

// Call histories: one struct type, different columns, one call after another.
func init() {
	ins := [][2]input{
		{{0, list("A", "b", "see"), "?,1,2"}, {0, list("see", "A"), "@#,x"}},
		{{0, list("zz", "b"), "x,1#"}, {0, list("b", "zz"), "1#,y"}},
		{{0, list("A"), "?"}, {0, list("b"), "?"}},
		{{0, list("b"), "?"}, {0, list("B", "A"), "1#,x"}},
		{{1, list("P", "R"), "?,x"}, {1, list("P2", "P"), "?,1#"}},
		{{2, list("w"), "1#"}, {2, list("v", "w"), "1#,2#"}},
		{{3, list("U", "n"), "1#,x"}, {0, list("A", "b", "see"), "y,1#,2"}},
		{{0, list("A", "b", "see"), "y,1#,2"}, {3, list("M", "n", "U"), "x,?,1#"}},
	}
	outs := [][2]output{
		{{0, list("A", "b", "see"), list("@|z|z")}, {0, list("see", "A"), list("x|s|z")}},
		{{0, list("b"), list("x|z|s")}, {0, list("zz", "b"), list("x|z|s")}},
		{{1, list("P2", "P"), list("s|s|@|s")}, {1, list("P", "P2"), list("s|s|@|s")}},
		{{0, list("A"), list("@|1|2")}, {3, list("M", "n"), list("1|2|3|a|@")}},
		{{2, list("w"), list("1|1|z|s")}, {2, list("v", "w"), list("1|1|z|s")}},
	}
	sym.Check("again", 2*len(ins)+len(outs), "two calls for the same or different struct types with different columns", func(c int) {
		if c >= 2*len(ins) {
			p := outs[c-2*len(ins)]
			writeOut(p[0])
			writeOut(p[1])
			return
		}
		p := ins[c/2]
		if c%2 == 1 {
			p[0], p[1] = p[1], p[0]
		}
		read(shapes[p[0].shape], p[0].cols, h.Pattern("s", p[0].body))
		read(shapes[p[1].shape], p[1].cols, h.Pattern("t", p[1].body))
	})
}
