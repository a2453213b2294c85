package main

import (
	"verif/harness/sym"
)

func init() {
	var shapes []shape
	for _, n := range []int{9, 17, 40} {
		for k := 0; k < kinds; k++ {
			args := 0
			if k >= seq && k <= classN {
				args = n - 2
			}
			shapes = append(shapes, shape{k, args, n, 0, 1}, shape{k, args, n, 2, 0}, shape{k, args, n, n - 1, 2}, shape{k, args, n, 3, 20}, shape{k, args, n, n, 1})
			if k == seq {
				shapes = append(shapes, shape{k, 2, n, n - 2, 1}, shape{k, n, n, 0, 1}, shape{k, n + 1, n, 0, 1}, shape{k, n / 2, n, n / 2, 1})
			}
		}
	}
	for _, n := range []int{70, 130} {
		shapes = append(shapes, shape{seq, n - 2, n, 2, 1}, shape{class, n, n, n - 1, 1}, shape{classN, n, n, n / 2, 0})
	}
	// the type with optional elements forks at each of them
	big := elems[:4]
	sym.Check("large", len(big)*len(shapes), "every matcher with up to 41 values on sources of 9, 17 and 40 arbitrary elements, sequences and classes of up to 130 values on sources of 70 and 130", func(c int) {
		e, x := big[c%len(big)], shapes[c/len(big)]
		single(e, e.matcher(x.kind, x.args, "a"), x.n, x.pos, x.below)
	})
	sym.Check("large toslice", 2*len(big)*3, "ToSlice over 9, 17 and 40 nodes", func(c int) {
		toSlice(big[c%len(big)], []int{9, 17, 40}[c/len(big)%3], c/len(big)/3*20)
	})
	sym.Check("large sequence", len(big)*3*2, "9, 17 and 40 matchers in a row, with and without ToSlice", func(c int) {
		e := big[c%len(big)]
		n := []int{9, 17, 40}[c/len(big)%3]
		var ms []matcher
		for i := 0; i < n; i++ {
			switch i % 4 {
			case 0:
				ms = append(ms, e.matcher(class, 2, "a"))
			case 1:
				ms = append(ms, e.matcher(classN, 1, "b"))
			case 2:
				ms = append(ms, matcher{kind: any_})
			default:
				ms = append(ms, matcher{kind: classFn})
			}
		}
		sequence(e, ms, n, c/len(big)/3 == 1)
	})
}
