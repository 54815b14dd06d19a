package main

import (
	"fmt"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"verif.local/sim/simrt"
)

// tokensCmd checks that the tokens' widths add up in any combination of up to
// three, so that the oracle's arithmetic is right. Run by hand, not by checks.
func tokensCmd() int {
	bad := 0
	for _, ea := range []bool{false, true} {
		runewidth.DefaultCondition.EastAsianWidth = ea
		try := func(ts ...int) {
			c := cell{T: ts}
			w := c.width(ea)
			got := len(table.AlignmentLeft(c.str(), 200)) - len(c.str())
			if 200-got != w {
				bad++
				if bad < 60 {
					fmt.Printf("ea=%v tokens %v %q: width %d, expected %d\n", ea, ts, c.str(), 200-got, w)
				}
			}
		}
		for a := range toks {
			try(a)
			for b := range toks {
				try(a, b)
				for d := range toks {
					try(a, b, d)
				}
			}
		}
		r := &rng{s: 7}
		for _, x := range runeRanges {
			for c := x.lo; c <= x.hi; c++ {
				t := runeBase + int(c)
				try(t)
				try(r.tok(), t, r.tok())
				try(t, t, r.tok())
			}
		}
		for i := 0; i < 1<<16; i++ {
			try(r.tok(), escBase+i, r.tok())
		}
		for i := 0; i < 2000000; i++ {
			try(r.tok(), r.tok(), r.tok(), r.tok(), r.tok())
		}
		// reset the cache between modes
		simrt.ResetAll()
	}
	fmt.Println("bad:", bad)
	return min(bad, 1)
}
