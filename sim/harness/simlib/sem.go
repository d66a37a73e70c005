package main

import (
	"strings"

	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

// badVals draws the values of a num-val that may or may not hold one beyond
// U+10FFFF, at any place of a series or at either end of a range.
func badNum(r *simrt.Rand) h.Num {
	pick := func() uint64 {
		switch r.Intn(6) {
		case 0:
			return 0x10fffe + uint64(r.Intn(4))
		case 1:
			return r.Uint64() >> uint(r.Intn(64))
		case 2:
			return uint64(r.Intn(1 << 22))
		case 3:
			return []uint64{0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x110000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000}[r.Intn(13)]
		}
		return 'a' + uint64(r.Intn(4))
	}
	n := h.Num{Base: "bdx"[r.Intn(3)]}
	if r.Chance(.3) {
		n.Range = true
		n.Vals = []uint64{pick(), pick()}
		return n
	}
	for k := 1 + r.Intn(5); k > 0; k-- {
		n.Vals = append(n.Vals, pick())
	}
	return n
}

// sites lists every concatenation of the grammar, at any depth.
func sites(g *h.Gram) []*h.Cat {
	var out []*h.Cat
	var walk func(a *h.Alt)
	walk = func(a *h.Alt) {
		for i := range a.Cats {
			c := &a.Cats[i]
			out = append(out, c)
			for j := range c.Reps {
				// Elements are values: rebuild the nested alternation on a copy the
				// element then shares (slices inside are shared, so edits show).
				switch v := c.Reps[j].El.(type) {
				case h.Grp:
					walk(&v.Alt)
				case h.Opt:
					walk(&v.Alt)
				}
			}
		}
	}
	for _, r := range g.Rules {
		walk(&r.Alt)
	}
	return out
}

// plantSem puts something that may be a semantic fault anywhere in the grammar.
func plantSem(r *simrt.Rand, g *h.Gram, deep bool) {
	ss := sites(g)
	c := ss[r.Intn(len(ss))]
	i := 0
	if len(c.Reps) > 0 {
		i = r.Intn(len(c.Reps))
	}
	swap := func(x h.Rep) h.Rep {
		switch r.Intn(5) {
		case 0:
			x.Min, x.Max = 2+r.Intn(4), r.Intn(2)
		case 1:
			x.Min, x.Max = 1, 0
		case 2:
			k := r.Intn(6)
			x.Min, x.Max = k+r.Intn(2), k
		case 3:
			x.Min, x.Max = r.Intn(300), r.Intn(300)
		case 4:
			x.Min, x.Max = r.Intn(9), h.Inf
		}
		return x
	}
	mk := func() h.Rep {
		x := h.Rep{Min: 1, Max: 1}
		switch r.Intn(4) {
		case 0, 1:
			x.El = badNum(r)
		case 2:
			x.El = h.Ref{Name: []string{"nope", "a-", "ALPH", "alpha", "a"}[r.Intn(5)]}
		case 3:
			x = swap(h.Rep{El: h.Chr{S: "x"}})
		}
		if r.Chance(.15) {
			x = swap(x)
		}
		depth := r.Intn(3)
		if deep {
			depth = 5 + r.Intn(80)
		}
		for d := depth; d > 0; d-- {
			y := h.Rep{Min: 1, Max: 1, El: h.Chr{S: "y"}}
			a := h.Alt{Cats: []h.Cat{{Reps: []h.Rep{y, x}}}}
			switch r.Intn(3) {
			case 0:
				a.Cats[0].Reps = []h.Rep{x, y}
			case 1:
				a.Cats = []h.Cat{{Reps: []h.Rep{y}}, {Reps: []h.Rep{x}}}
			}
			if r.Chance(.5) {
				x = h.Rep{Min: 1, Max: 1, El: h.Grp{Alt: a}}
			} else {
				x = h.Rep{Min: 1, Max: 1, El: h.Opt{Alt: a}}
			}
			if !deep && r.Chance(.1) {
				x = swap(x)
			}
		}
		return x
	}
	if len(c.Reps) == 0 {
		c.Reps = append(c.Reps, mk())
		return
	}
	switch r.Intn(3) {
	case 0: // the bounds of an existing element
		c.Reps[i] = swap(c.Reps[i])
	case 1: // in place of an existing element
		c.Reps[i] = mk()
	case 2: // next to it
		reps := append([]h.Rep(nil), c.Reps[:i]...)
		reps = append(reps, mk())
		c.Reps = append(reps, c.Reps[i:]...)
	}
}

// stretchNum rewrites one number of the text with so many digits that it no
// longer fits a machine word: leading zeros keep its value, trailing ones do not.
func stretchNum(r *simrt.Rand, s string) string {
	var at []int
	for i := 0; i+2 < len(s); i++ {
		if s[i] == '%' && strings.IndexByte("bdxBDX", s[i+1]) >= 0 {
			at = append(at, i+2)
		}
	}
	if len(at) == 0 {
		return s
	}
	i := at[r.Intn(len(at))]
	z := strings.Repeat("0", 1+r.Intn(70))
	if r.Chance(.6) {
		return s[:i] + z + s[i:]
	}
	j := i
	for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F') {
		j++
	}
	return s[:j] + z + s[j:]
}
