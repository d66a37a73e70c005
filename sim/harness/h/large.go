package h

import (
	"fmt"
	"strings"

	"github.com/pandatix/go-abnf/zsim/simrt"
)

// Large draws a grammar that is large in one dimension (alternatives, length of
// a concatenation, number of rules, nesting, literals, series, counts) or that
// has long words, and the length of inputs to use with it. Halved: about half of
// that, and short words.
func Large(r *simrt.Rand, c GenCfg, halved bool) (g *Gram, max int, long bool) {
	upto := func(n int) int {
		if halved {
			n /= 2
		}
		return r.Intn(n)
	}
	if !halved && r.Chance(.35) {
		g, max = longWords(r, c)
		return g, max, true
	}
	c.Rules, c.Alts, c.Cats, c.Depth = 1+r.Intn(3), 1+r.Intn(2), 1+r.Intn(2), r.Intn(2)
	c.Recursive, c.LeftRec, c.Counted, c.Big, c.Core = r.Chance(.3), r.Chance(.2), false, false, false
	g = GenGram(r, c)
	type slot struct {
		cat *Cat
		alt *Alt
		i   int
	}
	var slots []slot
	var walk func(a *Alt)
	walk = func(a *Alt) {
		for ci := range a.Cats {
			for ri := range a.Cats[ci].Reps {
				slots = append(slots, slot{&a.Cats[ci], a, ri})
				switch v := a.Cats[ci].Reps[ri].El.(type) {
				case Grp:
					walk(&v.Alt)
				case Opt:
					walk(&v.Alt)
				}
			}
		}
	}
	walk(&g.Rules[0].Alt)
	s := slots[r.Intn(len(slots))]
	chars := c.Alpha + "0123456789"
	lit := func(n int) Chr {
		var b strings.Builder
		for k := 0; k < n; k++ {
			b.WriteByte(chars[r.Intn(len(chars))])
		}
		return Chr{S: b.String(), CS: c.CSens && r.Chance(.5)}
	}
	// Long literals, series and counts use characters of their own: a long input
	// of ambiguous parts is cubic work.
	own := func(n int) Chr {
		chars = "0123456789"
		return lit(n)
	}
	one := func(e El) Rep { return Rep{1, 1, e} }
	max = 24
	switch r.Intn(7) {
	case 0: // alternatives
		var more []Cat
		n := 8 + upto(70)
		if !halved && r.Chance(.1) {
			n = 200 + r.Intn(100)
		}
		for k := n; k > 0; k-- {
			e := El(lit(1 + r.Intn(3)))
			if c.Nums && r.Chance(.3) {
				e = genNum(r, c)
			}
			more = append(more, Cat{[]Rep{one(e)}})
		}
		at := r.Intn(len(s.alt.Cats) + 1)
		old := append([]Cat(nil), s.alt.Cats...)
		if s.alt == &g.Rules[0].Alt {
			s.alt.Cats = append(append(append([]Cat(nil), old[:at]...), more...), old[at:]...)
		} else {
			s.cat.Reps[s.i].El = Grp{Alt{append(more, Cat{[]Rep{s.cat.Reps[s.i]}})}}
			s.cat.Reps[s.i].Min, s.cat.Reps[s.i].Max = 1, 1
		}
	case 1: // concatenation
		var more []Rep
		for k := 8 + upto(40); k > 0; k-- {
			p := one(lit(1))
			if r.Chance(.2) {
				p.Min, p.Max = 0, 1
			}
			more = append(more, p)
		}
		s.cat.Reps = append(append(append([]Rep(nil), s.cat.Reps[:s.i]...), more...), s.cat.Reps[s.i:]...)
		max = 62
	case 2: // rules
		n := 12 + upto(60)
		pad := ""
		if r.Chance(.3) {
			pad = strings.Repeat("-long", 1+r.Intn(15))
		}
		name := func(k int) string { return fmt.Sprintf("%c%s%d", "kmpqsvwz"[k*5%8], pad, k) }
		el := s.cat.Reps[s.i].El
		s.cat.Reps[s.i].El = Ref{name(0)}
		for k := 0; k < n; k++ {
			d := &RuleDef{Name: name(k)}
			body := el
			if k < n-1 {
				body = Ref{name(k + 1)}
			}
			d.Alt = Alt{[]Cat{{[]Rep{one(body)}}}}
			if r.Chance(.3) {
				d.Alt.Cats = append(d.Alt.Cats, Cat{[]Rep{one(lit(1 + r.Intn(2)))}})
			}
			if k < n-3 && r.Chance(.15) {
				d.Alt.Cats = append(d.Alt.Cats, Cat{[]Rep{one(Ref{name(k + 1 + r.Intn(n-k-1))}), one(lit(1))}})
			}
			g.Rules = append(g.Rules, d)
		}
		if !c.Inc && r.Chance(.5) { // definitions in another order
			for i := len(g.Rules) - 1; i > 1; i-- {
				j := 1 + r.Intn(i)
				g.Rules[i], g.Rules[j] = g.Rules[j], g.Rules[i]
			}
		}
	case 3: // nesting
		p := s.cat.Reps[s.i]
		depth, odd := 5+upto(9), .2
		if !halved && r.Chance(.25) {
			depth, odd = 20+r.Intn(90), .03
		}
		for k := depth; k > 0; k-- {
			a := Alt{[]Cat{{[]Rep{p}}}}
			if r.Chance(odd) {
				a.Cats[0].Reps = append(a.Cats[0].Reps, one(lit(1)))
			}
			if r.Chance(odd) {
				a.Cats = append(a.Cats, Cat{[]Rep{one(lit(1))}})
			}
			if r.Chance(odd) {
				p = one(Opt{a})
			} else {
				p = one(Grp{a})
			}
		}
		s.cat.Reps[s.i] = p
	case 4: // literal
		s.cat.Reps[s.i] = one(own(12 + upto(80)))
		max = 120
	case 5: // series
		v := Num{Base: "bdx"[r.Intn(3)]}
		own(0)
		for k := 6 + upto(40); k > 0; k-- {
			v.Vals = append(v.Vals, uint64(chars[r.Intn(len(chars))]))
		}
		s.cat.Reps[s.i] = one(v)
		max = 80
	case 6: // counts
		n := 9 + upto(60)
		if !halved && r.Chance(.15) {
			n = 120 + r.Intn(160)
		}
		m := n
		switch r.Intn(3) {
		case 0:
			m = Inf
		case 1:
			m = n + r.Intn(20)
		}
		if r.Chance(.3) && m != Inf {
			n = r.Intn(3)
		}
		s.cat.Reps[s.i] = Rep{n, m, own(1)}
		if n > 60 {
			max = 320
		} else {
			max = 100
		}
	}
	if halved {
		max = 20
	}
	return g, max, false
}

// longWords: small grammars with long words, near-deterministic so that parsing
// stays cheap.
func longWords(r *simrt.Rand, c GenCfg) (*Gram, int) {
	perm := []string{`"a"`, `"b"`, `%x63`, `%s"d"`, `%x65-66`, `"gh"`}
	for i := len(perm) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	x, y, z := perm[0], perm[1], perm[2]
	max := []int{70, 100, 140, 270}[r.Intn(4)]
	var s string
	switch r.Intn(12) {
	case 0:
		s = fmt.Sprintf("a = %s a / %s\r\n", x, y)
	case 1:
		s = fmt.Sprintf("a = a %s / %s\r\n", x, y)
	case 2:
		s = fmt.Sprintf("a = \"(\" a \")\" / %s\r\n", x)
	case 3:
		s = fmt.Sprintf("a = 1*(%s / %s) %s\r\n", x, y, z)
	case 4:
		s = fmt.Sprintf("a = *b %s\r\nb = %s / %s %s\r\n", x, y, z, y)
	case 5:
		s = "a = 1*DIGIT \".\" 1*DIGIT\r\n"
	case 6:
		s = "a = b *(\",\" b)\r\nb = 1*ALPHA\r\n"
	case 7:
		s = fmt.Sprintf("a = b %s / %s\r\nb = a %s / %s\r\n", x, y, z, z)
	case 8:
		s = fmt.Sprintf("a = b\r\nb = %s c / %s\r\nc = %s b\r\n", x, y, z)
	case 9:
		s = fmt.Sprintf("a = a a / %s\r\n", x)
		max = 64 + r.Intn(6)
	case 10:
		s = fmt.Sprintf("a = *([%s] %s)\r\n", x, y)
	case 11:
		s = fmt.Sprintf("a = 1*b\r\nb = 2%s %s / 3%s %s\r\n", x, y, x, z)
	}
	g, err := RefParse([]byte(s))
	if err != nil {
		panic("harness: " + err.Error() + s)
	}
	return g, max
}
