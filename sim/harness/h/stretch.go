package h

import (
	"fmt"

	"github.com/pandatix/go-abnf/zsim/simrt"
)

// Stretch moves a few elements of g behind chains of new rules, so that facts
// about them (nullability, left corners, productivity, reachability) have to
// travel through several rules, in whatever order those are visited.
func Stretch(g *Gram, r *simrt.Rand) {
	var slots []*Rep
	var walk func(a Alt)
	walk = func(a Alt) {
		for ci := range a.Cats {
			for ri := range a.Cats[ci].Reps {
				p := &a.Cats[ci].Reps[ri]
				slots = append(slots, p)
				switch v := p.El.(type) {
				case Grp:
					walk(v.Alt)
				case Opt:
					walk(v.Alt)
				}
			}
		}
	}
	for _, d := range g.Rules {
		walk(d.Alt)
	}
	if len(slots) == 0 {
		return
	}
	used := 0
	name := func() string {
		used++
		// the letter decides the place in sorted order, the number keeps it unique
		return fmt.Sprintf("%c%d", "kmpqsvwz"[r.Intn(8)], used)
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		p := slots[r.Intn(len(slots))]
		el := p.El
		links := 2 + r.Intn(5)
		first := name()
		p.El = Ref{first}
		for i := 0; i < links; i++ {
			def := &RuleDef{Name: first}
			body := El(el)
			if i < links-1 {
				first = name()
				body = Ref{first}
			}
			rep := Rep{Min: 1, Max: 1, El: body}
			switch r.Intn(8) {
			case 0:
				rep.El = Grp{Alt{[]Cat{{[]Rep{rep}}}}}
			case 1:
				rep.El = Opt{Alt{[]Cat{{[]Rep{rep}}}}}
			case 2:
				rep.Min, rep.Max = 0, 1+r.Intn(2)
			}
			def.Alt = Alt{[]Cat{{[]Rep{rep}}}}
			g.Rules = append(g.Rules, def)
		}
	}
}
