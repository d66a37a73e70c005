package h

import (
	"encoding/json"
	"os"
	"time"

	"github.com/pandatix/go-abnf/zsim/simrt"
)

// doMinimize shrinks the scenario in a replay file in place while the same class
// of violation persists: operations, inputs, schedules, grammar, and finally the
// individual schedule decisions.
func doMinimize(props []*Prop, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		return 3
	}
	var rf replayFile
	if json.Unmarshal(b, &rf) != nil {
		return 3
	}
	p := findProp(props, rf.Property)
	if p == nil {
		return 3
	}
	if crash := rf.Violation.Class; crash == "stack-overflow" || crash == "concurrent-map-access" || crash == "out-of-memory" {
		return 0
	}
	deadline := time.Now().Add(60 * time.Second)
	shrinks := 0
	test := func(sc *Scenario) *Violation {
		if time.Now().After(deadline) {
			return nil
		}
		v := p.Exec(sc.Clone(), NewCtx())
		if v != nil && v.Class == rf.Violation.Class {
			return v
		}
		return nil
	}
	begin := time.Now()
	if test(rf.Scenario) == nil {
		return 0
	}
	if time.Since(begin) > 20*time.Second {
		return 0 // too long to shrink: keep the scenario as it is
	}
	if p.Pin != nil {
		if sc := p.Pin(rf.Scenario.Clone()); sc != nil {
			if v := test(sc); v != nil {
				rf.Scenario, rf.Violation = sc, v
			}
		}
	}
	for pass := 0; pass < 12; pass++ {
		progress := false
		cur := rf.Scenario
		try := func(c *Scenario) bool {
			if v := test(c); v != nil {
				rf.Scenario, rf.Violation = c, v
				cur = c
				shrinks++
				progress = true
				rf.Minimised, rf.Shrinks = true, shrinks
				writeReplay(file, &rf)
				return true
			}
			return false
		}
		shrinkPass(func() *Scenario { return cur }, try)
		if !progress || time.Now().After(deadline) {
			break
		}
	}
	rf.Minimised = true
	rf.Shrinks = shrinks
	writeReplay(file, &rf)
	return 0
}

func shrinkPass(cur func() *Scenario, try func(*Scenario) bool) {
	// drop operations
	for i := len(cur().Ops) - 1; i >= 0; i-- {
		if i < len(cur().Ops) {
			c := cur().Clone()
			c.Ops = append(c.Ops[:i:i], c.Ops[i+1:]...)
			try(c)
		}
	}
	for t := len(cur().Tasks) - 1; t >= 0; t-- {
		if t < len(cur().Tasks) && len(cur().Tasks) > 1 {
			c := cur().Clone()
			c.Tasks = append(c.Tasks[:t:t], c.Tasks[t+1:]...)
			if try(c) {
				continue
			}
		}
		if t >= len(cur().Tasks) {
			continue
		}
		for i := len(cur().Tasks[t]) - 1; i >= 0; i-- {
			c := cur().Clone()
			c.Tasks[t] = append(c.Tasks[t][:i:i], c.Tasks[t][i+1:]...)
			try(c)
		}
	}
	for i := len(cur().Plans) - 1; i >= 0; i-- {
		if i < len(cur().Plans) && len(cur().Plans) > 1 {
			c := cur().Clone()
			c.Plans = append(c.Plans[:i:i], c.Plans[i+1:]...)
			if try(c) {
				continue
			}
		}
		if i >= len(cur().Plans) {
			continue
		}
		for k := len(cur().Plans[i].Faults) - 1; k >= 0; k-- {
			c := cur().Clone()
			c.Plans[i].Faults = append(c.Plans[i].Faults[:k:k], c.Plans[i].Faults[k+1:]...)
			try(c)
		}
		for k := len(cur().Plans[i].Signals) - 1; k >= 0; k-- {
			c := cur().Clone()
			c.Plans[i].Signals = append(c.Plans[i].Signals[:k:k], c.Plans[i].Signals[k+1:]...)
			try(c)
		}
		for k := len(cur().Plans[i].Sched.Preempts) - 1; k >= 0; k-- {
			if k < len(cur().Plans[i].Sched.Preempts) {
				c := cur().Clone()
				c.Plans[i].Sched.Preempts = append(c.Plans[i].Sched.Preempts[:k:k], c.Plans[i].Sched.Preempts[k+1:]...)
				try(c)
			}
		}
	}
	// drop schedules
	for i := len(cur().Scheds) - 1; i >= 0 && len(cur().Scheds) > 1; i-- {
		c := cur().Clone()
		c.Scheds = append(c.Scheds[:i:i], c.Scheds[i+1:]...)
		try(c)
	}
	if cur().Par["fixed"] == 1 {
		return // the sizes of a measured family belong together
	}
	// drop inputs (only safe when operations do not index them)
	if len(cur().Ops) == 0 && len(cur().Tasks) == 0 {
		for i := len(cur().Inputs) - 1; i >= 0 && len(cur().Inputs) > 1; i-- {
			c := cur().Clone()
			c.Inputs = append(c.Inputs[:i:i], c.Inputs[i+1:]...)
			try(c)
		}
	}
	// default the orders
	for i := range cur().Scheds {
		if cur().Scheds[i].Order != simrt.OrderSorted {
			c := cur().Clone()
			c.Scheds[i].Order = simrt.OrderSorted
			c.Scheds[i].Spans = nil
			try(c)
		}
		if cur().Scheds[i].Gap > 0 {
			c := cur().Clone()
			c.Scheds[i].Gap = 0
			try(c)
		}
	}
	// shrink inputs bytewise
	for i := range cur().Inputs {
		for k := len(cur().Inputs[i]) - 1; k >= 0; k-- {
			if k < len(cur().Inputs[i]) {
				c := cur().Clone()
				c.Inputs[i] = append(c.Inputs[i][:k:k], c.Inputs[i][k+1:]...)
				try(c)
			}
		}
	}
	for _, t := range [][]Op{cur().Ops} {
		for i := range t {
			if len(t[i].Tape) > 0 {
				c := cur().Clone()
				c.Ops[i].Tape = c.Ops[i].Tape[:len(c.Ops[i].Tape)/2]
				try(c)
			}
		}
	}
	// shrink grammars
	for i := range cur().Grammars {
		for rounds := 0; rounds < 200; rounds++ {
			g, err := RefParse([]byte(cur().Grammars[i]))
			if err != nil {
				break
			}
			if g.Text() != cur().Grammars[i] {
				c := cur().Clone()
				c.Grammars[i] = g.Text()
				if !try(c) {
					break
				}
			}
			hit := false
			for _, m := range gramShrinks(g) {
				c := cur().Clone()
				c.Grammars[i] = m
				if try(c) {
					hit = true
					break
				}
			}
			if !hit {
				break
			}
		}
	}
	// shrink the set of permuted iterations: find a small list of spans
	for i := range cur().Scheds {
		s := cur().Scheds[i]
		if s.Order == simrt.OrderSorted {
			continue
		}
		spans := s.Spans
		if spans == nil {
			spans = []simrt.Span{{Lo: 0, Hi: 1 << 14}}
			c := cur().Clone()
			c.Scheds[i].Spans = spans
			if !try(c) {
				continue
			}
		}
		for again := true; again; {
			again = false
			sp := cur().Scheds[i].Spans
			for k := range sp {
				if sp[k].Hi-sp[k].Lo <= 1 {
					if len(sp) > 1 {
						c := cur().Clone()
						c.Scheds[i].Spans = append(append([]simrt.Span{}, sp[:k]...), sp[k+1:]...)
						if try(c) {
							again = true
							break
						}
					}
					continue
				}
				mid := (sp[k].Lo + sp[k].Hi) / 2
				left, right := simrt.Span{Lo: sp[k].Lo, Hi: mid}, simrt.Span{Lo: mid, Hi: sp[k].Hi}
				for _, keep := range []simrt.Span{left, right} {
					c := cur().Clone()
					c.Scheds[i].Spans[k] = keep
					if try(c) {
						again = true
						break
					}
				}
				if again {
					break
				}
			}
		}
	}
	// shrink explicit preemptions
	for i := range cur().Scheds {
		for n := len(cur().Scheds[i].Preempts) / 2; n >= 2; n /= 2 {
			for k := 0; k+n <= len(cur().Scheds[i].Preempts); {
				c := cur().Clone()
				c.Scheds[i].Preempts = append(c.Scheds[i].Preempts[:k:k], c.Scheds[i].Preempts[k+n:]...)
				if !try(c) {
					k += n
				}
			}
		}
		for k := len(cur().Scheds[i].Preempts) - 1; k >= 0; k-- {
			if k < len(cur().Scheds[i].Preempts) {
				c := cur().Clone()
				c.Scheds[i].Preempts = append(c.Scheds[i].Preempts[:k:k], c.Scheds[i].Preempts[k+1:]...)
				try(c)
			}
		}
	}
}

// gramShrinks proposes smaller grammars.
func gramShrinks(g *Gram) []string {
	var out []string
	emit := func() { out = append(out, g.Text()) }
	// drop a rule
	for i := range g.Rules {
		if len(g.Rules) > 1 {
			save := g.Rules
			g.Rules = append(append([]*RuleDef{}, save[:i]...), save[i+1:]...)
			emit()
			g.Rules = save
		}
	}
	var inAlt func(a *Alt)
	inRep := func(p *Rep) {
		save := *p
		if p.Min != 1 || p.Max != 1 {
			p.Min, p.Max = 1, 1
			emit()
			*p = save
			if p.Max > p.Min+1 || p.Min > 1 {
				if p.Min > 0 {
					p.Min--
				}
				if p.Max > 1 {
					p.Max--
				}
				emit()
				*p = save
			}
		}
		switch v := p.El.(type) {
		case Grp:
			for _, c := range v.Alt.Cats {
				if len(c.Reps) == 1 && c.Reps[0].Min == 1 && c.Reps[0].Max == 1 {
					p.El = c.Reps[0].El
					emit()
					*p = save
				}
			}
			inAlt(&v.Alt)
			p.El = v
		case Opt:
			for _, c := range v.Alt.Cats {
				if len(c.Reps) == 1 && c.Reps[0].Min == 1 && c.Reps[0].Max == 1 {
					p.El = c.Reps[0].El
					emit()
					*p = save
				}
			}
			inAlt(&v.Alt)
			p.El = v
		case Chr:
			if len(v.S) > 1 {
				p.El = Chr{S: v.S[:1], CS: v.CS}
				emit()
			}
			if v.CS || v.I {
				p.El = Chr{S: v.S}
				emit()
			}
			p.El = v
		case Num:
			if len(v.Vals) > 2 || (len(v.Vals) > 1 && !v.Range) {
				p.El = Num{Base: v.Base, Vals: v.Vals[:1]}
				emit()
			}
			p.El = v
		case Ref:
			if IsCore(v.Name) {
				p.El = Chr{S: "a"}
				emit()
			}
			p.El = v
		}
		*p = save
	}
	inAlt = func(a *Alt) {
		if len(a.Cats) > 1 {
			for i := range a.Cats {
				save := a.Cats
				a.Cats = append(append([]Cat{}, save[:i]...), save[i+1:]...)
				emit()
				a.Cats = save
			}
		}
		for i := range a.Cats {
			c := &a.Cats[i]
			if len(c.Reps) > 1 {
				for k := range c.Reps {
					save := c.Reps
					c.Reps = append(append([]Rep{}, save[:k]...), save[k+1:]...)
					emit()
					c.Reps = save
				}
			}
			for k := range c.Reps {
				inRep(&c.Reps[k])
			}
		}
	}
	for _, r := range g.Rules {
		if r.Inc {
			r.Inc = false
			emit()
			r.Inc = true
		}
		inAlt(&r.Alt)
	}
	return out
}
