package main

import (
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

func init() {
	reg(&h.Prop{
		ID: "C01", Quick: 36000, Thorough: 2000000, Real: realLib, Stub: stubLib,
		Rule: "one evaluation = one seeded scenario: a random grammar, a root rule and a history of IsValid calls on one shared Grammar, executed under every schedule of the scenario and compared call by call with an independent fixpoint recogniser",
		Gen: func(r *simrt.Rand, idx int, th bool) *h.Scenario {
			if idx%vlongEvery == 77 {
				return vlongScenario(r, false)
			}
			sc := langScenario(r, idx, gopt{inputs: 5 + r.Intn(4), max: 10 + r.Intn(8), scheds: 3, mod: func(c *h.GenCfg, r *simrt.Rand) {
				if r.Chance(.15) {
					c.Undef, c.Prose = true, true
				}
			}})
			if sc != nil && r.Chance(.03) && !exotic(sc) {
				m := mustRef(sc.Grammars[0])
				hugeRep(m, r)
				sc.Grammars[0] = m.Text()
			}
			return sc
		},
		Exec: func(sc *h.Scenario, c *h.Ctx) *h.Violation {
			if sc.Par["vlong"] > 0 {
				return vlongExec("C01", sc, c)
			}
			m := mustRef(sc.Grammars[0])
			rg := h.NewRef(m)
			root := rg.Rule(sc.Rule)
			want := make([]bool, len(sc.Inputs))
			for i, in := range sc.Inputs {
				want[i] = rg.Chart(root, in).Accepts(root)
				if want[i] {
					c.Probe("accepted")
				} else {
					c.Probe("rejected")
				}
			}
			probeGram(c, m, sc.Rule)
			for _, s := range sc.Scheds {
				var v *h.Violation
				o := c.Do(s, func() {
					g, err := loadGrammar(sc, m)
					if err != nil {
						v = h.Viol("grammar-rejected", "ParseABNF rejected %s: %v", oneLine(sc.Grammars[0]), err)
						return
					}
					for round := 0; round < 2; round++ {
						for i := range sc.Inputs {
							k := i
							if round == 1 {
								k = len(sc.Inputs) - 1 - i
							}
							got, err := g.IsValid(sc.Rule, sc.Inputs[k])
							if err != nil {
								v = h.Viol("error", "IsValid(%s, %s) on %s: %v", sc.Rule, q(sc.Inputs[k]), oneLine(sc.Grammars[0]), err)
								return
							}
							if got != want[k] {
								v = h.Viol("verdict", "IsValid(%s, %s) = %v, the language says %v, on %s", sc.Rule, q(sc.Inputs[k]), got, want[k], oneLine(sc.Grammars[0]))
								return
							}
						}
					}
				})
				if v != nil {
					return v
				}
				if v := h.Bad(o, "IsValid"); v != nil {
					return v
				}
			}
			return nil
		},
	})
}
