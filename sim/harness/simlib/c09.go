package main

import (
	"errors"
	"regexp"
	"unicode/utf8"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

// repProduct is the largest product of nested repetition bounds below an acyclic rule.
func repProduct(m *h.Gram, rule string) int {
	memo := map[string]int{}
	var alt func(a h.Alt) int
	var ruleP func(n string) int
	ruleP = func(n string) int {
		n = lowS(n)
		if v, ok := memo[n]; ok {
			return v
		}
		memo[n] = 1
		if d := m.Find(n); d != nil {
			memo[n] = alt(d.Alt)
		}
		return memo[n]
	}
	alt = func(a h.Alt) int {
		mx := 1
		for _, c := range a.Cats {
			for _, r := range c.Reps {
				p := 1
				switch v := r.El.(type) {
				case h.Ref:
					p = ruleP(v.Name)
				case h.Grp:
					p = alt(v.Alt)
				case h.Opt:
					p = alt(v.Alt)
				}
				k := max(r.Min, 1)
				if r.Max != h.Inf {
					k = max(k, r.Max)
				}
				if k < 1<<20 && p < 1<<20 {
					mx = max(mx, k*p)
				} else {
					mx = 1 << 40
				}
			}
		}
		return mx
	}
	return ruleP(rule)
}

func init() {
	reg(&h.Prop{
		ID: "C09", Quick: 100000, Thorough: 500000, Real: realLib, Stub: stubLib,
		Rule: "one evaluation = one seeded grammar, rule and set of inputs: the expression is built, compiled and matched under every schedule of the scenario",
		Gen: func(r *simrt.Rand, idx int, th bool) *h.Scenario {
			sc := langScenario(r, idx, gopt{inputs: 14, max: 10, scheds: 2, mod: func(c *h.GenCfg, r *simrt.Rand) {
				c.Recursive = r.Chance(.08)
				c.Odd = r.Chance(.3)
				if r.Chance(.15) {
					c.Prose, c.Undef, c.TooBig = r.Chance(.5), r.Chance(.5), r.Chance(.4)
				}
			}})
			if sc != nil {
				sc.Par["novalidate"] = 1
				for _, s := range []string{"", "\ufffd", "�a", ".", "\n"} {
					if r.Chance(.3) {
						sc.Inputs = append(sc.Inputs, h.Bytes(s))
					}
				}
			}
			return sc
		},
		Exec: func(sc *h.Scenario, c *h.Ctx) *h.Violation {
			m := mustRef(sc.Grammars[0])
			rg := h.NewRef(m)
			root := rg.Rule(sc.Rule)
			probeGram(c, m, sc.Rule)
			cyc := m.Cyclic(sc.Rule)
			undef := hasUndefined(m, sc.Rule)
			prose := hasFeature(m, sc.Rule, func(r h.Rep) bool { _, ok := r.El.(h.Prose); return ok })
			badRep := hasFeature(m, sc.Rule, func(r h.Rep) bool { return r.Max != h.Inf && r.Max < r.Min })
			big := !cyc && repProduct(m, sc.Rule) > 1000
			var want []int
			for _, in := range sc.Inputs {
				switch {
				case !utf8.Valid(in):
					want = append(want, -1)
				case rg.AcceptsLong(root, in):
					want = append(want, 1)
				default:
					want = append(want, 0)
				}
			}
			for _, s := range sc.Scheds {
				var re string
				var err error
				o := c.Do(s, func() {
					var g *goabnf.Grammar
					if g, err = loadGrammar(sc, m); err == nil {
						re, err = g.Regex(sc.Rule, goabnf.WithMaxRegexLen(60000))
					}
				})
				if v := h.Bad(o, "Regex"); v != nil {
					v.Detail += " on " + oneLine(sc.Grammars[0])
					return v
				}
				if err != nil {
					c.Probe("refused")
					var cy *goabnf.ErrCyclicRule
					switch {
					case cyc || undef, prose, badRep, sizeErr(err):
						if prose && !cyc && !undef && !badRep && !errors.Is(err, goabnf.ErrHandlingProseVal) {
							return h.Viol("error", "Regex(%s) of %s: error %v for a prose value", sc.Rule, oneLine(sc.Grammars[0]), err)
						}
						if cyc && !undef && !errors.As(err, &cy) {
							return h.Viol("error", "Regex(%s) of %s: error %v for a cyclic rule", sc.Rule, oneLine(sc.Grammars[0]), err)
						}
						continue
					}
					return h.Viol("refused", "Regex(%s) of %s: %v", sc.Rule, oneLine(sc.Grammars[0]), err)
				}
				if cyc {
					return h.Viol("cyclic", "Regex(%s) of %s returned %q for a cyclic rule", sc.Rule, oneLine(sc.Grammars[0]), re)
				}
				if badRep {
					continue // invalid grammar: no expression is right
				}
				rx, cerr := regexp.Compile(`\A(?:` + re + `)\z`)
				if cerr != nil {
					if big || len(re) > 20000 {
						c.Probe("beyond RE2's limits")
						continue
					}
					return h.Viol("compile", "Regex(%s) of %s returned %q: %v", sc.Rule, oneLine(sc.Grammars[0]), re, cerr)
				}
				for i, in := range sc.Inputs {
					if want[i] < 0 {
						continue
					}
					if got := rx.Match(in); got != (want[i] == 1) {
						return h.Viol("language", "Regex(%s) of %s is %q: match of %s is %v, in the language: %v", sc.Rule, oneLine(sc.Grammars[0]), re, q(in), got, want[i] == 1)
					}
					if want[i] == 1 {
						c.Probe("matched a word")
					} else {
						c.Probe("rejected a non-word")
					}
				}
			}
			return nil
		},
	})
}
