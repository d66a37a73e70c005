package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

func sortedS(xs []string) string {
	ys := append([]string(nil), xs...)
	sort.Strings(ys)
	return strings.Join(ys, ",")
}

func init() {
	reg(&h.Prop{
		ID: "C17", Quick: 30000, Thorough: 1000000, Real: realLib, Stub: stubLib,
		Rule: "one evaluation = one seeded grammar analysed under every schedule; DependencyGraph, IsDAG, RuleContainsCycle of every rule and the cyclic-rule errors of Regex and TransitionGraph are compared with reachability computed independently",
		Gen: func(r *simrt.Rand, idx int, th bool) *h.Scenario {
			sc := langScenario(r, idx, gopt{inputs: 0, max: 4, scheds: 4, mod: func(c *h.GenCfg, r *simrt.Rand) {
				c.Recursive, c.LeftRec = r.Chance(.6), true
				c.CaseRefs = r.Chance(.5)
				c.Rules = 1 + r.Intn(7)
				c.MaxRep = 6
				c.Nums = c.Nums && r.Chance(.3)
				c.Uni = false
			}})
			return sc
		},
		Exec: func(sc *h.Scenario, c *h.Ctx) *h.Violation {
			m := mustRef(sc.Grammars[0])
			dag := true
			cyc := map[string]bool{}
			for _, n := range m.Names() {
				cyc[n] = m.Cyclic(n)
				if cyc[n] {
					dag = false
				}
			}
			if dag {
				c.Probe("acyclic")
			} else {
				c.Probe("cyclic")
			}
			deps := map[string]string{}
			for _, n := range m.Names() {
				deps[lowS(n)] = sortedS(h.Deps(m.Find(n).Alt))
			}
			for _, n := range coreNames {
				if deps[lowS(n)] == "" {
					deps[lowS(n)] = sortedS(h.Deps(m.Find(n).Alt))
				}
			}
			for _, s := range sc.Scheds {
				var v *h.Violation
				o := c.Do(s, func() {
					g, err := loadGrammar(sc, m)
					if err != nil {
						v = h.Viol("grammar-rejected", "ParseABNF rejected %s: %v", oneLine(sc.Grammars[0]), err)
						return
					}
					txt := oneLine(sc.Grammars[0])
					dg := g.DependencyGraph()
					got := map[string]string{}
					for k, n := range dg {
						got[lowS(k)] = sortedS(n.Dependencies)
						if lowS(n.Rulename) != lowS(k) {
							v = h.Viol("depgraph", "node %s is filed under %s", n.Rulename, k)
							return
						}
					}
					for _, k := range sortedKeys(deps) {
						w := deps[k]
						if x, ok := got[k]; !ok || x != w {
							if !ok && h.IsCore(k) {
								continue // core rules are included only if necessary
							}
							v = h.Viol("depgraph", "DependencyGraph of %s gives %s -> [%s], want [%s]", txt, k, x, w)
							return
						}
					}
					for _, k := range sortedKeys(got) {
						if _, ok := deps[k]; !ok {
							v = h.Viol("depgraph", "DependencyGraph of %s invents rule %s", txt, k)
							return
						}
					}
					mm := dg.Mermaid()
					edges := map[string]int{}
					for _, l := range strings.Split(mm, "\n") {
						if strings.Contains(l, "-->") {
							edges[lowS(strings.TrimSpace(l))]++
						}
					}
					for _, k := range sortedKeys(got) {
						w := got[k]
						if w == "" {
							continue
						}
						for _, d := range strings.Split(w, ",") {
							if edges[fmt.Sprintf("%s --> %s", k, d)] != 1 {
								v = h.Viol("mermaid", "Mermaid of %s has edge %s --> %s %d times", txt, k, d, edges[fmt.Sprintf("%s --> %s", k, d)])
								return
							}
							delete(edges, fmt.Sprintf("%s --> %s", k, d))
						}
					}
					if len(edges) > 0 {
						v = h.Viol("mermaid", "Mermaid of %s has extra edges %v", txt, len(edges))
						return
					}
					if g.IsDAG() != dag {
						v = h.Viol("isdag", "IsDAG() = %v for %s", !dag, txt)
						return
					}
					for _, n := range m.Names() {
						w := cyc[n]
						b, err := g.RuleContainsCycle(n)
						if err != nil || b != w {
							v = h.Viol("rule-cycle", "RuleContainsCycle(%s) = %v, %v for %s, want %v", n, b, err, txt, w)
							return
						}
						var ce *goabnf.ErrCyclicRule
						_, err = g.Regex(n, goabnf.WithMaxRegexLen(5000))
						if errors.As(err, &ce) != w {
							v = h.Viol("regex-cycle", "Regex(%s) = %v for %s, cyclic: %v", n, err, txt, w)
							return
						}
						_, err = g.TransitionGraph(n, goabnf.WithDeflateRules(true), goabnf.WithMaxNodes(3000), goabnf.WithRepetitionThreshold(40))
						if errors.As(err, &ce) != w {
							v = h.Viol("tg-cycle", "TransitionGraph(%s, deflate rules) = %v for %s, cyclic: %v", n, err, txt, w)
							return
						}
					}
					if _, err := g.RuleContainsCycle("no-such-rule"); err == nil {
						v = h.Viol("rule-cycle", "RuleContainsCycle of an unknown rule gives no error")
					}
				})
				if v != nil {
					return v
				}
				if v := h.Bad(o, "analysing"); v != nil {
					return v
				}
			}
			return nil
		},
	})

	reg(&h.Prop{
		ID: "C18", Quick: 30000, Thorough: 400000, Real: realLib, Stub: stubLib,
		Rule: "one evaluation = one seeded grammar (with or without semantic faults) validated under every schedule and compared with the faults known to be in it",
		Gen: func(r *simrt.Rand, idx int, th bool) *h.Scenario {
			c := h.SwarmCfg(r)
			c.Undef = r.Chance(.3)
			c.Uni = r.Chance(.5)
			c.Big = false
			g := h.GenGram(r, c)
			large := r.Chance(.06)
			if large {
				g, _, _ = h.Large(r, c, r.Chance(.5))
			}
			if !large && r.Chance(.12) {
				h.Rename(g, r)
			}
			for k := r.Intn(3); k > 0; k-- {
				plantSem(r, g, false)
			}
			deep := r.Chance(.06)
			if deep {
				plantSem(r, g, true)
			}
			txt := g.Text()
			direct := r.Chance(.9)
			direct = direct || large || deep
			if !large && !deep && r.Chance(.1) {
				txt = stretchNum(r, txt)
				direct = false
			}
			return &h.Scenario{Grammars: []string{txt}, Rule: g.Rules[0].Name, Scheds: h.Schedules(r, 4), Par: map[string]int64{"novalidate": 1, "direct": map[bool]int64{true: 1}[direct]}}
		},
		Exec: func(sc *h.Scenario, c *h.Ctx) *h.Violation {
			m := mustRef(sc.Grammars[0])
			p := semProblems(m)
			for k, x := range p {
				if len(x) > 0 {
					c.Probe("fault: " + k)
				}
			}
			for _, s := range sc.Scheds {
				var v *h.Violation
				o := c.Do(s, func() {
					g, err := loadGrammar(sc, m)
					if err != nil {
						v = h.Viol("grammar-rejected", "ParseABNF without validation rejected %s: %v", oneLine(sc.Grammars[0]), err)
						return
					}
					before := exact(g)
					if v = checkSemval(goabnf.SemvalABNF(g), p); v != nil {
						v.Detail += " in " + oneLine(sc.Grammars[0])
						return
					}
					if exact(g) != before {
						v = h.Viol("modified", "SemvalABNF changed %s", oneLine(sc.Grammars[0]))
					}
				})
				if v != nil {
					return v
				}
				if v := h.Bad(o, "validating"); v != nil {
					return v
				}
			}
			return nil
		},
	})
}
