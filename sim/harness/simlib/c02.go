package main

import (
	"math/big"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

type forestLike interface {
	Valid() bool
	NumTrees() *big.Int
	Ambiguous() bool
	Tree() *goabnf.ParseTree
}

func engines(g *goabnf.Grammar, rule string, in []byte) (map[string]forestLike, error) {
	f, err := goabnf.ParseForest(in, g, rule)
	if err != nil {
		return nil, err
	}
	b, err := goabnf.ParseBSR(in, g, rule)
	if err != nil {
		return nil, err
	}
	p, err := goabnf.Parse(in, g, rule)
	if err != nil {
		return nil, err
	}
	return map[string]forestLike{"ParseForest": f, "ParseBSR": b, "Parse": p}, nil
}

var engineNames = []string{"ParseForest", "ParseBSR", "Parse"}

func forestScenario(r *simrt.Rand, idx int) *h.Scenario {
	return langScenario(r, idx, gopt{inputs: 4 + r.Intn(3), max: 8 + r.Intn(6), scheds: 3, mod: func(c *h.GenCfg, r *simrt.Rand) {
		c.MaxRep = 20 // the forest of a counted repetition of an empty word is as large as its bound
		if r.Chance(.1) {
			c.Undef, c.Prose = true, true
		}
	}})
}

func init() {
	reg(&h.Prop{
		ID: "C02", Quick: 40000, Thorough: 700000, Real: realLib, Stub: stubLib,
		Rule: "one evaluation = one seeded scenario (random grammar, root rule, inputs) parsed by both forest engines under every schedule of the scenario; Valid, NumTrees and Ambiguous are compared with an independent derivation counter",
		Gen: func(r *simrt.Rand, idx int, th bool) *h.Scenario {
			if idx%vlongEvery == 77 {
				return vlongScenario(r, true)
			}
			return forestScenario(r, idx)
		},
		Exec: func(sc *h.Scenario, c *h.Ctx) *h.Violation {
			if sc.Par["vlong"] > 0 {
				return vlongExec("C02", sc, c)
			}
			m := mustRef(sc.Grammars[0])
			rg := h.NewRef(m)
			root := rg.Rule(sc.Rule)
			probeGram(c, m, sc.Rule)
			want := make([]*big.Int, len(sc.Inputs))
			for i, in := range sc.Inputs {
				want[i] = rg.Chart(root, in).Count(root)
				switch {
				case want[i].Sign() < 0:
					c.Probe("infinitely ambiguous")
				case want[i].Sign() == 0:
					c.Probe("rejected")
				case want[i].IsInt64() && want[i].Int64() == 1:
					c.Probe("unambiguous")
				default:
					c.Probe("finitely ambiguous")
				}
			}
			for _, s := range sc.Scheds {
				var v *h.Violation
				o := c.Do(s, func() {
					g, err := loadGrammar(sc, m)
					if err != nil {
						v = h.Viol("grammar-rejected", "ParseABNF rejected %s: %v", oneLine(sc.Grammars[0]), err)
						return
					}
					for i, in := range sc.Inputs {
						fs, err := engines(g, sc.Rule, in)
						if err != nil {
							v = h.Viol("error", "parsing %s with %s: %v", q(in), oneLine(sc.Grammars[0]), err)
							return
						}
						for _, n := range engineNames {
							f := fs[n]
							if f.Valid() != (want[i].Sign() != 0) {
								v = h.Viol("valid", "%s(%s, %s).Valid() = %v, the language says %v, on %s", n, sc.Rule, q(in), f.Valid(), want[i].Sign() != 0, oneLine(sc.Grammars[0]))
								return
							}
							if nt := f.NumTrees(); nt.Cmp(want[i]) != 0 {
								v = h.Viol("numtrees", "%s(%s, %s).NumTrees() = %v, derivations: %v, on %s", n, sc.Rule, q(in), nt, want[i], oneLine(sc.Grammars[0]))
								return
							}
							if a, w := f.Ambiguous(), want[i].Sign() < 0 || want[i].Cmp(big.NewInt(1)) > 0; a != w {
								v = h.Viol("ambiguous", "%s(%s, %s).Ambiguous() = %v with %v derivations, on %s", n, sc.Rule, q(in), a, want[i], oneLine(sc.Grammars[0]))
								return
							}
						}
					}
				})
				if v != nil {
					return v
				}
				if v := h.Bad(o, "forest parsing"); v != nil {
					return v
				}
			}
			return nil
		},
	})

	reg(&h.Prop{
		ID: "C03", Quick: 40000, Thorough: 700000, Real: realLib, Stub: stubLib,
		Rule: "one evaluation = one seeded scenario (random grammar, root rule, inputs) parsed by both forest engines under every schedule of the scenario; every extracted tree is checked node by node against the grammar and the input",
		Gen: func(r *simrt.Rand, idx int, th bool) *h.Scenario {
			if idx%vlongEvery == 77 {
				return vlongScenario(r, true)
			}
			return forestScenario(r, idx)
		},
		Exec: func(sc *h.Scenario, c *h.Ctx) *h.Violation {
			if sc.Par["vlong"] > 0 {
				return vlongExec("C03", sc, c)
			}
			m := mustRef(sc.Grammars[0])
			rg := h.NewRef(m)
			root := rg.Rule(sc.Rule)
			probeGram(c, m, sc.Rule)
			want := make([]*big.Int, len(sc.Inputs))
			for i, in := range sc.Inputs {
				want[i] = rg.Chart(root, in).Count(root)
			}
			for _, s := range sc.Scheds {
				var v *h.Violation
				o := c.Do(s, func() {
					g, err := loadGrammar(sc, m)
					if err != nil {
						v = h.Viol("grammar-rejected", "ParseABNF rejected %s: %v", oneLine(sc.Grammars[0]), err)
						return
					}
					for i, in := range sc.Inputs {
						fs, err := engines(g, sc.Rule, in)
						if err != nil {
							v = h.Viol("error", "parsing %s with %s: %v", q(in), oneLine(sc.Grammars[0]), err)
							return
						}
						for _, n := range engineNames {
							t := fs[n].Tree()
							if want[i].Sign() == 0 {
								if t != nil {
									v = h.Viol("tree-for-nonword", "%s(%s, %s).Tree() is not nil though the input is not in the language of %s", n, sc.Rule, q(in), oneLine(sc.Grammars[0]))
								}
							} else if t == nil {
								v = h.Viol("no-tree", "%s(%s, %s).Tree() is nil though the input is in the language of %s", n, sc.Rule, q(in), oneLine(sc.Grammars[0]))
							} else if want[i].Sign() > 0 {
								c.Probe("tree checked")
								if want[i].Cmp(big.NewInt(1)) > 0 {
									c.Probe("tree of ambiguous input checked")
								}
								if err := rg.CheckTree(sc.Rule, in, t); err != nil {
									v = h.Viol("unsound-tree", "%s(%s, %s).Tree(): %v, on %s", n, sc.Rule, q(in), err, oneLine(sc.Grammars[0]))
								}
							} else {
								c.Probe("tree of infinitely ambiguous input checked")
								if err := h.TreeSpans(t, 0); err != nil {
									v = h.Viol("unsound-tree", "%s(%s, %s).Tree(): %v, on %s", n, sc.Rule, q(in), err, oneLine(sc.Grammars[0]))
								}
							}
							if v != nil {
								return
							}
						}
					}
				})
				if v != nil {
					return v
				}
				if v := h.Bad(o, "forest parsing"); v != nil {
					return v
				}
			}
			return nil
		},
	})
}
