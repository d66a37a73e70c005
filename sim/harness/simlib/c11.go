package main

import (
	"errors"
	"fmt"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

func forestDigest(f forestLike) string {
	return fmt.Sprintf("valid=%v trees=%v ambiguous=%v hastree=%v", f.Valid(), f.NumTrees(), f.Ambiguous(), f.Tree() != nil)
}

// tgDigest numbers the nodes in discovery order: node identities are random.
func tgDigest(tg *goabnf.TransitionGraph) string {
	id := map[*goabnf.Node]int{}
	var order []*goabnf.Node
	see := func(n *goabnf.Node) int {
		if n == nil {
			return -1
		}
		if k, ok := id[n]; ok {
			return k
		}
		id[n] = len(order)
		order = append(order, n)
		return id[n]
	}
	var b strings.Builder
	for _, e := range tg.Entrypoints {
		fmt.Fprintf(&b, "in %d\n", see(e))
	}
	for i := 0; i < len(order); i++ {
		fmt.Fprintf(&b, "%d %s:", i, order[i].Elem)
		for _, x := range order[i].Nexts {
			fmt.Fprintf(&b, " %d", see(x))
		}
		b.WriteString("\n")
	}
	for _, e := range tg.Endpoints {
		if k, ok := id[e]; ok || e == nil {
			if e == nil {
				k = -1
			}
			fmt.Fprintf(&b, "out %d\n", k)
		}
	}
	return b.String()
}

// budgetOp runs an operation under a budget (0: none) and digests its result.
type budgetOp struct {
	name string
	run  func(g *goabnf.Grammar, sc *h.Scenario, n int) (string, error)
	// isLimit: err is the documented error of budget n
	isLimit func(err error, n int) bool
}

func budgetOps(sc *h.Scenario) []budgetOp {
	in := []byte{}
	if len(sc.Inputs) > 0 {
		in = sc.Inputs[0]
	}
	forest := func(err error, n int) bool {
		var e *goabnf.ErrForestTooLarge
		return errors.As(err, &e) && e.Max == n
	}
	slots := func(err error, n int) bool {
		var e *goabnf.ErrGrammarTooLarge
		return errors.As(err, &e) && e.Max == n
	}
	return []budgetOp{
		{"ParseForest/WithMaxForestNodes", func(g *goabnf.Grammar, sc *h.Scenario, n int) (string, error) {
			f, err := goabnf.ParseForest(in, g, sc.Rule, goabnf.WithMaxForestNodes(n))
			if err != nil {
				return "", err
			}
			d := forestDigest(f)
			if pe := f.ParseError(); pe != nil {
				d += " " + pe.Error()
			}
			return d, nil
		}, forest},
		{"ParseBSR/WithMaxForestNodes", func(g *goabnf.Grammar, sc *h.Scenario, n int) (string, error) {
			f, err := goabnf.ParseBSR(in, g, sc.Rule, goabnf.WithMaxForestNodes(n))
			if err != nil {
				return "", err
			}
			return forestDigest(f), nil
		}, forest},
		{"ParseForest/WithMaxSlots", func(g *goabnf.Grammar, sc *h.Scenario, n int) (string, error) {
			f, err := goabnf.ParseForest(in, g, sc.Rule, goabnf.WithMaxSlots(n))
			if err != nil {
				return "", err
			}
			return forestDigest(f), nil
		}, slots},
		{"ParseBSR/WithMaxSlots", func(g *goabnf.Grammar, sc *h.Scenario, n int) (string, error) {
			f, err := goabnf.ParseBSR(in, g, sc.Rule, goabnf.WithMaxSlots(n))
			if err != nil {
				return "", err
			}
			return forestDigest(f), nil
		}, slots},
		{"Regex/WithMaxRegexLen", func(g *goabnf.Grammar, sc *h.Scenario, n int) (string, error) {
			return g.Regex(sc.Rule, goabnf.WithMaxRegexLen(n))
		}, func(err error, n int) bool {
			var e *goabnf.ErrRegexTooLarge
			return errors.As(err, &e) && e.Max == n
		}},
		{"TransitionGraph/WithMaxNodes", func(g *goabnf.Grammar, sc *h.Scenario, n int) (string, error) {
			if n == 0 {
				// The unlimited run still gets a safety net: its own error is not a limit error.
				if _, err := g.TransitionGraph(sc.Rule, append(tgFlags(sc), goabnf.WithMaxNodes(1500), goabnf.WithRepetitionThreshold(200))...); err != nil {
					return "", fmt.Errorf("too large to try: %w", err)
				}
			}
			tg, err := g.TransitionGraph(sc.Rule, append(tgFlags(sc), goabnf.WithMaxNodes(n), goabnf.WithRepetitionThreshold(200))...)
			if err != nil {
				return "", err
			}
			return tgDigest(tg), nil
		}, func(err error, n int) bool {
			var e *goabnf.ErrMaxNodesExceeded
			return errors.As(err, &e) && e.Max == n
		}},
		{"TransitionGraph/WithRepetitionThreshold", func(g *goabnf.Grammar, sc *h.Scenario, n int) (string, error) {
			if n == 0 {
				n = 200
			}
			tg, err := g.TransitionGraph(sc.Rule, append(tgFlags(sc), goabnf.WithMaxNodes(1500), goabnf.WithRepetitionThreshold(n))...)
			if err != nil {
				return "", err
			}
			return tgDigest(tg), nil
		}, func(err error, n int) bool { return errors.Is(err, goabnf.ErrRepetitionThreshold) }},
	}
}

func tgFlags(sc *h.Scenario) []goabnf.TGOption {
	mk := sc.Par["mask"]
	return []goabnf.TGOption{goabnf.WithDeflateRules(mk&4 == 0), goabnf.WithDeflateNumVals(mk&1 != 0), goabnf.WithDeflateCharVals(mk&2 != 0)}
}

// repNeed is the threshold the reachable repetitions need.
func repNeed(m *h.Gram, rule string, expand bool) int {
	need := 0
	f := func(r h.Rep) bool {
		switch {
		case r.Max == h.Inf:
			need = max(need, r.Min)
		case r.Max == 1:
		default:
			need = max(need, r.Max)
		}
		return false
	}
	if expand {
		hasFeature(m, rule, f)
	} else if d := m.Find(rule); d != nil {
		h.WalkAlt(d.Alt, func(r h.Rep) { f(r) })
	}
	return need
}

func init() {
	reg(&h.Prop{
		ID: "C11", Quick: 40000, Thorough: 200000, Real: realLib, Stub: stubLib, Level: "fault_enumeration",
		Rule: "one evaluation = one seeded grammar and input: every limited operation is run without a limit and then with the limit at every value up to a bound and at seeded values above, under every schedule; each limited call is one injected exhaustion",
		Gen: func(r *simrt.Rand, idx int, th bool) *h.Scenario {
			if idx%hugeEvery == 33 {
				return hugeScenario(r)
			}
			sc := langScenario(r, idx, gopt{inputs: 1, max: 7, scheds: 2, mod: func(c *h.GenCfg, r *simrt.Rand) {
				c.MaxRep = 12
				if r.Chance(.6) {
					c.Recursive = false
				}
			}})
			if sc == nil {
				return nil
			}
			sc.Par["mask"] = int64(r.Intn(8))
			sc.Par["op"] = int64(r.Intn(7))
			sc.Par["rand"] = int64(r.Uint64() >> 1)
			sc.Par["novalidate"] = 1
			return sc
		},
		Exec: func(sc *h.Scenario, c *h.Ctx) *h.Violation {
			if sc.Par["huge"] > 0 {
				return hugeExec(sc, c)
			}
			m := mustRef(sc.Grammars[0])
			op := budgetOps(sc)[sc.Par["op"]]
			where := fmt.Sprintf("%s, rule %s, input %s, mask %d of %s", op.name, sc.Rule, q(firstInput(sc)), sc.Par["mask"], oneLine(sc.Grammars[0]))
			first := -1
			for si, s := range sc.Scheds {
				var v *h.Violation
				need := -1
				o := c.Do(s, func() {
					g, err := loadGrammar(sc, m)
					if err != nil {
						v = h.Viol("grammar-rejected", "ParseABNF rejected %s: %v", oneLine(sc.Grammars[0]), err)
						return
					}
					want, err := op.run(g, sc, 0)
					if err != nil {
						c.Probe("no unlimited result")
						return
					}
					var okAt, failAt = -1, 0
					try := func(n int) bool { // reports success
						got, err := op.run(g, sc, n)
						if err != nil {
							c.Fault("budget exhausted: " + op.name)
							if !op.isLimit(err, n) {
								v = h.Viol("wrong-error", "limit %d gives %v; %s", n, err, where)
								return false
							}
							failAt = max(failAt, n)
							if okAt >= 0 && n >= okAt {
								v = h.Viol("not-monotone", "limit %d is enough but %d is not; %s", okAt, n, where)
							}
							return false
						}
						c.Fault("budget sufficient: " + op.name)
						if got != want {
							v = h.Viol("truncated", "limit %d gives %q, without the limit %q; %s", n, got, want, where)
							return false
						}
						if n <= failAt {
							v = h.Viol("not-monotone", "limit %d is enough but %d is not; %s", n, failAt, where)
							return false
						}
						if okAt < 0 || n < okAt {
							okAt = n
						}
						return true
					}
					// Every value up to 40, then doubling, then the gap by bisection.
					n := 1
					hi := 40
					for ; n <= hi && v == nil; n++ {
						if try(n) && n >= okAt+3 {
							break
						}
					}
					for step := 1; v == nil && okAt < 0; step *= 2 {
						if n > 1<<24 {
							v = h.Viol("never-enough", "no limit up to %d is enough; %s", n, where)
							return
						}
						try(n)
						n += step
					}
					r := simrt.NewRand(uint64(sc.Par["rand"]))
					for v == nil && okAt-failAt > 1 {
						try(failAt + 1 + r.Intn(okAt-failAt-1))
					}
					for k := 0; k < 3 && v == nil; k++ {
						try(okAt + r.Intn(50))
						if v == nil && failAt > 0 {
							try(1 + r.Intn(failAt))
						}
					}
					if v != nil {
						return
					}
					need = okAt
					if op.name == "TransitionGraph/WithRepetitionThreshold" {
						if w := max(1, repNeed(m, sc.Rule, sc.Par["mask"]&4 == 0)); need != w {
							v = h.Viol("threshold", "a threshold of %d is the least that is enough, want %d; %s", need, w, where)
							return
						}
					}
					// Exhaustion leaves nothing behind.
					if got, err := op.run(g, sc, 0); err != nil || got != want {
						v = h.Viol("left-over", "after failed calls the unlimited call gives %q, %v, before %q; %s", got, err, want, where)
					}
				})
				if v != nil {
					return v
				}
				if v := h.Bad(o, op.name); v != nil {
					v.Detail += "; " + where
					return v
				}
				if si == 0 {
					first = need
				} else if need != first {
					return h.Viol("order-dependent", "the least sufficient limit is %d under one map order and %d under another; %s", first, need, where)
				}
				if need >= 0 {
					c.Probe("threshold found: " + op.name)
				}
			}
			return nil
		},
	})
}

func firstInput(sc *h.Scenario) []byte {
	if len(sc.Inputs) == 0 {
		return nil
	}
	return sc.Inputs[0]
}
