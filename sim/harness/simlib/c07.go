package main

import (
	"strings"

	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

// Operations whose result is promised to be a function of their arguments.
var repOps = []string{"generate", "generate", "generate", "ast", "ast", "ast-rand", "walk", "walk", "walk-rand", "nearmiss", "nearmiss", "nearmiss-rand",
	"regex", "regex", "codegen", "codegen-abnf", "reader", "reader", "reader-compact", "expected", "forest", "forest"}

func init() {
	reg(&h.Prop{
		ID: "C07", Quick: 6000, Thorough: 600000, Real: realLib, Stub: stubLib,
		Rule: "one evaluation = 3-8 reproducible calls on 1-2 grammars, executed in two processes, forwards in one and backwards in the other, each time under two schedules with their own map orders, entropy and clock and with the grammars parsed anew: four executions of every call, whose bytes must be equal",
		Gen: func(r *simrt.Rand, idx int, th bool) *h.Scenario {
			sc := opsScenario(r, idx, 1+r.Intn(2), 6, repOps, 3+r.Intn(6))
			if sc == nil {
				return nil
			}
			for g, rule := range strings.Fields(sc.Str["rules"]) {
				sc.Ops = append(sc.Ops, h.Op{Kind: "diag", G: g, Rule: rule})
			}
			sc.Scheds = h.Schedules(r, 4)
			return sc
		},
		Child: func(mode string, sc *h.Scenario, c *h.Ctx) ([]string, *h.Violation) {
			order, from := seq(len(sc.Ops)), 0
			if mode == "b" {
				order, from = reversed(len(sc.Ops)), 1
			}
			var out []string
			for k := from; k < len(sc.Scheds); k += 2 {
				cl := newClient(sc)
				o := make([]string, len(sc.Ops))
				for _, i := range order {
					var r result
					oc := c.Do(opCfg(sc, k, i), func() { r = cl.do(sc.Ops[i]) })
					if oc.OverRun {
						c.Probe("abandoned: the call is too long for this check")
						o[i] = "overrun"
						continue
					}
					if v := h.Bad(oc, opText(sc.Ops[i])); v != nil {
						return nil, v
					}
					o[i] = r.digest
				}
				out = append(out, o...)
			}
			return out, nil
		},
		Exec: func(sc *h.Scenario, c *h.Ctx) *h.Violation {
			n := len(sc.Ops)
			if n == 0 {
				return nil
			}
			var all []string
			for _, m := range []string{"a", "b"} {
				co, v := c.Spawn("C07", m, sc)
				if v == nil {
					v = co.Viol
				}
				if v != nil {
					return v
				}
				all = append(all, co.Out...)
			}
			for i := range all {
				if a, b := all[i%n], all[i]; a != b && a != "overrun" && b != "overrun" {
					op := sc.Ops[i%n]
					return h.Viol("not-reproducible", "%s gives different results under another schedule: %s; grammar %s", opText(op), diffText(a, b), oneLine(sc.Grammars[op.G]))
				}
			}
			for _, op := range sc.Ops {
				c.Probe("op " + op.Kind)
			}
			return nil
		},
	})
}
