package main

import (
	"encoding/json"
	"fmt"

	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

// Operations on shared objects; parsing of new grammars goes on beside them.
var sharedOps = append(append([]string{}, readOps...), "parse", "parse", "parse-text", "evaluate", "codegen-abnf", "meta-isvalid",
	"forest-again", "forest-again", "bsr-again", "bsr-again", "expected", "expected", "nearmiss", "walk", "walk", "ast", "reader", "reader-compact")

// together runs the tasks of the scenario concurrently on one client under
// schedule s and returns their results.
func together(sc *h.Scenario, c *h.Ctx, s simrt.Config) ([][]string, simrt.Outcome, *h.Violation) {
	cl := newClient(sc)
	setup := s
	setup.Gap, setup.Explicit, setup.Preempts = 0, false, nil
	setup.Budget = 60_000_000
	if o := c.Do(setup, func() { cl.prepare(sc.Tasks) }); o.OverRun {
		c.Probe("abandoned: the objects are too large for this check")
		return nil, o, nil
	} else if v := h.Bad(o, "building the shared objects"); v != nil {
		return nil, o, v
	}
	races := simrt.RaceErrors()
	out := make([][]string, len(sc.Tasks))
	var fns []func()
	for i, t := range sc.Tasks {
		out[i] = make([]string, len(t))
		fns = append(fns, func() {
			for k, op := range t {
				r := cl.do(op)
				out[i][k] = r.digest
				if r.scribble != nil && op.N&4 != 0 {
					r.scribble() // what a task got is its own
				}
			}
		})
	}
	s.Budget = 60_000_000
	o := c.Par(s, fns...)
	if n := simrt.RaceErrors() - races; n > 0 {
		return nil, o, h.Viol("data-race", "%d data races between the tasks", n)
	}
	if o.OverRun {
		c.Probe("abandoned: the calls are too long for this check")
		return nil, o, nil
	}
	return out, o, h.Bad(o, "tasks sharing grammars and objects")
}

func tasksText(sc *h.Scenario) string {
	s := ""
	for i, t := range sc.Tasks {
		s += fmt.Sprintf(" task %d:", i)
		for _, op := range t {
			s += " " + opText(op)
		}
	}
	return s
}

func init() {
	reg(&h.Prop{
		ID: "C06", Quick: 1600, Thorough: 300000, Real: realLib, Stub: stubLib,
		Rule: "one evaluation = one process: shared grammars, graphs, generators and forests are built, then 2-4 tasks of 1-5 calls each run over them under a seeded preemptive schedule at statement granularity (first on a cold process, then under a second schedule), with Go's race detector watching; every result is compared with the one the call gives alone",
		Gen: func(r *simrt.Rand, idx int, th bool) *h.Scenario {
			sc := opsScenario(r, idx, 1+r.Intn(2), 3, sharedOps, 0)
			if sc == nil {
				return nil
			}
			// few kinds per scenario, so that tasks meet in the same code
			var kinds []string
			for i := 0; i < 1+r.Intn(4); i++ {
				kinds = append(kinds, sharedOps[r.Intn(len(sharedOps))])
			}
			for t := 0; t < 2+r.Intn(3); t++ {
				var ops []h.Op
				for k := 0; k < 1+r.Intn(5); k++ {
					ops = append(ops, drawOp(sc, r, kinds))
				}
				sc.Tasks = append(sc.Tasks, ops)
			}
			sc.Scheds = h.Schedules(r, 2)
			for i := range sc.Scheds {
				sc.Scheds[i].Gap = []int{3, 20, 100, 400, 2000}[r.Intn(5)]
				sc.Scheds[i].Fair = r.Chance(.2)
			}
			return sc
		},
		// The decisions of a failing schedule, as a list the minimiser can cut.
		Pin: func(sc *h.Scenario) *h.Scenario {
			c := h.NewCtx()
			co, v := c.Spawn("C06", "record", sc)
			if v != nil || len(co.Out) != len(sc.Scheds) {
				return nil
			}
			for i, o := range co.Out {
				var p []simrt.Preempt
				if json.Unmarshal([]byte(o), &p) != nil {
					return nil
				}
				s := &sc.Scheds[i]
				s.Explicit, s.Preempts, s.Gap = true, p, 0
			}
			return sc
		},
		Child: func(mode string, sc *h.Scenario, c *h.Ctx) ([]string, *h.Violation) {
			if mode == "record" {
				var out []string
				for _, s := range sc.Scheds {
					_, o, _ := together(sc, c, s)
					b, _ := json.Marshal(o.Preempts)
					out = append(out, string(b))
				}
				return out, nil
			}
			var all [][][]string
			for _, s := range sc.Scheds {
				out, _, v := together(sc, c, s)
				if v != nil {
					return nil, v
				}
				if out != nil {
					all = append(all, out)
				}
			}
			if len(all) == 0 {
				return nil, nil
			}
			// alone: one client per call
			for i, t := range sc.Tasks {
				for k, op := range t {
					cl := newClient(sc)
					var r result
					o := c.Do(simrt.Config{Seed: 1, Entropy: 1, Budget: 60_000_000}, func() { r = cl.do(op) })
					if o.OverRun {
						continue
					}
					if v := h.Bad(o, opText(op)); v != nil {
						return nil, v
					}
					for n := range all {
						if all[n][i][k] != r.digest {
							return nil, h.Viol("interference", "task %d call %d, %s: alone and concurrently it returns %s; %s; grammar %s", i, k, opText(op), diffText(r.digest, all[n][i][k]), tasksText(sc), oneLine(sc.Grammars[op.G]))
						}
					}
				}
			}
			return nil, nil
		},
		Exec: func(sc *h.Scenario, c *h.Ctx) *h.Violation {
			if len(sc.Tasks) == 0 {
				return nil
			}
			co, v := c.Spawn("C06", "", sc)
			if v == nil {
				v = co.Viol
			}
			if v != nil {
				return v
			}
			for _, t := range sc.Tasks {
				for _, op := range t {
					c.Probe("op " + op.Kind)
				}
			}
			return nil
		},
	})
}
