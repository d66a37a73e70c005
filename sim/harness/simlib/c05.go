package main

import (
	"fmt"
	"strings"

	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

// opCfg is the schedule of operation i: the same in whatever history it runs.
func opCfg(sc *h.Scenario, k, i int) simrt.Config {
	s := sc.Scheds[k%len(sc.Scheds)]
	s.Seed = simrt.Mix(s.Seed, uint64(i))
	s.Entropy = simrt.Mix(s.Entropy, uint64(i))
	s.Budget = 20_000_000
	return s
}

func diffText(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-40)
	cut := func(s string) string {
		hi := min(len(s), i+60)
		if lo > len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("...%q, now ...%q", cut(a), cut(b))
}

func opText(op h.Op) string {
	return fmt.Sprintf("%s(g%d %s in%d n%d)", op.Kind, op.G, op.Rule, op.In, op.N)
}

// watched is one thing no operation may change.
type watched struct {
	what string
	was  string
	now  func() string
}

// history runs operations order[0], order[1], ... in one process, looking after
// every call at everything that must stay as it was.
func runHistory(sc *h.Scenario, c *h.Ctx, sched int, order []int) ([]string, *h.Violation) {
	cl := newClient(sc)
	out := make([]string, len(sc.Ops))
	glob := globals()
	var keep []watched
	for n, k := range order {
		op := sc.Ops[k]
		var r result
		before := make([]string, len(cl.g))
		for i, g := range cl.g {
			if g != nil && !(op.Kind == "reparse" && op.G == i) {
				before[i] = exact(g)
			}
		}
		graphs := map[string]string{}
		if op.Kind != "reparse" {
			for _, key := range sortedKeys(cl.objs) {
				graphs[key] = cl.objText(key)
			}
		}
		o := c.Do(opCfg(sc, sched, k), func() { r = cl.do(op) })
		what := fmt.Sprintf("call %d, %s,", n, opText(op))
		if o.OverRun {
			c.Probe("abandoned: the call is too long for this check")
			return out, nil
		}
		if v := h.Bad(o, what); v != nil {
			return nil, v
		}
		out[k] = r.digest
		check := func() *h.Violation {
			if g := globals(); g != glob {
				return h.Viol("global-changed", "%s changed the ABNF meta-grammar or the core rules: %s", what, diffText(glob, g))
			}
			for i, b := range before {
				if b != "" && exact(cl.g[i]) != b {
					return h.Viol("grammar-changed", "%s changed the grammar of slot %d: %s", what, i, diffText(b, exact(cl.g[i])))
				}
			}
			for i, in := range cl.ins {
				if string(in) != string(sc.Inputs[i]) {
					return h.Viol("input-changed", "%s changed input %d: %s", what, i, diffText(string(sc.Inputs[i]), string(in)))
				}
			}
			for _, key := range sortedKeys(graphs) {
				if t := cl.objText(key); t != graphs[key] {
					return h.Viol("graph-changed", "%s changed the shared object %s: %s", what, key, diffText(graphs[key], t))
				}
			}
			for _, w := range keep {
				if t := w.now(); t != w.was {
					return h.Viol("result-changed", "%s changed what %s had returned: %s", what, w.what, diffText(w.was, t))
				}
			}
			return nil
		}
		if strings.HasPrefix(r.digest, "INPUT CHANGED") {
			return nil, h.Viol("input-changed", "%s changed the text it parsed", what)
		}
		if strings.HasPrefix(r.digest, "OVERWRITTEN") {
			return nil, h.Viol("result-changed", "%s: %s", what, r.digest)
		}
		if v := check(); v != nil {
			return nil, v
		}
		if r.scribble != nil && sc.Par["scribble"]>>uint(k)&1 == 1 {
			r.scribble()
			c.Probe("results overwritten by the caller")
			what = fmt.Sprintf("writing into the result of call %d, %s,", n, opText(op))
			if v := check(); v != nil {
				return nil, v
			}
		} else if r.live != nil {
			keep = append(keep, watched{fmt.Sprintf("call %d, %s,", n, opText(op)), r.live(), r.live})
		}
	}
	return out, nil
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func reversed(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = n - 1 - i
	}
	return out
}

var historyOps = append(append([]string{}, readOps...), "parse", "parse", "parse", "parse", "parse", "parse-text", "evaluate", "evaluate", "meta-isvalid", "codegen-abnf", "reparse", "reparse", "reader", "reader-compact")

func init() {
	reg(&h.Prop{
		ID: "C05", Quick: 5000, Thorough: 400000, Real: realLib, Stub: stubLib,
		Rule: "one evaluation = one seeded history of 4-12 API calls over 1-3 grammars, executed as one process forwards, as another backwards and, for two of its calls, as processes of their own; after every call the package globals, every grammar, graph and input, and every result still held are compared with what they were, and every call's result with the one it gives in the other processes",
		Gen: func(r *simrt.Rand, idx int, th bool) *h.Scenario {
			sc := opsScenario(r, idx, 1+r.Intn(3), 3, historyOps, 4+r.Intn(9))
			if sc == nil {
				return nil
			}
			sc.Scheds = h.Schedules(r, 2)[1:]
			sc.Par["scribble"] = int64(r.Uint64() & 0xffff)
			sc.Par["solo"] = int64(r.Intn(len(sc.Ops)))
			return sc
		},
		Child: func(mode string, sc *h.Scenario, c *h.Ctx) ([]string, *h.Violation) {
			n := len(sc.Ops)
			switch {
			case mode == "forward":
				return runHistory(sc, c, 0, seq(n))
			case mode == "backward":
				return runHistory(sc, c, 0, reversed(n))
			}
			var k int
			fmt.Sscanf(mode, "alone %d", &k)
			return runHistory(sc, c, 0, []int{k})
		},
		Exec: func(sc *h.Scenario, c *h.Ctx) *h.Violation {
			n := len(sc.Ops)
			if n == 0 {
				return nil
			}
			modes := []string{"forward", "backward"}
			for i := 0; i < 2 && i < n; i++ {
				modes = append(modes, fmt.Sprintf("alone %d", (int(sc.Par["solo"])+i*5)%n))
			}
			res := make([][]string, len(modes))
			for i, m := range modes {
				co, v := c.Spawn("C05", m, sc)
				if v == nil {
					v = co.Viol
				}
				if v != nil && v.Class != h.Abandoned {
					v.Detail = "history run " + m + ": " + v.Detail
				}
				if v != nil {
					return v
				}
				res[i] = co.Out
				for k := range sc.Ops {
					if i > 0 && res[i][k] != "" && res[0][k] != "" && res[i][k] != res[0][k] {
						return h.Viol("history", "%s returns %s depending on the calls before it (forward against %s); grammar %s", opText(sc.Ops[k]), diffText(res[0][k], res[i][k]), m, oneLine(sc.Grammars[sc.Ops[k].G]))
					}
				}
			}
			for _, op := range sc.Ops {
				c.Probe("op " + op.Kind)
			}
			return nil
		},
	})
}
