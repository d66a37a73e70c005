package main

import (
	"errors"
	"fmt"
	"math"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

// Huge counts: a repetition whose node count does not fit an integer, with a
// repetition threshold that lets it through. The node budget alone has to stop it.

// hugeEvery: one in so many runs of C11 is a huge one.
const hugeEvery = 50

func hugeScenario(r *simrt.Rand) *h.Scenario {
	k := r.Intn(13)
	elem := ""
	switch {
	case k == 0:
		elem = []string{`""`, `[""]`, `("" / "")`, `%xD800-DFFF`, `(*"")`}[r.Intn(5)]
	default:
		var parts []string
		for i := 0; i < k; i++ {
			parts = append(parts, fmt.Sprintf("%%x%X", 0x61+i))
		}
		elem = "(" + strings.Join(parts, []string{" ", " / "}[r.Intn(2)]) + ")"
	}
	var n uint64
	switch r.Intn(4) {
	case 0:
		n = 1 << uint(20+r.Intn(43))
	case 1: // the product wraps around to something small
		n = math.MaxUint64/uint64(max(k, 1)) + uint64(r.Intn(3))
	case 2:
		n = math.MaxInt64 - uint64(r.Intn(3))
	case 3:
		n = 10000 + uint64(r.Intn(100000))
	}
	if n > math.MaxInt64 || n < 10000 {
		n = 1<<62 + uint64(r.Intn(2))
	}
	rep := ""
	switch r.Intn(5) {
	case 0:
		rep = fmt.Sprintf("*%d%s", n, elem)
	case 1:
		rep = fmt.Sprintf("%d%s", n, elem)
	case 2:
		rep = fmt.Sprintf("%d*%s", n, elem)
	case 3:
		rep = fmt.Sprintf("%d*%d%s", 1+r.Intn(4), n, elem)
	case 4:
		rep = fmt.Sprintf("%d*%d%s", n-uint64(r.Intn(3)), n, elem)
	}
	switch r.Intn(4) {
	case 0:
		rep = "2(" + rep + ")"
	case 1:
		rep = "[" + rep + "]"
	}
	txt := "a = " + rep + "\r\n"
	if r.Chance(.3) {
		txt = "a = b b\r\nb = " + rep + "\r\n"
	}
	return &h.Scenario{Grammars: []string{txt}, Rule: "a", Par: map[string]int64{"fixed": 1, "huge": int64(k) + 1, "max": 1 + int64(r.Intn(3000)), "mask": int64(r.Intn(4)), "direct": int64(r.Intn(2)), "novalidate": 1}, Scheds: h.Schedules(r, 2)}
}

func hugeExec(sc *h.Scenario, c *h.Ctx) *h.Violation {
	m := mustRef(sc.Grammars[0])
	n := int(sc.Par["max"])
	where := fmt.Sprintf("WithMaxNodes(%d), mask %d of %s", n, sc.Par["mask"], oneLine(sc.Grammars[0]))
	for _, s := range sc.Scheds {
		var v *h.Violation
		o := c.Do(s, func() {
			g, err := loadGrammar(sc, m)
			if err != nil {
				v = h.Viol("grammar-rejected", "ParseABNF rejected %s: %v", oneLine(sc.Grammars[0]), err)
				return
			}
			tg, err := g.TransitionGraph(sc.Rule, append(tgFlags(sc), goabnf.WithMaxNodes(n), goabnf.WithRepetitionThreshold(math.MaxInt))...)
			var e *goabnf.ErrMaxNodesExceeded
			switch {
			case sc.Par["huge"] > 1:
				if !errors.As(err, &e) || e.Max != n {
					v = h.Viol("wrong-error", "a graph of too many nodes gives %v; %s", err, where)
				}
				c.Fault("budget exhausted: TransitionGraph/WithMaxNodes, huge count")
			case err != nil:
				if !errors.As(err, &e) || e.Max != n {
					v = h.Viol("wrong-error", "a graph without nodes gives %v; %s", err, where)
				}
			default:
				for _, x := range append(append([]*goabnf.Node(nil), tg.Entrypoints...), tg.Endpoints...) {
					if x != nil {
						v = h.Viol("truncated", "a node where nothing is matched; %s", where)
					}
				}
				c.Probe("graph without nodes")
			}
		})
		if v != nil {
			return v
		}
		if v := h.Bad(o, "TransitionGraph/WithMaxNodes"); v != nil {
			v.Detail += "; " + where
			return v
		}
	}
	return nil
}
