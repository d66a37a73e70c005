// Command simgen simulates generated parsers. Run with -prep it generates a pool
// of parsers into the scratch tree; rebuilt with them (instrumented like the
// library itself) it runs them against the library's own model.
package main

import (
	"fmt"
	"math/big"
	"os"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

type result interface {
	Valid() bool
	NumTrees() *big.Int
	Ambiguous() bool
	Elements() int
	tree() *goabnf.ParseTree
}

type entry struct {
	text, rule      string
	noval           bool
	broken, refused string
	setMax          func(int)
	tooLarge        func(error) bool
	parse           func([]byte) (result, error)
}

var registry []entry

func find(text, rule string) *entry {
	for i := range registry {
		if registry[i].text == text && registry[i].rule == rule {
			return &registry[i]
		}
	}
	return nil
}

func main() {
	if len(os.Args) == 5 && os.Args[1] == "-prep" {
		if err := prepMain(os.Args[2:]); err != nil {
			fmt.Fprintln(os.Stderr, "simgen: prep:", err)
			os.Exit(3)
		}
		return
	}
	h.Main(props)
}

func oneLine(s string) string { return strings.ReplaceAll(strings.TrimSpace(s), "\r\n", " ; ") }

type answer struct {
	valid, amb bool
	num        *big.Int
	elems      int
	tree       *goabnf.ParseTree
	err        error
	res        result
}

func ask(e *entry, in []byte, ord uint64) (a answer) {
	a.res, a.err = e.parse(in)
	if a.err == nil {
		a.query(ord)
	}
	return
}

// query asks everything in an order given by ord; a Result answers the same whatever
// it was asked before.
func (a *answer) query(ord uint64) {
	r, rest := simrt.NewRand(ord), []int{0, 1, 2, 3, 4}
	for len(rest) > 0 {
		i := r.Intn(len(rest))
		k := rest[i]
		rest = append(rest[:i:i], rest[i+1:]...)
		switch k {
		case 0:
			a.valid = a.res.Valid()
		case 1:
			a.num = a.res.NumTrees()
		case 2:
			a.amb = a.res.Ambiguous()
		case 3:
			a.elems = a.res.Elements()
		case 4:
			a.tree = a.res.tree()
		}
	}
}

const defaultMax = 1 << 22

var props = []*h.Prop{{
	ID: "C14", Quick: 24000, Thorough: 800000,
	Real: []string{"GenerateGoParser from /repo's working tree; the parsers it emits, compiled and instrumented at statement level"},
	Stub: []string{"Go map iterator (order chosen by the simulator)", "goroutine scheduling (cooperative scheduler)"},
	Rule: "one evaluation = one generated parser of the pool on several inputs under several schedules: Valid, NumTrees, Ambiguous and Tree are compared with an independent derivation counter and tree checker; then MaxElements is set to values around the need of each parse; in some runs several tasks parse at once",
	Gen: func(r *simrt.Rand, idx int, th bool) *h.Scenario {
		if len(registry) == 0 {
			return nil
		}
		// The rotation spreads an expensive grammar's runs over the workers.
		e := &registry[(idx+idx/len(registry))%len(registry)]
		m, err := h.RefRead(e.text)
		if err != nil {
			panic(err)
		}
		sc := &h.Scenario{Grammars: []string{e.text}, Rule: e.rule, Par: map[string]int64{"budget": int64(r.Uint64() >> 1)}}
		if e.noval {
			sc.Par["novalidate"] = 1
		}
		if m.Find(e.rule) == nil && !h.IsCore(e.rule) {
			return sc
		}
		max := 6 + r.Intn(8)
		if len(e.text) > 150 && r.Chance(.5) {
			max = 50 // long literals and concatenations
		}
		for _, w := range h.Inputs(m, r, e.rule, h.SwarmCfg(r).Alpha, 4+r.Intn(4), max) {
			sc.Inputs = append(sc.Inputs, h.Bytes(w))
		}
		sc.Scheds = h.Schedules(r, 3)
		if r.Chance(.2) {
			sc.Par["tasks"] = 1
			sc.Scheds[2].Gap = []int{3, 20, 100}[r.Intn(3)]
		}
		return sc
	},
	Exec: run14,
}}

func run14(sc *h.Scenario, c *h.Ctx) *h.Violation {
	e := find(sc.Grammars[0], sc.Rule)
	if e == nil {
		return nil
	}
	where := fmt.Sprintf("the parser generated for rule %s of %s", sc.Rule, oneLine(sc.Grammars[0]))
	if e.broken != "" { // also when refused
		return h.Viol("does-not-compile", "%s: %s", where, e.broken)
	}
	m, err := h.RefRead(sc.Grammars[0])
	if err != nil {
		panic(err)
	}
	defined := m.Find(sc.Rule) != nil || h.IsCore(sc.Rule)
	switch {
	case e.refused != "" && defined:
		return h.Viol("refused", "%s: refused, %s", where, e.refused)
	case e.refused == "" && !defined:
		return h.Viol("accepted", "%s: generated, though the grammar has no such rule", where)
	case e.refused != "":
		c.Probe("refused: no such rule")
		return nil
	}
	rg := h.NewRef(m)
	root := rg.Rule(sc.Rule)
	want := make([]*big.Int, len(sc.Inputs))
	for i, in := range sc.Inputs {
		want[i] = rg.Chart(root, in).Count(root)
		switch {
		case want[i].Sign() < 0:
			c.Probe("infinitely ambiguous")
		case want[i].Sign() == 0:
			c.Probe("rejected")
		case want[i].Cmp(big.NewInt(1)) == 0:
			c.Probe("unambiguous")
		default:
			c.Probe("finitely ambiguous")
		}
	}
	check := func(i int, a answer) *h.Violation {
		in := sc.Inputs[i]
		switch {
		case a.err != nil:
			return h.Viol("error", "%s, on %q: %v", where, in, a.err)
		case a.valid != (want[i].Sign() != 0):
			return h.Viol("valid", "%s, on %q: Valid() = %v, the language says %v", where, in, a.valid, want[i].Sign() != 0)
		case a.num.Cmp(want[i]) != 0:
			return h.Viol("numtrees", "%s, on %q: NumTrees() = %v, derivations: %v", where, in, a.num, want[i])
		case a.amb != (want[i].Sign() < 0 || want[i].Cmp(big.NewInt(1)) > 0):
			return h.Viol("ambiguous", "%s, on %q: Ambiguous() = %v with %v derivations", where, in, a.amb, want[i])
		case (a.tree == nil) != (want[i].Sign() == 0):
			return h.Viol("tree", "%s, on %q: Tree() is nil: %v, with %v derivations", where, in, a.tree == nil, want[i])
		}
		if want[i].Sign() > 0 {
			if err := rg.CheckTree(sc.Rule, in, a.tree); err != nil {
				return h.Viol("unsound-tree", "%s, on %q: %v", where, in, err)
			}
		} else if want[i].Sign() < 0 {
			if err := h.TreeSpans(a.tree, 0); err != nil {
				return h.Viol("unsound-tree", "%s, on %q: %v", where, in, err)
			}
		}
		return nil
	}
	for k, s := range sc.Scheds {
		e.setMax(defaultMax)
		if s.Gap > 0 || s.Explicit {
			// several tasks at once
			as := make([]answer, len(sc.Inputs))
			var fns []func()
			for i := range sc.Inputs {
				if i < 4 {
					fns = append(fns, func() { as[i] = ask(e, append([]byte(nil), sc.Inputs[i]...), uint64(sc.Par["budget"])+uint64(i)) })
				}
			}
			o := c.Par(s, fns...)
			if v := h.Bad(o, where); v != nil {
				return v
			}
			for i := range fns {
				if v := check(i, as[i]); v != nil {
					v.Class = "concurrent-" + v.Class
					return v
				}
			}
			c.Probe("concurrent parses")
			continue
		}
		ord := simrt.Mix(uint64(sc.Par["budget"]), uint64(k)+77)
		held := make([]answer, len(sc.Inputs))
		for i := range sc.Inputs {
			var a answer
			in := append([]byte(nil), sc.Inputs[i]...)
			o := c.Do(s, func() { a = ask(e, in, ord+uint64(i)) })
			if v := h.Bad(o, where+fmt.Sprintf(", on %q,", in)); v != nil {
				return v
			}
			if v := check(i, a); v != nil {
				return v
			}
			held[i] = a
			if string(in) != string(sc.Inputs[i]) {
				return h.Viol("input-changed", "%s changed its input", where)
			}
			// budgets
			r := simrt.NewRand(simrt.Mix(uint64(sc.Par["budget"]), uint64(i*8+k)))
			for n := 0; n < 3; n++ {
				max := r.Intn(a.elems + 3)
				if n == 0 {
					max = a.elems
				}
				if n == 1 && a.elems > 0 {
					max = a.elems - 1
				}
				if max == 0 && n > 0 {
					max = 1
				}
				e.setMax(max)
				var b answer
				o := c.Do(s, func() { b = ask(e, in, ord) })
				e.setMax(defaultMax)
				if v := h.Bad(o, where); v != nil {
					return v
				}
				if b.err != nil {
					c.Fault("element budget exhausted")
					if !e.tooLarge(b.err) {
						return h.Viol("budget-error", "%s, on %q with MaxElements %d: %v", where, in, max, b.err)
					}
					if max >= a.elems || max == 0 {
						return h.Viol("budget-spurious", "%s, on %q: ErrTooLarge with MaxElements %d, though the parse has %d elements", where, in, max, a.elems)
					}
					continue
				}
				if v := check(i, b); v != nil || b.elems != a.elems {
					return h.Viol("budget-truncated", "%s, on %q with MaxElements %d: %d elements instead of %d", where, in, max, b.elems, a.elems)
				}
			}
		}
		// the results kept from before the later parses
		for i := range held {
			a := answer{res: held[i].res}
			o := c.Do(s, func() { a.query(ord + uint64(i) + 1000) })
			if v := h.Bad(o, where); v != nil {
				return v
			}
			if v := check(i, a); v != nil || a.elems != held[i].elems {
				return h.Viol("held-result", "%s: the result of parsing %q answers differently after other parses: %v", where, sc.Inputs[i], v)
			}
		}
		c.Probe("results asked again")
	}
	return nil
}
