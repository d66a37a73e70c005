package main

import (
	"fmt"
	"sort"
	"unicode/utf8"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

// variants lists the texts a node stands for, or fails beyond the limit.
func variants(e goabnf.ElemItf, limit int) ([]string, bool) {
	one := func(el h.El) ([]string, bool) {
		g := &h.Gram{Rules: []*h.RuleDef{{Name: "zz", Alt: h.Alt{Cats: []h.Cat{{Reps: []h.Rep{{Min: 1, Max: 1, El: el}}}}}}}}
		m, ok := h.Language(g, "zz", limit)
		var o []string
		for k := range m {
			o = append(o, k)
		}
		sort.Strings(o)
		return o, ok
	}
	switch v := e.(type) {
	case goabnf.ElemCharVal:
		return one(h.Chr{S: string(v.Values), CS: v.Sensitive})
	case goabnf.ElemNumVal:
		n := h.Num{Range: v.Status == goabnf.StatRange}
		for _, s := range v.Elems {
			var x uint64
			f := map[string]string{"x": "%x", "X": "%x", "d": "%d", "D": "%d", "b": "%b", "B": "%b"}[v.Base]
			if _, err := fmt.Sscanf(s, f, &x); err != nil {
				return nil, false
			}
			n.Vals = append(n.Vals, x)
		}
		return one(n)
	}
	return nil, false
}

type tgView struct {
	tg    *goabnf.TransitionGraph
	nodes []*goabnf.Node // reachable and able to finish
	live  map[*goabnf.Node]bool
	end   map[*goabnf.Node]bool
	vars  map[*goabnf.Node][]string
	edges int
	eps   bool
	total int // sum of variants
}

func viewTG(tg *goabnf.TransitionGraph, limit int) (*tgView, bool) {
	v := &tgView{tg: tg, live: map[*goabnf.Node]bool{}, end: map[*goabnf.Node]bool{}, vars: map[*goabnf.Node][]string{}}
	endEps := false
	for _, e := range tg.Endpoints {
		v.end[e] = true
		endEps = endEps || e == nil
	}
	seen := map[*goabnf.Node]bool{}
	var all []*goabnf.Node
	var rec func(n *goabnf.Node)
	rec = func(n *goabnf.Node) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		all = append(all, n)
		for _, x := range n.Nexts {
			rec(x)
		}
	}
	for _, e := range tg.Entrypoints {
		if e == nil && endEps {
			v.eps = true
		}
		rec(e)
	}
	for ch := true; ch; {
		ch = false
		for _, n := range all {
			if v.live[n] {
				continue
			}
			ok := v.end[n]
			for _, x := range n.Nexts {
				ok = ok || v.live[x]
			}
			if ok {
				v.live[n], ch = true, true
			}
		}
	}
	for _, n := range all {
		if !v.live[n] {
			continue
		}
		vs, ok := variants(n.Elem, limit)
		if !ok {
			return nil, false
		}
		v.nodes = append(v.nodes, n)
		v.vars[n] = vs
		v.total += len(vs)
		v.edges += len(v.succ(n))
	}
	return v, v.total <= 4*limit
}

func (v *tgView) succ(n *goabnf.Node) (o []*goabnf.Node) {
	dup := map[*goabnf.Node]bool{}
	for _, x := range n.Nexts {
		if x != nil && v.live[x] && !dup[x] {
			dup[x] = true
			o = append(o, x)
		}
	}
	return
}

func (v *tgView) entries() (o []*goabnf.Node) {
	dup := map[*goabnf.Node]bool{}
	for _, x := range v.tg.Entrypoints {
		if x != nil && v.live[x] && !dup[x] {
			dup[x] = true
			o = append(o, x)
		}
	}
	return
}

// trails enumerates the texts of all trails, or fails beyond the limit.
func (v *tgView) trails(limit int) (map[string]bool, bool) {
	out := map[string]bool{}
	if v.eps {
		out[""] = true
	}
	type edge struct{ a, b *goabnf.Node }
	used := map[edge]bool{}
	work := 0
	var rec func(n *goabnf.Node, pre []string) bool
	rec = func(n *goabnf.Node, pre []string) bool {
		var cur []string
		for _, p := range pre {
			for _, s := range v.vars[n] {
				if work++; work > limit {
					return false
				}
				cur = append(cur, p+s)
			}
		}
		if v.end[n] {
			for _, s := range cur {
				out[s] = true
			}
		}
		for _, x := range v.succ(n) {
			e := edge{n, x}
			if used[e] {
				continue
			}
			used[e] = true
			ok := rec(x, cur)
			used[e] = false
			if !ok {
				return false
			}
		}
		return true
	}
	for _, e := range v.entries() {
		if !rec(e, []string{""}) {
			return nil, false
		}
	}
	return out, true
}

// uses marks what the accepting walks of w go through.
func (v *tgView) uses(w string, mark map[string]bool) bool {
	type st struct {
		n *goabnf.Node
		p int
	}
	id := map[*goabnf.Node]int{}
	for i, n := range v.nodes {
		id[n] = i
	}
	good := map[st]int{} // 0 unknown, 1 yes, 2 no
	var rec func(s st) bool
	rec = func(s st) bool {
		if g := good[s]; g != 0 {
			return g == 1
		}
		good[s] = 2 // texts are never empty, so positions only grow
		ok := false
		for _, t := range v.vars[s.n] {
			if len(w)-s.p < len(t) || w[s.p:s.p+len(t)] != t {
				continue
			}
			q := s.p + len(t)
			hit := v.end[s.n] && q == len(w)
			for _, x := range v.succ(s.n) {
				if rec(st{x, q}) {
					hit = true
					mark[fmt.Sprintf("edge %d>%d", id[s.n], id[x])] = true
				}
			}
			if hit {
				ok = true
				mark[fmt.Sprintf("value %d=%q", id[s.n], t)] = true
			}
		}
		if ok {
			good[s] = 1
		}
		return ok
	}
	any := w == "" && v.eps
	if any {
		mark["empty"] = true
	}
	for _, e := range v.entries() {
		if rec(st{e, 0}) {
			any = true
		}
	}
	return any
}

func init() {
	reg(&h.Prop{
		ID: "C10", Quick: 30000, Thorough: 400000, Real: realLib, Stub: stubLib,
		Rule: "one evaluation = one seeded grammar, deflate setting, entropy stream and set of prefixes: the graph is read in both coverage modes and queried, under every schedule of the scenario",
		Gen: func(r *simrt.Rand, idx int, th bool) *h.Scenario {
			if idx%wideEvery == 77 {
				return wideScenario(r)
			}
			sc := langScenario(r, idx, gopt{inputs: 4, max: 8, scheds: 2, keep: func(g *h.Gram, rule string) bool { return !g.Cyclic(rule) }, mod: func(c *h.GenCfg, r *simrt.Rand) {
				c.Recursive = r.Chance(.05)
				c.Odd = r.Chance(.25)
			}})
			if sc == nil || repTotal(mustRef(sc.Grammars[0]), sc.Rule) > 40 {
				return nil
			}
			sc.Par["novalidate"] = 1
			sc.Par["mask"] = int64(r.Intn(4))
			sc.Par["maxnodes"] = 300
			sc.Par["rand"] = int64(r.Uint64() >> 1)
			return sc
		},
		Exec: func(sc *h.Scenario, c *h.Ctx) *h.Violation {
			if sc.Par["wide"] == 1 {
				return wideExec(sc, c)
			}
			m := mustRef(sc.Grammars[0])
			rg := h.NewRef(m)
			root := rg.Rule(sc.Rule)
			lang, finite := h.Language(m, sc.Rule, 1500)
			sem := semValid(m)
			acyclic := !m.Cyclic(sc.Rule)
			probed := rg.EdgeOctets()
			for _, s := range sc.Scheds {
				var v *h.Violation
				o := c.Do(s, func() { v = c10Run(sc, m, c, rg, root, lang, finite, sem && acyclic, probed) })
				if v != nil {
					return v
				}
				if v := h.Bad(o, "the transition graph"); v != nil {
					v.Detail += " on " + oneLine(sc.Grammars[0])
					return v
				}
			}
			return nil
		},
	})
}

func c10Run(sc *h.Scenario, m *h.Gram, c *h.Ctx, rg *h.RefG, root int, lang map[string]bool, finite, must bool, probed map[byte]bool) *h.Violation {
	g, err := loadGrammar(sc, m)
	if err != nil {
		return h.Viol("grammar-rejected", "ParseABNF rejected %s: %v", oneLine(sc.Grammars[0]), err)
	}
	where := fmt.Sprintf("rule %s of %s (deflate mask %d)", sc.Rule, oneLine(sc.Grammars[0]), sc.Par["mask"])
	tg, err := g.TransitionGraph(sc.Rule, tgOpts(sc)...)
	if err != nil {
		c.Probe("graph refused")
		if must && plainRule(m, sc.Rule) && !sizeErr(err) {
			return h.Viol("refused", "TransitionGraph refused %s: %v", where, err)
		}
		return nil
	}
	view, small := viewTG(tg, 600)
	// Covering strings, both modes.
	for mi, name := range []string{"all trails", "compact"} {
		mode := []goabnf.CoverageMode{goabnf.CoverageAllTrails, goabnf.CoverageCompact}[mi]
		cap := 4000
		var want map[string]bool
		whole := false
		if small {
			if mode == goabnf.CoverageAllTrails {
				want, whole = view.trails(3000)
			} else {
				whole = view.total <= 2000 && view.edges <= 2000
			}
		} else if mode == goabnf.CoverageCompact {
			continue
		}
		if !whole {
			cap = 60
			if mode == goabnf.CoverageCompact || !small || len(view.nodes) > 12 {
				continue // every trail of one length is walked before the next length
			}
		}
		rd := tg.Reader(goabnf.WithCoverageMode(mode))
		got := map[string]bool{}
		n := 0
		for ; n < cap && rd.Next(); n++ {
			if n%3 == 1 && !rd.Next() {
				return h.Viol("reader", "Next changed its mind without a Scan, %s, %s", name, where)
			}
			w := rd.Scan()
			if w == nil && !rd.Next() && n == 0 && lang != nil && !lang[""] {
				return h.Viol("reader", "Next was true but Scan returned nothing, %s, %s", name, where)
			}
			if got[string(w)] {
				continue
			}
			got[string(w)] = true
			in := lang[string(w)]
			if !finite {
				if len(w) > 200 {
					c.Probe("covering string too long to judge")
					continue
				}
				in = rg.AcceptsLong(root, w)
			}
			if !in {
				return h.Viol("wrong-word", "the reader (%s) produced %s, not a word of %s", name, q(w), where)
			}
		}
		if !whole {
			c.Probe("reader sampled")
			continue
		}
		if n >= cap {
			if mode == goabnf.CoverageAllTrails {
				// The same text may come from many trails: only distinct texts are bounded here.
				c.Probe("reader cap reached")
				continue
			}
			return h.Viol("reader-endless", "the reader (%s) produced %d strings without stopping, %s", name, n, where)
		}
		if rd.Next() || rd.Scan() != nil {
			return h.Viol("reader", "the reader (%s) resumed after its end, %s", name, where)
		}
		c.Probe("reader " + name + " complete")
		if mode == goabnf.CoverageAllTrails {
			for _, w := range sorted(want) {
				if !got[w] {
					return h.Viol("reader-missing", "the reader (%s) never produced %q, %s", name, w, where)
				}
			}
			loop := view.cyclic()
			if finite && !loop {
				for _, w := range sorted(lang) {
					if !got[w] {
						return h.Viol("graph-missing", "no trail of the graph is %q, a word of %s", w, where)
					}
				}
				c.Probe("whole finite language compared")
			}
			continue
		}
		mark := map[string]bool{}
		for _, w := range sorted(got) {
			if !view.uses(w, mark) {
				return h.Viol("reader-walk", "the reader (%s) produced %q, which no walk of the graph spells, %s", name, w, where)
			}
		}
		if view.eps && !mark["empty"] {
			return h.Viol("reader-missing", "the reader (%s) never produced the empty word, %s", name, where)
		}
		for i, nd := range view.nodes {
			for _, t := range view.vars[nd] {
				if !mark[fmt.Sprintf("value %d=%q", i, t)] {
					return h.Viol("reader-missing", "the reader (%s) never covered value %q of node %s, %s", name, t, nd.Elem, where)
				}
			}
			for j, x := range view.nodes {
				for _, y := range view.succ(nd) {
					if y == x && !mark[fmt.Sprintf("edge %d>%d", i, j)] {
						return h.Viol("reader-missing", "the reader (%s) never covered the edge %s > %s, %s", name, nd.Elem, x.Elem, where)
					}
				}
			}
		}
		if bound := 2*(view.total+view.edges+len(view.nodes)) + 4; n > bound {
			return h.Viol("reader-size", "the reader (%s) produced %d strings for a bound of %d, %s", name, n, bound, where)
		}
	}
	// Predictions.
	gen, err := goabnf.NewGenerator(tg)
	if err != nil {
		c.Probe("generator refused")
		if must && plainRule(m, sc.Rule) {
			return h.Viol("refused", "NewGenerator refused %s: %v", where, err)
		}
		return nil
	}
	r := simrt.NewRand(uint64(sc.Par["rand"]))
	for _, in := range sc.Inputs {
		if len(in) > 24 {
			in = in[:24]
		}
		cuts := []int{len(in)}
		if len(in) > 0 {
			cuts = append(cuts, r.Intn(len(in)))
		}
		for _, k := range cuts {
			p := []byte(in[:k])
			next, acc, ok := gen.ExpectedNext(p)
			if !ok {
				if hugeRange(m, sc.Rule) {
					c.Probe("prediction declined")
					continue
				}
				return h.Viol("next-declined", "ExpectedNext(%s) declined, %s", q(p), where)
			}
			word, viable := rg.Prefix(root, p)
			if acc != word {
				return h.Viol("next-accepts", "ExpectedNext(%s) says accepts=%v, want %v, %s", q(p), acc, word, where)
			}
			if !viable && len(next) > 0 {
				return h.Viol("next-viable", "ExpectedNext(%s) predicts %q for a prefix of no word, %s", q(p), next, where)
			}
			has := map[byte]bool{}
			for _, b := range next {
				has[b] = true
			}
			probe := map[byte]bool{}
			for b := range probed {
				probe[b] = true
			}
			for i := 0; i < 24 && len(next) > 0; i++ {
				probe[next[r.Intn(len(next))]] = true
			}
			for i := 0; i < 6; i++ {
				probe[byte(r.Intn(256))] = true
			}
			var bs []int
			for b := range probe {
				bs = append(bs, int(b))
			}
			sort.Ints(bs)
			for _, b := range bs {
				_, can := rg.Prefix(root, append(append([]byte{}, p...), byte(b)))
				if can != has[byte(b)] {
					return h.Viol("next-set", "ExpectedNext(%s) has 0x%02x: %v, want %v, %s", q(p), b, has[byte(b)], can, where)
				}
			}
			c.Probe("prediction judged")
			if !utf8.Valid(p) {
				c.Probe("prediction inside a character")
			}
		}
	}
	return nil
}

func (v *tgView) cyclic() bool {
	st := map[*goabnf.Node]int{}
	var rec func(n *goabnf.Node) bool
	rec = func(n *goabnf.Node) bool {
		switch st[n] {
		case 1:
			return true
		case 2:
			return false
		}
		st[n] = 1
		for _, x := range v.succ(n) {
			if rec(x) {
				return true
			}
		}
		st[n] = 2
		return false
	}
	for _, n := range v.nodes {
		if rec(n) {
			return true
		}
	}
	return false
}

func hugeRange(m *h.Gram, rule string) bool {
	return hasFeature(m, rule, func(r h.Rep) bool {
		v, ok := r.El.(h.Num)
		return ok && v.Range && v.Vals[1] > v.Vals[0] && v.Vals[1]-v.Vals[0] > 1<<15
	})
}

func sorted(m map[string]bool) []string {
	o := make([]string, 0, len(m))
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
