package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

// ---- the definition as an automaton over its elements ----

type sedge struct {
	sym string // "" is an empty move
	to  int
}

type snfa struct {
	edges  [][]sedge
	mask   int64
	m      *h.Gram
	toobig bool
	odd    bool // prose, undefined rule, count out of order
}

func (a *snfa) state() int {
	a.edges = append(a.edges, nil)
	if len(a.edges) > 1500 {
		a.toobig = true
	}
	return len(a.edges) - 1
}

func (a *snfa) edge(from int, sym string, to int) {
	a.edges[from] = append(a.edges[from], sedge{sym, to})
}

func symChr(s string, cs bool) string {
	if !cs {
		return "i" + lowS(s)
	}
	return "s" + s
}

func symNum(rng bool, vals []uint64) string { return fmt.Sprintf("n%v%v", rng, vals) }

func scalar(v uint64) bool { return v <= 0x10ffff && !(v >= 0xd800 && v <= 0xdfff) }

// elem adds the element between two states. Unmatchable numerals add nothing.
func (a *snfa) elem(e h.El, from, to int) {
	if a.toobig || a.odd {
		return
	}
	switch v := e.(type) {
	case h.Ref:
		if a.mask&4 == 0 {
			a.edge(from, "r"+lowS(v.Name), to)
			return
		}
		d := a.m.Find(v.Name)
		if d == nil {
			a.odd = true
			return
		}
		a.alt(d.Alt, from, to)
	case h.Grp:
		a.alt(v.Alt, from, to)
	case h.Opt:
		a.edge(from, "", to)
		a.alt(v.Alt, from, to)
	case h.Chr:
		if v.S == "" {
			a.edge(from, "", to)
			return
		}
		if a.mask&2 == 0 {
			a.edge(from, symChr(v.S, v.CS), to)
			return
		}
		for i, c := range v.S {
			nx := to
			if i+utf8.RuneLen(c) < len(v.S) {
				nx = a.state()
			}
			a.edge(from, "s"+string(c), nx)
			if !v.CS && c <= 'z' {
				a.edge(from, "s"+lowS(string(c)), nx)
				a.edge(from, "s"+strings.ToUpper(string(c)), nx)
			}
			from = nx
		}
	case h.Num:
		if v.Range {
			lo, hi := v.Vals[0], v.Vals[1]
			n := 0
			if a.mask&1 != 0 {
				for x := lo; x <= hi && x <= 0x10ffff; x++ {
					if scalar(x) {
						if n++; n > 150 {
							a.toobig = true
							return
						}
						a.edge(from, symNum(false, []uint64{x}), to)
					}
				}
				return
			}
			ok := false
			for x := lo; x <= hi && x <= 0x10ffff && !ok; x++ {
				ok = scalar(x)
			}
			if ok {
				a.edge(from, symNum(true, v.Vals), to)
			}
			return
		}
		for _, x := range v.Vals {
			if !scalar(x) {
				return
			}
		}
		if a.mask&1 == 0 {
			a.edge(from, symNum(false, v.Vals), to)
			return
		}
		for i, x := range v.Vals {
			nx := to
			if i+1 < len(v.Vals) {
				nx = a.state()
			}
			a.edge(from, symNum(false, []uint64{x}), nx)
			from = nx
		}
	default:
		a.odd = true
	}
}

func (a *snfa) alt(x h.Alt, from, to int) {
	for _, c := range x.Cats {
		at := from
		for _, r := range c.Reps {
			if a.toobig || a.odd {
				return
			}
			nx := a.state()
			a.rep(r, at, nx)
			at = nx
		}
		a.edge(at, "", to)
	}
}

func (a *snfa) rep(r h.Rep, from, to int) {
	if r.Max != h.Inf && r.Min > r.Max {
		a.odd = true
		return
	}
	if r.Min > 200 || r.Max != h.Inf && r.Max > 200 {
		a.toobig = true
		return
	}
	for i := 0; i < r.Min; i++ {
		nx := a.state()
		a.elem(r.El, from, nx)
		from = nx
	}
	if r.Max == h.Inf {
		loop, back := a.state(), a.state()
		a.edge(from, "", loop)
		a.elem(r.El, loop, back)
		a.edge(back, "", loop)
		a.edge(loop, "", to)
		return
	}
	for i := r.Min; i < r.Max; i++ {
		a.edge(from, "", to)
		nx := a.state()
		a.elem(r.El, from, nx)
		from = nx
	}
	a.edge(from, "", to)
}

func (a *snfa) closure(set map[int]bool) []int {
	var st, out []int
	for s := range set {
		st = append(st, s)
	}
	for len(st) > 0 {
		s := st[len(st)-1]
		st = st[:len(st)-1]
		for _, e := range a.edges[s] {
			if e.sym == "" && !set[e.to] {
				set[e.to] = true
				st = append(st, e.to)
			}
		}
	}
	for s := range set {
		out = append(out, s)
	}
	sort.Ints(out)
	return out
}

// ---- the graph ----

type gview struct {
	nodes []*goabnf.Node
	id    map[*goabnf.Node]int
	end   []bool
	sym   []string
}

func nodeSym(e goabnf.ElemItf, mask int64) (string, bool) {
	switch v := e.(type) {
	case goabnf.ElemRulename:
		return "r" + lowS(v.Name), true
	case goabnf.ElemCharVal:
		return symChr(string(v.Values), v.Sensitive), true
	case goabnf.ElemNumVal:
		var vals []uint64
		for _, e := range v.Elems {
			n, err := strconv.ParseUint(e, map[string]int{"b": 2, "d": 10, "x": 16}[lowS(v.Base)], 64)
			if err != nil {
				return "", false
			}
			vals = append(vals, n)
		}
		return symNum(v.Status == goabnf.StatRange, vals), true
	}
	return "", false
}

func viewGraph(tg *goabnf.TransitionGraph, mask int64) (*gview, *h.Violation) {
	g := &gview{id: map[*goabnf.Node]int{}}
	var st []*goabnf.Node
	add := func(n *goabnf.Node) {
		if n == nil {
			return
		}
		if _, ok := g.id[n]; ok {
			return
		}
		g.id[n] = len(g.nodes)
		g.nodes = append(g.nodes, n)
		st = append(st, n)
	}
	for _, n := range tg.Entrypoints {
		add(n)
	}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		for _, x := range n.Nexts {
			add(x)
		}
	}
	ids := map[string]bool{}
	for _, n := range g.nodes {
		if ids[n.ID] {
			return nil, h.Viol("identity", "two nodes share the identity %q", n.ID)
		}
		ids[n.ID] = true
		s, ok := nodeSym(n.Elem, mask)
		if !ok {
			return nil, h.Viol("node", "a node carries %T %v", n.Elem, n.Elem)
		}
		g.sym = append(g.sym, s)
		g.end = append(g.end, false)
	}
	for _, n := range tg.Endpoints {
		if i, ok := g.id[n]; ok {
			g.end[i] = true
		}
	}
	return g, nil
}

func keyOf(xs []int) string { return fmt.Sprint(xs) }

// spells compares the sequences the graph spells with those the definition
// allows: a shortest difference, or "".
func spells(tg *goabnf.TransitionGraph, g *gview, a *snfa, start, final, limit int) (diff string, steps int, done bool) {
	type conf struct {
		gs, as []int
		entry  bool
		word   []string
	}
	q := []conf{{nil, a.closure(map[int]bool{start: true}), true, nil}}
	seen := map[string]bool{}
	work := 0
	endEps, inEps := false, false
	for _, n := range tg.Endpoints {
		endEps = endEps || n == nil
	}
	for _, n := range tg.Entrypoints {
		inEps = inEps || n == nil
	}
	for len(q) > 0 {
		c := q[0]
		q = q[1:]
		steps++
		if work += len(c.as) + len(c.gs); steps > limit || work > 30000 {
			return "", steps, false
		}
		gAcc, aAcc := false, false
		if c.entry {
			gAcc = inEps && endEps
		}
		for _, i := range c.gs {
			gAcc = gAcc || g.end[i]
		}
		for _, s := range c.as {
			aAcc = aAcc || s == final
		}
		if gAcc != aAcc {
			return fmt.Sprintf("%q: spelled by the graph %v, by the definition %v", c.word, gAcc, aAcc), steps, true
		}
		gm, am := map[string]map[int]bool{}, map[string]map[int]bool{}
		put := func(m map[string]map[int]bool, s string, i int) {
			work++
			if m[s] == nil {
				m[s] = map[int]bool{}
			}
			m[s][i] = true
		}
		if c.entry {
			for _, n := range tg.Entrypoints {
				if n != nil {
					put(gm, g.sym[g.id[n]], g.id[n])
				}
			}
		}
		for _, i := range c.gs {
			for _, x := range g.nodes[i].Nexts {
				if x != nil {
					put(gm, g.sym[g.id[x]], g.id[x])
				}
			}
		}
		for _, s := range c.as {
			for _, e := range a.edges[s] {
				if e.sym != "" {
					put(am, e.sym, e.to)
				}
			}
		}
		syms := map[string]bool{}
		for s := range gm {
			syms[s] = true
		}
		for s := range am {
			syms[s] = true
		}
		for _, s := range sortedKeys(syms) {
			var gs []int
			for i := range gm[s] {
				gs = append(gs, i)
			}
			sort.Ints(gs)
			var as []int
			if am[s] != nil {
				as = a.closure(am[s])
			}
			if len(gs)+len(as) == 0 {
				continue
			}
			k := keyOf(gs) + "|" + keyOf(as)
			if seen[k] {
				continue
			}
			seen[k] = true
			w := append(append([]string(nil), c.word...), s)
			q = append(q, conf{gs, as, false, w})
		}
	}
	return "", steps, true
}

// mermaid compares the rendering with the graph.
func checkMermaid(tg *goabnf.TransitionGraph, g *gview) string {
	txt := tg.ToMermaid()
	want := map[string]int{}
	byID := map[string]*goabnf.Node{}
	ent, end := map[*goabnf.Node]bool{}, map[*goabnf.Node]bool{}
	for _, n := range tg.Entrypoints {
		ent[n] = true
	}
	for _, n := range tg.Endpoints {
		end[n] = true
	}
	for _, n := range g.nodes {
		byID[n.ID] = n
		for _, x := range n.Nexts {
			if x != nil {
				want[n.ID+">"+x.ID]++
			}
		}
	}
	nodes := map[string]int{}
	empty := 0
	for _, l := range strings.Split(txt, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "flowchart") || strings.HasPrefix(l, "classDef") {
			continue
		}
		if f := strings.Split(l, " --> "); len(f) == 2 && byID[f[0]] != nil {
			want[f[0]+">"+f[1]]--
			continue
		}
		if strings.HasPrefix(l, "emptyNode") {
			empty++
			continue
		}
		i := strings.IndexAny(l, "([")
		if i < 0 {
			return fmt.Sprintf("has the line %q", l)
		}
		n := byID[l[:i]]
		if n == nil {
			return fmt.Sprintf("has a node that is not in the graph: %q", l)
		}
		nodes[n.ID]++
		rest := l[i:]
		isEnt := strings.HasSuffix(rest, ":::entrypoint")
		rest = strings.TrimSuffix(rest, ":::entrypoint")
		isEnd := strings.HasPrefix(rest, "(((")
		if isEnt != ent[n] || isEnd != end[n] {
			return fmt.Sprintf("shows %v as %q; entrypoint: %v, endpoint: %v", n.Elem, l, ent[n], end[n])
		}
		label := strings.TrimRight(strings.TrimLeft(rest, "(["), ")]")
		label = strings.TrimSuffix(strings.TrimPrefix(label, `"`), `"`)
		switch v := n.Elem.(type) {
		case goabnf.ElemRulename:
			if label != v.Name {
				return fmt.Sprintf("labels the rule %s %q", v.Name, label)
			}
		case goabnf.ElemNumVal:
			rest := label
			for _, e := range v.Elems {
				i := strings.Index(rest, e)
				if i < 0 {
					return fmt.Sprintf("labels the numeral %v %q", n.Elem, label)
				}
				rest = rest[i+len(e):]
			}
		case goabnf.ElemCharVal:
			for _, c := range v.Values {
				if (c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') && !strings.ContainsRune(label, c) {
					return fmt.Sprintf("labels the literal %v %q", n.Elem, label)
				}
			}
		}
	}
	for _, k := range sortedKeys(want) {
		if want[k] != 0 {
			return fmt.Sprintf("shows the link %s %d times too few", k, want[k])
		}
	}
	for _, n := range g.nodes {
		if nodes[n.ID] != 1 {
			return fmt.Sprintf("shows the node %v %d times", n.Elem, nodes[n.ID])
		}
	}
	if (empty > 0) != ent[nil] {
		return fmt.Sprintf("shows the empty node: %v, the graph has it as an entrypoint: %v", empty > 0, ent[nil])
	}
	return ""
}

func init() {
	reg(&h.Prop{
		ID: "C19", Quick: 100000, Thorough: 600000, Real: realLib, Stub: stubLib,
		Rule: "one evaluation = one seeded grammar, rule and setting of the deflate options: the graph, built under every schedule and entropy stream of the scenario, is compared as an automaton with the definition (equivalence decided over all sequences of elements), and its Mermaid text with the graph",
		Gen: func(r *simrt.Rand, idx int, th bool) *h.Scenario {
			mask := int64(r.Intn(8))
			sc := langScenario(r, idx, gopt{inputs: 0, max: 4, scheds: 2, keep: func(g *h.Gram, rule string) bool { return !g.Cyclic(rule) }, mod: func(c *h.GenCfg, r *simrt.Rand) {
				c.Recursive = r.Chance(.1)
				c.Undef = mask&4 == 0 && r.Chance(.1)
				c.Odd = r.Chance(.25)
			}})
			if sc == nil || repTotal(mustRef(sc.Grammars[0]), sc.Rule) > 60 {
				return nil
			}
			sc.Par["novalidate"] = 1
			sc.Par["mask"] = mask
			return sc
		},
		Exec: func(sc *h.Scenario, c *h.Ctx) *h.Violation {
			m := mustRef(sc.Grammars[0])
			mask := sc.Par["mask"]
			if m.Cyclic(sc.Rule) {
				return nil // refused, see C17
			}
			sem := semValid(m)
			d := m.Find(sc.Rule)
			a := &snfa{m: m, mask: mask}
			start, final := a.state(), a.state()
			if d == nil {
				return nil
			}
			a.alt(d.Alt, start, final)
			if a.odd || a.toobig {
				c.Probe("skipped: too large or not a textual grammar")
				return nil
			}
			where := fmt.Sprintf("rule %s of %s (options %d)", sc.Rule, oneLine(sc.Grammars[0]), mask)
			for _, s := range sc.Scheds {
				var v *h.Violation
				o := c.Do(s, func() {
					g, err := loadGrammar(sc, m)
					if err != nil {
						v = h.Viol("grammar-rejected", "ParseABNF rejected %s: %v", oneLine(sc.Grammars[0]), err)
						return
					}
					tg, err := g.TransitionGraph(sc.Rule, goabnf.WithDeflateNumVals(mask&1 != 0), goabnf.WithDeflateCharVals(mask&2 != 0), goabnf.WithDeflateRules(mask&4 != 0), goabnf.WithMaxNodes(400))
					if err != nil {
						c.Probe("refused")
						if !sizeErr(err) && (sem || mask&4 == 0) {
							v = h.Viol("refused", "TransitionGraph refused %s: %v", where, err)
						}
						return
					}
					gv, gviol := viewGraph(tg, mask)
					if gviol != nil {
						gviol.Detail += " in the graph of " + where
						v = gviol
						return
					}
					diff, _, done := spells(tg, gv, a, start, final, 4000)
					if !done {
						c.Probe("equivalence not decided: too many subsets")
					} else {
						c.Probe("equivalence decided")
					}
					if diff != "" {
						v = h.Viol("spells", "the graph of %s differs from the definition on %s", where, diff)
						return
					}
					links := 0
					for _, n := range gv.nodes {
						links += len(n.Nexts)
					}
					if links > 400 {
						c.Probe("rendering not compared: too many links")
						return
					}
					if d := checkMermaid(tg, gv); d != "" {
						v = h.Viol("mermaid", "ToMermaid of %s %s", where, d)
					}
				})
				if v != nil {
					return v
				}
				if v := h.Bad(o, "the transition graph"); v != nil {
					v.Detail += " on " + where
					return v
				}
			}
			return nil
		},
	})
}
