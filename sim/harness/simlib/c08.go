package main

import (
	"math/rand"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

// hasFeature reports whether a rule reachable from rule has an element f likes.
func hasFeature(m *h.Gram, rule string, f func(h.Rep) bool) bool {
	for n := range m.Reach(rule) {
		d := m.Find(n)
		if d == nil {
			continue
		}
		hit := false
		h.WalkAlt(d.Alt, func(r h.Rep) { hit = hit || f(r) })
		if hit {
			return true
		}
	}
	return false
}

func hasUndefined(m *h.Gram, rule string) bool {
	return hasFeature(m, rule, func(r h.Rep) bool {
		v, ok := r.El.(h.Ref)
		return ok && m.Find(v.Name) == nil
	})
}

// plainRule: every reachable rule is defined and productive, no element of it is
// one that no text can match, so a generator has no reason to refuse it.
func plainRule(m *h.Gram, rule string) bool {
	prod := h.Productive(m)
	for n := range m.Reach(rule) {
		if m.Find(n) == nil || !prod[n] {
			return false
		}
	}
	return !hasFeature(m, rule, func(r h.Rep) bool {
		switch v := r.El.(type) {
		case h.Prose:
			return true
		case h.Num:
			return !numMatches(v)
		}
		return r.Max != h.Inf && r.Max < r.Min
	})
}

func numMatches(v h.Num) bool {
	g := &h.Gram{Rules: []*h.RuleDef{{Name: "a", Alt: h.Alt{Cats: []h.Cat{{Reps: []h.Rep{{Min: 1, Max: 1, El: v}}}}}}}}
	return h.Productive(g)["a"]
}

func repTotal(m *h.Gram, rule string) int {
	mx := 0
	hasFeature(m, rule, func(r h.Rep) bool {
		b := r.Max
		if b == h.Inf {
			b = r.Min
		}
		mx = max(mx, b)
		return false
	})
	return mx
}

func tgOpts(sc *h.Scenario) []goabnf.TGOption {
	o := []goabnf.TGOption{goabnf.WithDeflateRules(true)}
	if sc.Par["mask"]&1 != 0 {
		o = append(o, goabnf.WithDeflateNumVals(true))
	}
	if sc.Par["mask"]&2 != 0 {
		o = append(o, goabnf.WithDeflateCharVals(true))
	}
	if n := sc.Par["maxnodes"]; n > 0 {
		o = append(o, goabnf.WithMaxNodes(int(n)))
	}
	return o
}

func tape(r *simrt.Rand) h.Bytes {
	n := r.Intn(24)
	if r.Chance(.1) {
		n = 0
	}
	b := make([]byte, n)
	m := r.Intn(4)
	for i := range b {
		switch m {
		case 0:
			b[i] = byte(r.Intn(3))
		case 1:
			b[i] = 0xff
		default:
			b[i] = byte(r.Intn(256))
		}
	}
	return b
}

// hugeRep gives a repetition a bound no generator may try to exhaust.
func hugeRep(m *h.Gram, r *simrt.Rand) {
	ss := sites(m)
	c := ss[r.Intn(len(ss))]
	if len(c.Reps) == 0 {
		return
	}
	p := &c.Reps[r.Intn(len(c.Reps))]
	huge := []int{3000, 1000000, 1 << 33, 1000000000000, 1<<62 + 1, 1<<63 - 1}[r.Intn(6)]
	p.Max = huge
	if r.Chance(.25) { // mandatory, of something that may be empty
		p.El = h.Opt{Alt: h.Alt{Cats: []h.Cat{{Reps: []h.Rep{{Min: 1, Max: 1, El: p.El}}}}}}
		p.Min = huge
		if r.Chance(.4) {
			p.Max = h.Inf
		}
	}
}

func c08Options(r *simrt.Rand, par map[string]int64) {
	pick := func(k string, vals ...int64) {
		if r.Chance(.7) {
			par[k] = vals[r.Intn(len(vals))]
		}
	}
	pick("repmax", 0, 1, 2, 3, 4, 16)
	pick("threshold", 0, 1, 2, 8, 32, 256)
	pick("maxdepth", 0, 1, 2, 5, 32)
	pick("maxlen", 0, 1, 3, 10, 60)
	pick("maxrepeat", 0, 1, 2, 4)
	pick("tglen", 0, 1, 3, 10, 60)
	pick("tgreps", 0, 1, 2, 5)
	pick("tgsteps", 0, 1, 2, 10, 100)
	par["mask"] = int64(r.Intn(4))
	par["maxnodes"] = 400
	if r.Chance(.4) {
		par["stable"] = 1
	}
}

func init() {
	kinds := []string{"gen", "gen", "ast", "ast", "astrand", "tg", "tg", "tgrand", "near", "nearrand"}
	reg(&h.Prop{
		ID: "C08", Quick: 40000, Thorough: 600000, Real: realLib, Stub: stubLib,
		Rule: "one evaluation = one seeded scenario: a grammar and a sequence of generator calls (seeds, tapes, random streams, option values), executed under every schedule of the scenario; every string returned is judged by an independent recogniser",
		Gen: func(r *simrt.Rand, idx int, th bool) *h.Scenario {
			sc := langScenario(r, idx, gopt{inputs: 1, max: 4, scheds: 2, mod: func(c *h.GenCfg, r *simrt.Rand) {
				if r.Chance(.5) {
					c.Recursive = false
				}
				c.Odd = r.Chance(.25)
				if r.Chance(.15) {
					c.Prose, c.Undef, c.TooBig = r.Chance(.6), r.Chance(.4), r.Chance(.4)
				}
			}})
			m := mustRef(sc.Grammars[0])
			if hasFeature(m, sc.Rule, func(r h.Rep) bool { return r.Min > 1000 }) {
				return nil // every word is long
			}
			if r.Chance(.06) && !exotic(sc) {
				hugeRep(m, r)
				sc.Grammars[0] = m.Text()
			}
			sc.Par["novalidate"] = 1
			c08Options(r, sc.Par)
			for n := 3 + r.Intn(6); n > 0; n-- {
				sc.Ops = append(sc.Ops, h.Op{Kind: kinds[r.Intn(len(kinds))], N: oddSeed(r, int64(r.Uint64()>>uint(1+r.Intn(62)))), Tape: tape(r)})
			}
			return sc
		},
		Exec: func(sc *h.Scenario, c *h.Ctx) *h.Violation {
			m := mustRef(sc.Grammars[0])
			rg := h.NewRef(m)
			root := rg.Rule(sc.Rule)
			probeGram(c, m, sc.Rule)
			plain := plainRule(m, sc.Rule)
			sem := semValid(m) // the graph is only built for a grammar that is valid as a whole
			acyclic := !m.Cyclic(sc.Rule)
			var outs [][]string
			memo := map[string]bool{}
			for _, s := range sc.Scheds {
				var v *h.Violation
				var got []string
				o := c.Do(s, func() { got, v = c08Run(sc, m, c, rg, root, plain, acyclic && sem, memo) })
				if v != nil {
					return v
				}
				if v := h.Bad(o, "generation"); v != nil {
					v.Detail += " on " + oneLine(sc.Grammars[0])
					return v
				}
				outs = append(outs, got)
			}
			return nil
		},
	})
}

func c08Run(sc *h.Scenario, m *h.Gram, c *h.Ctx, rg *h.RefG, root int, plain, acyclic bool, memo map[string]bool) (outs []string, v *h.Violation) {
	g, err := loadGrammar(sc, m)
	if err != nil {
		return nil, h.Viol("grammar-rejected", "ParseABNF rejected %s: %v", oneLine(sc.Grammars[0]), err)
	}
	par := func(k string) (int, bool) { x, ok := sc.Par[k]; return int(x), ok }
	var genOpts []goabnf.GenerateOption
	if x, ok := par("repmax"); ok {
		genOpts = append(genOpts, goabnf.WithRepMax(x))
	}
	if x, ok := par("threshold"); ok {
		genOpts = append(genOpts, goabnf.WithThreshold(x))
	}
	var astOpts []goabnf.ASTGenOption
	if x, ok := par("maxdepth"); ok {
		astOpts = append(astOpts, goabnf.WithMaxDepth(x))
	}
	if x, ok := par("maxlen"); ok {
		astOpts = append(astOpts, goabnf.WithMaxLen(x))
	}
	if x, ok := par("maxrepeat"); ok {
		astOpts = append(astOpts, goabnf.WithMaxRepeat(x))
	}
	var tgOptsG []goabnf.GenOption
	if x, ok := par("tglen"); ok {
		tgOptsG = append(tgOptsG, goabnf.WithMaxLength(x))
	}
	if x, ok := par("tgreps"); ok {
		tgOptsG = append(tgOptsG, goabnf.WithMaxReps(x))
	}
	if x, ok := par("tgsteps"); ok {
		tgOptsG = append(tgOptsG, goabnf.WithMaxSteps(x))
	}
	if sc.Par["stable"] == 1 {
		tgOptsG = append(tgOptsG, goabnf.WithStableAddressing())
	}
	var ag *goabnf.ASTGenerator
	var agErr error
	var tg *goabnf.Generator
	var tgErr error
	for _, op := range sc.Ops {
		var out []byte
		var err error
		word := true // must the output be a word (or a non-word)?
		what := op.Kind
		skip := false
		switch op.Kind {
		case "gen":
			what = "Generate"
			out, err = g.Generate(op.N, sc.Rule, genOpts...)
		case "ast", "astrand":
			what = "ASTGenerator"
			if ag == nil && agErr == nil {
				ag, agErr = goabnf.NewASTGenerator(g, sc.Rule, astOpts...)
			}
			if err = agErr; err == nil {
				if op.Kind == "ast" {
					out = ag.Generate(op.Tape)
				} else {
					out = ag.GenerateRand(rand.New(rand.NewSource(op.N)))
				}
			}
		default:
			what = "Generator"
			if tg == nil && tgErr == nil {
				var gr *goabnf.TransitionGraph
				gr, tgErr = g.TransitionGraph(sc.Rule, tgOpts(sc)...)
				if tgErr == nil {
					tg, tgErr = goabnf.NewGenerator(gr, tgOptsG...)
				}
			}
			if err = tgErr; err == nil {
				var ok bool
				switch op.Kind {
				case "tg":
					out = tg.Generate(op.Tape)
				case "tgrand":
					out = tg.GenerateRand(rand.New(rand.NewSource(op.N)))
				case "near":
					what, word = "NearMiss", false
					out, _, ok = tg.NearMiss(op.Tape)
					skip = !ok
				case "nearrand":
					what, word = "NearMissRand", false
					out, _, ok = tg.NearMissRand(rand.New(rand.NewSource(op.N)))
					skip = !ok
				}
			}
		}
		if err != nil {
			c.Probe(what + " refused")
			if plain && (what == "Generate" || what == "ASTGenerator" || (acyclic && !sizeErr(err))) {
				return nil, h.Viol("refused", "%s refused rule %s of %s: %v", what, sc.Rule, oneLine(sc.Grammars[0]), err)
			}
			continue
		}
		if skip {
			c.Probe("no near miss")
			continue
		}
		outs = append(outs, string(out))
		if len(out) > 300 {
			c.Probe("output too long to judge")
			continue
		}
		in, ok := memo[string(out)]
		if !ok {
			in = rg.AcceptsLong(root, out)
			memo[string(out)] = in
		}
		if in != word {
			return nil, h.Viol("wrong-word", "%s (%s seed %d tape %q options %v) returned %s, in the language: %v, rule %s of %s", what, op.Kind, op.N, string(op.Tape), sc.Par, q(out), in, sc.Rule, oneLine(sc.Grammars[0]))
		}
		c.Probe(what + " judged")
	}
	return outs, nil
}

func semValid(m *h.Gram) bool {
	for _, p := range semProblems(m) {
		if len(p) > 0 {
			return false
		}
	}
	return true
}
