package main

import (
	"math/rand"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

// A Grammar that has a past: other calls were made with it, or its owner changed
// its rules in place after such calls. Neither may show.

const (
	agedUsed   = 1 // used before
	agedEdited = 2 // used as another grammar, then given these rules
)

func drawAge(sc *h.Scenario, r *simrt.Rand) {
	if r.Chance(.08) {
		sc.Par["age"] = int64(1 + r.Intn(2))
		sc.Par["ageseed"] = int64(r.Uint64() >> 1)
	}
}

func aged(sc *h.Scenario, m *h.Gram, g *goabnf.Grammar) *goabnf.Grammar {
	if sc.Par["age"] == 0 || hasFeature(m, sc.Rule, func(r h.Rep) bool { return r.Min > 300 || r.Max > 300 }) {
		return g
	}
	r := simrt.NewRand(uint64(sc.Par["ageseed"]))
	switch sc.Par["age"] {
	case agedUsed:
		warm(g, sc, r)
	case agedEdited:
		old := mustRef(m.Text())
		for n := 1 + r.Intn(2); n > 0; n-- {
			varyGram(old, r)
		}
		og, ok := old.Build()
		if !ok {
			return g
		}
		warm(og, sc, r)
		// The owner edits the rules where they are, or puts others in their place.
		inPlace := r.Chance(.5)
		for n := range og.Rulemap {
			if g.Rulemap[n] == nil {
				delete(og.Rulemap, n)
			}
		}
		for n, rl := range g.Rulemap {
			if o := og.Rulemap[n]; o != nil && inPlace {
				o.Alternation = rl.Alternation
			} else {
				og.Rulemap[n] = rl
			}
		}
		return og
	}
	return g
}

// warm makes a few cheap calls.
func warm(g *goabnf.Grammar, sc *h.Scenario, r *simrt.Rand) {
	in := []byte("ab")
	if len(sc.Inputs) > 0 {
		in = append([]byte(nil), sc.Inputs[r.Intn(len(sc.Inputs))]...)
	}
	if len(in) > 5 {
		in = in[:5]
	}
	for n := 2 + r.Intn(4); n > 0; n-- {
		switch r.Intn(12) {
		case 0, 1:
			g.IsValid(sc.Rule, in)
		case 2:
			if f, err := goabnf.ParseForest(in, g, sc.Rule, goabnf.WithMaxForestNodes(2000)); err == nil {
				f.NumTrees()
				f.Tree()
				f.ParseError()
			}
		case 3:
			if f, err := goabnf.ParseBSR(in[:min(len(in), 3)], g, sc.Rule); err == nil {
				f.NumTrees()
				f.Tree()
			}
		case 4:
			g.Regex(sc.Rule, goabnf.WithMaxRegexLen(300))
		case 5:
			g.TransitionGraph(sc.Rule, goabnf.WithMaxNodes(60), goabnf.WithRepetitionThreshold(8), goabnf.WithDeflateRules(r.Chance(.7)))
		case 6:
			g.RuleContainsCycle(sc.Rule)
			g.IsDAG()
			g.DependencyGraph()
		case 7:
			_ = g.String()
			_ = g.PrettyPrint()
		case 8:
			goabnf.SemvalABNF(g)
		case 9:
			g.Generate(int64(r.Intn(100)), sc.Rule, goabnf.WithThreshold(5))
		case 10:
			if a, err := goabnf.NewASTGenerator(g, sc.Rule, goabnf.WithMaxLen(5)); err == nil {
				a.GenerateRand(rand.New(rand.NewSource(int64(r.Intn(100)))))
			}
		case 11:
			if tg, err := g.TransitionGraph(sc.Rule, goabnf.WithMaxNodes(60), goabnf.WithRepetitionThreshold(8), goabnf.WithDeflateRules(true)); err == nil {
				if gg, err := goabnf.NewGenerator(tg); err == nil {
					gg.Generate([]byte{1, 2, 3})
					gg.ExpectedNext(in)
				}
			}
		}
	}
}
