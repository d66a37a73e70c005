package main

import (
	"errors"
	"fmt"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

// ruleText is the rule name in a random letter case.
func caseMix(r *simrt.Rand, s string) string {
	if !r.Chance(.25) {
		return s
	}
	b := []byte(s)
	for i, c := range b {
		if r.Chance(.5) {
			if c >= 'a' && c <= 'z' {
				b[i] = c - 32
			} else if c >= 'A' && c <= 'Z' {
				b[i] = c + 32
			}
		}
	}
	return string(b)
}

type gopt struct {
	mod    func(c *h.GenCfg, r *simrt.Rand)
	inputs int
	max    int
	scheds int
	text   bool // can be written as ABNF
	small  bool // never large
	halved bool // large ones half as large
	keep   func(g *h.Gram, rule string) bool
}

// langScenario draws a grammar, a root rule, inputs and schedules.
func langScenario(r *simrt.Rand, idx int, o gopt) *h.Scenario {
	for try := 0; try < 40; try++ {
		c := h.SwarmCfg(r)
		if o.mod != nil {
			o.mod(&c, r)
		}
		var g *h.Gram
		large, long, max := false, false, o.max
		if !o.small && r.Chance(.06) {
			g, max, long = h.Large(r, c, o.halved)
			large = true
		} else if r.Chance(.3) {
			g = h.Template(r, c)
		} else {
			g = h.GenGram(r, c)
		}
		if !large && r.Chance(.2) {
			h.Stretch(g, r)
		}
		if !large && r.Chance(.12) {
			h.RedefCore(g, r)
		}
		if !large && r.Chance(.12) {
			h.Rename(g, r)
		}
		rule := g.Rules[0].Name
		if r.Chance(.2) {
			rule = g.Rules[r.Intn(len(g.Rules))].Name
		} else if r.Chance(.02) {
			rule = h.CoreNames[r.Intn(len(h.CoreNames))]
		}
		if o.keep != nil && !o.keep(g, rule) {
			continue
		}
		txt := g.Text()
		exotic := !o.text && !large && !c.Prose && r.Chance(.04)
		if exotic {
			txt += h.ExoticMark
			g = h.Exotic(g)
		}
		sc := &h.Scenario{Grammars: []string{txt}, Rule: caseMix(r, rule), Par: map[string]int64{}}
		if c.Undef || c.Prose {
			sc.Par["novalidate"] = 1
		}
		for _, w := range h.LongInputs(g, r, rule, c.Alpha, o.inputs, max, long) {
			sc.Inputs = append(sc.Inputs, h.Bytes(w))
		}
		if large || exotic || r.Chance(.85) {
			sc.Par["direct"] = 1
		}
		sc.Scheds = h.Schedules(r, o.scheds)
		if !large && !exotic {
			drawAge(sc, r)
		}
		return sc
	}
	return nil
}

func abnfOpts(sc *h.Scenario) []goabnf.ABNFOption {
	var opts []goabnf.ABNFOption
	if sc.Par["novalidate"] == 1 {
		opts = append(opts, goabnf.WithValidation(false))
	}
	if mustRef(sc.Grammars[0]).Redefines() {
		opts = append(opts, goabnf.WithRedefineCoreRules(true))
	}
	return opts
}

// loadGrammar gives the code under test its grammar: parsed from text, or (par
// direct) built as an AST.
func loadGrammar(sc *h.Scenario, m *h.Gram) (*goabnf.Grammar, error) {
	if sc.Par["direct"] == 1 {
		if g, ok := m.Build(); ok {
			return aged(sc, m, g), nil
		}
	}
	g, err := goabnf.ParseABNF([]byte(sc.Grammars[0]), abnfOpts(sc)...)
	if err != nil {
		return nil, err
	}
	return aged(sc, m, g), nil
}

func mustRef(text string) *h.Gram {
	g, err := h.RefRead(text)
	if err != nil {
		panic(fmt.Sprintf("harness: model grammar does not parse: %v\n%s", err, text))
	}
	return g
}

func exotic(sc *h.Scenario) bool { return h.IsExotic(sc.Grammars[0]) }

func q(b []byte) string { return fmt.Sprintf("%q", string(b)) }

func oneLine(s string) string { return strings.ReplaceAll(strings.TrimSpace(s), "\r\n", " ; ") }

// probeGram counts the grammar shapes a run exercised.
func probeGram(c *h.Ctx, m *h.Gram, rule string) {
	if m.Cyclic(rule) {
		c.Probe("recursive grammar")
	}
	if m.LeftRecursive(rule) {
		c.Probe("left-recursive grammar")
	}
}

// sizeErr: the documented refusals of something too large to build.
func sizeErr(err error) bool {
	var n *goabnf.ErrMaxNodesExceeded
	var r *goabnf.ErrRegexTooLarge
	return errors.As(err, &n) || errors.As(err, &r) || errors.Is(err, goabnf.ErrRepetitionThreshold)
}
