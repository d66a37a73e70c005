package main

import (
	"fmt"
	"math/rand"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

// Growth: executed statements of an operation at size k, 2k and 4k.
const (
	growRatio = 64      // doubling the size may cost at most 2^6 times the steps
	growFloor = 500_000 // steps below which growth is not judged
	// A generator draws how much it expands, up to a fixed budget of expansions:
	// two sizes compare only beyond what that budget can cost.
	growFloorGen = 30_000_000
	growBudget   = 400_000_000
)

type growOp struct {
	name string
	run  func(text string, rule string, in []byte, seed int64) error
}

func growGrammar(text string) (*goabnf.Grammar, error) {
	m := mustRef(text)
	if g, ok := m.Build(); ok {
		return g, nil
	}
	return goabnf.ParseABNF([]byte(text), goabnf.WithValidation(false), goabnf.WithRedefineCoreRules(m.Redefines()))
}

func withG(f func(g *goabnf.Grammar, rule string, in []byte, seed int64) error) func(string, string, []byte, int64) error {
	return func(text, rule string, in []byte, seed int64) error {
		g, err := growGrammar(text)
		if err != nil {
			return err
		}
		return f(g, rule, in, seed)
	}
}

func useForest(f forestLike) {
	f.Valid()
	f.NumTrees()
	f.Ambiguous()
	f.Tree()
}

var growInput = []growOp{
	{"IsValid", withG(func(g *goabnf.Grammar, rule string, in []byte, _ int64) error {
		_, err := g.IsValid(rule, in)
		return err
	})},
	{"ParseForest", withG(func(g *goabnf.Grammar, rule string, in []byte, _ int64) error {
		f, err := goabnf.ParseForest(in, g, rule)
		if err == nil {
			useForest(f)
			_ = f.ParseError()
		}
		return err
	})},
	{"ParseBSR", withG(func(g *goabnf.Grammar, rule string, in []byte, _ int64) error {
		f, err := goabnf.ParseBSR(in, g, rule)
		if err == nil {
			useForest(f)
		}
		return err
	})},
}

var growGram = append([]growOp{
	{"ParseABNF", func(text, rule string, in []byte, _ int64) error {
		g, err := goabnf.ParseABNF([]byte(text), goabnf.WithValidation(false), goabnf.WithRedefineCoreRules(true))
		if err == nil {
			_ = g.String()
			_ = g.PrettyPrint()
		}
		return err
	}},
	{"SemvalABNF", withG(func(g *goabnf.Grammar, rule string, in []byte, _ int64) error { return goabnf.SemvalABNF(g) })},
	{"dependency analysis", withG(func(g *goabnf.Grammar, rule string, in []byte, _ int64) error {
		_ = g.DependencyGraph()
		_ = g.IsDAG()
		_, err := g.RuleContainsCycle(rule)
		return err
	})},
	{"Regex", withG(func(g *goabnf.Grammar, rule string, in []byte, _ int64) error {
		_, err := g.Regex(rule, goabnf.WithMaxRegexLen(8000))
		return err
	})},
	{"TransitionGraph", withG(func(g *goabnf.Grammar, rule string, in []byte, _ int64) error {
		tg, err := g.TransitionGraph(rule, goabnf.WithDeflateRules(true), goabnf.WithMaxNodes(200))
		if err != nil {
			return err
		}
		gen, err := goabnf.NewGenerator(tg)
		if err != nil {
			return err
		}
		_ = gen.Generate(in)
		_, _, _ = gen.ExpectedNext(in)
		_, _, _ = gen.NearMiss(in)
		return nil
	})},
	{"Generate", withG(func(g *goabnf.Grammar, rule string, in []byte, seed int64) error {
		_, err := g.Generate(seed, rule)
		return err
	})},
	{"ASTGenerator", withG(func(g *goabnf.Grammar, rule string, in []byte, seed int64) error {
		ag, err := goabnf.NewASTGenerator(g, rule)
		if err == nil {
			_ = ag.Generate(nil)
			_ = ag.GenerateRand(rand.New(rand.NewSource(seed)))
		}
		return err
	})},
	{"GenerateGoParser", withG(func(g *goabnf.Grammar, rule string, in []byte, seed int64) error {
		_, err := goabnf.GenerateGoParser(g, rule, "p")
		return err
	})},
	{"ParseForest without Tree", withG(func(g *goabnf.Grammar, rule string, in []byte, _ int64) error {
		f, err := goabnf.ParseForest(in, g, rule)
		if err == nil {
			f.NumTrees()
			f.Ambiguous()
			_ = f.ParseError()
		}
		return err
	})},
	{"ParseBSR without Tree", withG(func(g *goabnf.Grammar, rule string, in []byte, _ int64) error {
		f, err := goabnf.ParseBSR(in, g, rule)
		if err == nil {
			f.Valid()
			f.NumTrees()
			f.Ambiguous()
		}
		return err
	})},
}, growInput...)

// family builds a grammar text of size d. Its shape is drawn from r, so that the
// three sizes of a scenario differ in d only when r restarts from the same seed.
func family(r *simrt.Rand, kind string, d int) string {
	leaf := []string{`"x"`, `""`, `["x"]`, `%x78`, `*"x"`, `"x" / "y"`}[r.Intn(6)]
	var b strings.Builder
	rule := func(i int) string { return fmt.Sprintf("r%d", i) }
	chain := func(f func(i int) string, last string) {
		for i := 0; i < d; i++ {
			fmt.Fprintf(&b, "%s = %s\r\n", rule(i), f(i))
		}
		fmt.Fprintf(&b, "%s = %s\r\n", rule(d), last)
	}
	switch kind {
	case "chain":
		chain(func(i int) string { return rule(i + 1) }, leaf)
	case "diamond-seq":
		chain(func(i int) string { return rule(i+1) + " " + rule(i+1) }, []string{`""`, `["x"]`, `*"x"`}[r.Intn(3)])
	case "diamond-alt":
		chain(func(i int) string { return rule(i+1) + " / " + rule(i+1) }, leaf)
	case "diamond-mixed":
		forms := []string{"%s / %s", "[%s] / %s", "*%s / %s", "(%s / %s)", `"a" %s / %s`, `%s "a" / %s "b"`, "(%s) / (%s)"}
		f := forms[r.Intn(len(forms))]
		chain(func(i int) string { return fmt.Sprintf(f, rule(i+1), rule(i+1)) }, leaf)
	case "diamond-named", "fib":
		// two different rules that meet again
		forms := []string{"%s / %s", "[%s] / %s", "*%s / %s", "(%s / %s)", `"a" %s / %s`, `%s "a" / %s "b"`, "(%s) / (%s)", "%s / [%s]", `%s / "x" / %s`}
		f := forms[r.Intn(len(forms))]
		for i := 0; i < d; i++ {
			if kind == "fib" {
				fmt.Fprintf(&b, "%s = %s\r\n", rule(i), fmt.Sprintf(f, rule(i+1), rule(min(i+2, d))))
				continue
			}
			fmt.Fprintf(&b, "%s = %s\r\n", rule(i), fmt.Sprintf(f, fmt.Sprint("p", i), fmt.Sprint("q", i)))
			fmt.Fprintf(&b, "p%d = %s\r\nq%d = %s\r\n", i, rule(i+1), i, rule(i+1))
		}
		fmt.Fprintf(&b, "%s = %s\r\n", rule(d), leaf)
	case "ladder":
		chain(func(i int) string {
			var as []string
			for j := i + 1; j <= d; j++ {
				as = append(as, rule(j))
			}
			return strings.Join(as, " / ")
		}, leaf)
	case "diamond-loop":
		last := []string{rule(d), rule(d) + ` "x"`, `"x" ` + rule(0), "nope", "<prose>"}[r.Intn(5)]
		chain(func(i int) string { return rule(i+1) + " / " + rule(i+1) }, last)
	case "left-chain":
		tail := []string{` "x"`, ``, ` "y"`}[r.Intn(3)]
		chain(func(i int) string { return rule(i+1) + " / " + rule(i) + tail }, leaf)
	case "ring":
		mid := []string{``, ` "x"`, ` ["x"]`}[r.Intn(3)]
		for i := 0; i <= d; i++ {
			fmt.Fprintf(&b, "%s = %s%s / %s\r\n", rule(i), rule((i+1)%(d+1)), mid, leaf)
		}
	case "clique":
		mid := []string{``, ` "x"`}[r.Intn(2)]
		k := 2 + d/4
		for i := 0; i < k; i++ {
			var as []string
			for j := 0; j < k; j++ {
				as = append(as, rule(j)+mid)
			}
			fmt.Fprintf(&b, "%s = %s / %s\r\n", rule(i), strings.Join(as, " / "), leaf)
		}
	case "nest":
		// ABNF source nesting is cubic at best for a general parser: keep it modest.
		s := leaf
		form := [][2]string{{"(", ")"}, {"[", "]"}, {"*(", ")"}, {"1*(", ")"}, {"( ", " / \"y\" )"}, {"*[", "]"}, {"0*2(", ")"}}[r.Intn(7)]
		for i := 0; i < d/2+1; i++ {
			s = form[0] + s + form[1]
		}
		fmt.Fprintf(&b, "r0 = %s\r\n", s)
	case "wide":
		var as []string
		for i := 0; i < d; i++ {
			as = append(as, []string{leaf, fmt.Sprintf("%%x%X", 0x41+i), fmt.Sprintf("[%%x%X]", 0x41+i)}[r.Intn(3)])
		}
		sep := []string{" / ", " "}[r.Intn(2)]
		if sep == " " {
			for i := range as {
				as[i] = "(" + as[i] + ")"
			}
		}
		fmt.Fprintf(&b, "r0 = %s\r\n", strings.Join(as, sep))
	case "options":
		fmt.Fprintf(&b, "r0 = %s\r\n", strings.TrimSpace(strings.Repeat(`["x"] `, d)))
	case "stars":
		fmt.Fprintf(&b, "r0 = %s\r\n", strings.TrimSpace(strings.Repeat(`*"x" `, min(d, 8))))
	case "comments":
		b.WriteString("r0 = \"x\"")
		for i := 0; i < d; i++ {
			b.WriteString([]string{" ; c\r\n ", "\r\n ", " ", "\t"}[r.Intn(4)])
		}
		b.WriteString("\"y\"\r\n" + strings.Repeat("\r\n", d/4))
	}
	return b.String()
}

var familyKinds = []string{"chain", "diamond-seq", "diamond-alt", "diamond-mixed", "diamond-loop", "diamond-named", "fib", "ladder", "left-chain", "ring", "clique", "nest", "wide", "options", "stars", "comments"}

func init() {
	reg(&h.Prop{
		ID: "C15", Quick: 20000, Thorough: 60000, Real: realLib, Stub: stubLib,
		Rule: "one evaluation = one operation measured at three sizes (k, 2k, 4k) of one seeded family: inputs growing for a random grammar, or a grammar family growing; the measure is the simulator's statement count",
		Gen: func(r *simrt.Rand, idx int, th bool) *h.Scenario {
			if r.Chance(.5) {
				sc := langScenario(r, idx, gopt{text: true, small: true, inputs: 3, max: 6, scheds: 1, mod: func(c *h.GenCfg, r *simrt.Rand) { c.MaxRep = 6 }})
				if sc == nil {
					return nil
				}
				// Three sizes of one input: a word (or noise) repeated.
				u := []byte("x")
				for _, in := range sc.Inputs {
					if len(in) > 0 && len(in) <= 5 && r.Chance(.7) {
						u = in
						break
					}
				}
				base := 8 + 4*r.Intn(2)
				if th {
					base = 8 + r.Intn(5)
				}
				sc.Inputs = nil
				tail := ""
				if r.Chance(.3) {
					tail = "!"
				}
				for _, n := range []int{base, 2 * base, 4 * base} {
					var s []byte
					for len(s) < n {
						s = append(s, u...)
					}
					sc.Inputs = append(sc.Inputs, h.Bytes(string(s[:n])+tail))
				}
				sc.Par["direct"], sc.Par["fixed"] = 1, 1
				sc.Par["op"] = int64(r.Intn(len(growInput)))
				return sc
			}
			kind := familyKinds[r.Intn(len(familyKinds))]
			seed := r.Uint64()
			opi := r.Intn(len(growGram))
			switch n := growGram[opi].name; {
			case kind != "diamond-seq":
			case n == "Generate" || n == "ASTGenerator" || n == "ParseForest" || n == "ParseBSR":
				kind = "diamond-mixed" // the shortest derivation itself is exponential
			}
			base := 6
			if th {
				base = 5 + r.Intn(6)
			}
			sc := &h.Scenario{Rule: "r0", Par: map[string]int64{"gram": 1, "fixed": 1, "op": int64(opi), "seed": int64(r.Uint64() >> 1)}, Scheds: h.Schedules(r, 1)}
			for _, d := range []int{base, 2 * base, 4 * base} {
				sc.Grammars = append(sc.Grammars, family(simrt.NewRand(seed), kind, d))
			}
			sc.Inputs = []h.Bytes{h.Bytes([]string{"", "x", "xy", "xxxx", "xxxxxxx!"}[r.Intn(5)])}
			return sc
		},
		Exec: func(sc *h.Scenario, c *h.Ctx) *h.Violation {
			op := growInput[int(sc.Par["op"])%len(growInput)]
			n := len(sc.Inputs)
			if sc.Par["gram"] == 1 {
				op = growGram[int(sc.Par["op"])%len(growGram)]
				n = len(sc.Grammars)
			}
			var steps []int64
			floor := int64(growFloor)
			if op.name == "Generate" || op.name == "ASTGenerator" {
				floor = growFloorGen
			}
			for k := 0; k < n; k++ {
				text, in := sc.Grammars[0], []byte(nil)
				if sc.Par["gram"] == 1 {
					text = sc.Grammars[k]
					if len(sc.Inputs) > 0 {
						in = sc.Inputs[0]
					}
				} else {
					in = sc.Inputs[k]
				}
				s := sc.Scheds[0]
				s.Budget = growBudget
				if k > 0 {
					// the ratio test below would reject anything past this
					s.Budget = min(s.Budget, max(floor, steps[k-1]*growRatio)+1)
				}
				o := c.Do(s, func() { _ = op.run(text, sc.Rule, in, sc.Par["seed"]) })
				what := fmt.Sprintf("%s at size %d of %d (steps of the smaller sizes: %v)", op.name, k+1, n, steps)
				if v := h.Bad(o, what); v != nil {
					v.Detail += fmt.Sprintf(" on rule %s of %s, input %s", sc.Rule, oneLine(text), q(in))
					return v
				}
				steps = append(steps, o.Steps)
				if k > 0 && steps[k-1] > 0 {
					ratio := float64(o.Steps) / float64(max(steps[k-1], 1))
					if o.Steps > floor {
						if ratio > 16 {
							c.Probe("growth above 16: " + op.name)
						}
						c.Probe(fmt.Sprintf("growth judged, ratio <= %d", pow2(ratio)))
					} else {
						c.Probe("below the floor")
					}
				}
			}
			c.Probe("measured " + op.name)
			return nil
		},
	})
}

func pow2(x float64) int {
	n := 1
	for float64(n) < x {
		n *= 2
	}
	return n
}
