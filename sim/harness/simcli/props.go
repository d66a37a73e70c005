package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

var (
	realCLI = []string{"cmd/pap (main and commands) and cmd/abnf-gen, urfave/cli, package flag, package goabnf: all compiled from source"}
	stubCLI = []string{"operating system below package os: files, standard streams, signals, exit", "entropy and clock", "goroutine scheduling (cooperative)"}
)

func grammarFor(r *simrt.Rand) (text, rule string) {
	c := h.SwarmCfg(r)
	c.MaxRep = 4
	if r.Chance(.6) {
		c.Recursive = false
	}
	if c.Rules > 4 {
		c.Rules = 4
	}
	var g *h.Gram
	if r.Chance(.3) {
		g = h.Template(r, c)
	} else {
		g = h.GenGram(r, c)
	}
	if r.Chance(.1) {
		h.Rename(g, r)
	}
	text, rule = g.Text(), g.Rules[0].Name
	switch {
	case r.Chance(.06):
		text = text[:r.Intn(len(text)+1)] // cut short
	case r.Chance(.06):
		b := []byte(text)
		b[r.Intn(len(b))] = byte(r.Intn(256))
		text = string(b)
	case r.Chance(.06):
		text += "extra = undefined-rule\r\n"
	case r.Chance(.04):
		text += "DIGIT = \"x\"\r\n"
	case r.Chance(.1):
		// a grammar larger than any buffer
		for i := 0; i < 60; i++ {
			text += fmt.Sprintf("filler-%d = \"x%d\" / *3(\"y\" %%x41-5A) ; filler\r\n", i, i)
		}
	}
	if r.Chance(.05) {
		rule = "no-such-rule"
	}
	return
}

// wide reports a value range too wide to be listed value by value.
func wide(text string) bool {
	g, err := h.RefParse([]byte(text))
	return err != nil || g.MaxRange() > 300
}

func genPap(r *simrt.Rand, idx int, th bool) *h.Scenario {
	text, rule := grammarFor(r)
	sc := &h.Scenario{Grammars: []string{text}, Rule: rule, Par: map[string]int64{"planseed": int64(r.Uint64() >> 1)}, Str: map[string]string{}}
	cmd := []string{"validate", "generate", "regex", "transition-graph"}[r.Intn(4)]
	sc.Str["cmd"] = cmd
	sc.Args = []string{"pap", cmd}
	opt := func(name string, val string) {
		if r.Chance(.5) {
			sc.Args = append(sc.Args, "--"+name+"="+val)
		} else {
			sc.Args = append(sc.Args, "--"+name, val)
		}
	}
	if r.Chance(.5) {
		opt("input", "/g.abnf")
	} else if r.Chance(.2) {
		opt("input", "-")
	} else if r.Chance(.04) {
		opt("input", "/missing.abnf")
		sc.Par["missing"] = 1
	}
	if cmd == "validate" {
		if r.Chance(.4) {
			v := int64(r.Intn(2))
			sc.Args = append(sc.Args, "--sem-val="+[]string{"false", "true"}[v])
			sc.Par["semval"] = v
		}
	} else if r.Chance(.97) {
		opt("rulename", rule)
	} else {
		sc.Par["missing"] = 1 // a required flag
	}
	if cmd == "generate" {
		if r.Chance(.85) {
			s := int64(r.Uint64() >> uint(1+r.Intn(60)))
			opt("seed", strconv.FormatInt(s, 10))
			sc.Par["seed"] = s
		}
		if r.Chance(.5) {
			v := int64(r.Intn(6))
			opt("rep-max", fmt.Sprint(v))
			sc.Par["repmax"] = v
		}
		if r.Chance(.5) {
			v := int64(r.Intn(20))
			opt("threshold", fmt.Sprint(v))
			sc.Par["threshold"] = v
		}
	}
	if cmd == "transition-graph" {
		for i, n := range []string{"deflate-rules", "deflate-charvals", "deflate-numvals"} {
			if r.Chance(.4) && !(i == 2 && wide(text)) {
				switch r.Intn(4) {
				case 0:
					sc.Args = append(sc.Args, "--"+n+"=false")
				case 1:
					sc.Args = append(sc.Args, "--"+n+"=true")
					sc.Par["mask"] |= 1 << i
				default:
					sc.Args = append(sc.Args, "--"+n)
					sc.Par["mask"] |= 1 << i
				}
			}
		}
		if r.Chance(.4) {
			v := int64(r.Intn(30))
			opt("repetition-threshold", fmt.Sprint(v))
			sc.Par["repthr"] = v
		}
	}
	return sc
}

// papLib is what the library calls behind a pap command line return.
func papLib(sc *h.Scenario) (e expectation) {
	if sc.Par["missing"] == 1 {
		return
	}
	g, err := goabnf.ParseABNF([]byte(sc.Grammars[0]), abnfOpts(sc)...)
	if err != nil {
		return
	}
	switch sc.Str["cmd"] {
	case "validate":
		return expectation{OK: true, Out: []string{g.PrettyPrint() + "\n"}}
	case "regex":
		s, err := g.Regex(sc.Rule)
		return expectation{OK: err == nil, Out: []string{s + "\n"}}
	case "generate":
		var o []goabnf.GenerateOption
		if v, ok := sc.Par["repmax"]; ok {
			o = append(o, goabnf.WithRepMax(int(v)))
		}
		if v, ok := sc.Par["threshold"]; ok {
			o = append(o, goabnf.WithThreshold(int(v)))
		}
		from, to := int64(0), int64(255)
		if v, ok := sc.Par["seed"]; ok {
			from, to = v, v
		}
		for s := from; ; s++ {
			b, err := g.Generate(s, sc.Rule, o...)
			if err == nil {
				e.OK = true
				e.Out = append(e.Out, string(b)+"\n")
			} else if e.OK {
				e.Free = true
			}
			if s == to {
				return e
			}
		}
	}
	o := []goabnf.TGOption{}
	for i, f := range []func(bool) goabnf.TGOption{goabnf.WithDeflateRules, goabnf.WithDeflateCharVals, goabnf.WithDeflateNumVals} {
		if sc.Par["mask"]>>i&1 == 1 {
			o = append(o, f(true))
		}
	}
	if v, ok := sc.Par["repthr"]; ok {
		o = append(o, goabnf.WithRepetitionThreshold(int(v)))
	}
	tg, err := g.TransitionGraph(sc.Rule, o...)
	if err != nil {
		return
	}
	return expectation{OK: true, Out: []string{norm(tg.ToMermaid() + "\n")}}
}

func genGen(r *simrt.Rand, idx int, th bool) *h.Scenario {
	text, rule := grammarFor(r)
	sc := &h.Scenario{Grammars: []string{text}, Rule: rule, Par: map[string]int64{"planseed": int64(r.Uint64() >> 1)}, Str: map[string]string{"out": "-"}}
	pkg := []string{"p", "myparser", "gen_2"}[r.Intn(3)]
	sc.Args = []string{"abnf-gen"}
	for _, f := range [][2]string{{"-in", "/g.abnf"}, {"-root", rule}, {"-pkg", pkg}} {
		if r.Chance(.01) {
			sc.Par["missing"] = 1 // a required flag
			continue
		}
		sc.Args = append(sc.Args, f[0], f[1])
	}
	sc.Str["pkg"] = pkg
	switch {
	case r.Chance(.6):
		sc.Str["out"] = []string{"/out.go", "/old.go"}[r.Intn(2)]
		sc.Args = append(sc.Args, "-out", sc.Str["out"])
	case r.Chance(.3):
		sc.Args = append(sc.Args, "-out", "-")
	case r.Chance(.05):
		sc.Str["out"] = "/no/such/dir/out.go"
		sc.Args = append(sc.Args, "-out", sc.Str["out"])
		sc.Par["missing"] = 1
	}
	if r.Chance(.3) {
		sc.Args = append(sc.Args, "-no-validate")
		sc.Par["semval"] = 0
	}
	return sc
}

func genLib(sc *h.Scenario) expectation {
	if sc.Par["missing"] == 1 {
		return expectation{}
	}
	b, err := goabnf.GenerateGoParserFromABNF([]byte(sc.Grammars[0]), sc.Rule, sc.Str["pkg"], abnfOpts(sc)...)
	return expectation{OK: err == nil, Out: []string{string(b)}}
}

func register(id, program string, quick, thorough int, gen func(*simrt.Rand, int, bool) *h.Scenario, lib func(*h.Scenario) expectation, signals int) {
	delivered := func(sc *h.Scenario) func(*proc) string {
		return func(p *proc) string {
			if o := sc.Str["out"]; o != "" && o != "-" {
				if b, ok := p.Files[o]; ok {
					return b
				}
				return "(no file)"
			}
			return p.Stdout
		}
	}
	// exec runs the scenario and reports the plan that failed.
	exec := func(sc *h.Scenario, c *h.Ctx) (*h.Violation, h.Plan) {
		base0 := h.Plan{Sched: simrt.Config{Seed: 1, Entropy: uint64(sc.Par["planseed"])}}
		base, v := spawn(c, id, sc, base0)
		if v != nil {
			return v, base0
		}
		at := func(v *h.Violation, pl h.Plan) *h.Violation {
			if v != nil {
				v.Detail = fmt.Sprintf("%s with [%s]: %s; grammar %q", strings.Join(sc.Args, " "), planText(pl), v.Detail, sc.Grammars[0])
			}
			return v
		}
		if base.Hang {
			c.Probe("skipped: the command works too long for this check")
			return nil, base0
		}
		out := delivered(sc)
		if v := judge(base, base, base0, out); v != nil {
			return at(v, base0), base0
		}
		co, v := c.Spawn(id, "lib", sc)
		if v != nil {
			return v, base0
		}
		var e expectation
		json.Unmarshal([]byte(co.Out[0]), &e)
		if !e.Free {
			if e.OK != (base.Code == 0) {
				return at(h.Viol("verdict", "exit status %d (%s), but the library call succeeds: %v", base.Code, strings.TrimSpace(base.Stderr), e.OK), base0), base0
			}
			if e.OK {
				hit := false
				for _, o := range e.Out {
					hit = hit || o == norm(out(base))
				}
				if !hit {
					return at(h.Viol("wrong-output", "the output is not what the library call returns: %q", tailOf(out(base))), base0), base0
				}
			}
		}
		if base.Code == 0 {
			c.Probe("fault-free success")
		} else {
			c.Probe("fault-free failure")
		}
		if base.Steps > processBudget/4 {
			c.Probe("skipped: the command works too long for this check")
			return nil, base0
		}
		ps := sc.Plans
		if len(ps) == 0 {
			ps = plans(simrt.NewRand(uint64(sc.Par["planseed"])), base, signals, signals > 0)
		}
		for _, pl := range ps {
			pl.Sched.Entropy = base0.Sched.Entropy
			p, v := spawn(c, id, sc, pl)
			if v != nil {
				return at(v, pl), pl
			}
			if v := judge(base, p, pl, out); v != nil {
				return at(v, pl), pl
			}
			if signals > 0 && p.Delivered > 0 && pl.Sched.Fair && !pl.Sched.Explicit && len(pl.Signals) > 0 {
				// Every task runs within a few time slices, so the process is gone
				// soon after the signal.
				if bound := p.At + int64(pl.Sched.Gap)*32*16 + 2000; p.Steps > bound && len(pl.Faults) == 0 {
					return at(h.Viol("signal-ignored", "the signal of step %d had not ended the process by step %d (exit status %d)", p.At, p.Steps, p.Code), pl), pl
				}
				c.Probe("ended by a signal")
			}
			if p.Code != 0 {
				c.Probe("failed under faults")
			} else {
				c.Probe("succeeded under faults")
			}
		}
		return nil, base0
	}
	props = append(props, &h.Prop{
		ID: id, Quick: quick, Thorough: thorough, Real: realCLI, Stub: stubCLI, Level: "fault_enumeration",
		Rule: "one evaluation = one command line on one grammar: a fault-free process (compared with the library call behind it), then one process per I/O call it makes with an error (or short read) injected at that call, plus seeded combinations and signals at seeded steps; each simulated process is a process of its own",
		Gen:  gen,
		Pin: func(sc *h.Scenario) *h.Scenario {
			if v, pl := exec(sc, h.NewCtx()); v != nil && len(sc.Plans) == 0 {
				sc.Plans = []h.Plan{pl}
				return sc
			}
			return nil
		},
		Child: func(mode string, sc *h.Scenario, c *h.Ctx) ([]string, *h.Violation) {
			if mode == "lib" {
				var e expectation
				o := c.Do(simrt.Config{Seed: 1, Entropy: uint64(sc.Par["planseed"]), Budget: 200_000_000}, func() { e = lib(sc) })
				if o.OverRun || o.Panic != "" {
					e = expectation{Free: true}
				}
				b, _ := json.Marshal(e)
				return []string{string(b)}, nil
			}
			return runProcess(program, sc, sc.Plans[0], c), nil
		},
		Exec: func(sc *h.Scenario, c *h.Ctx) *h.Violation {
			v, _ := exec(sc, c)
			return v
		},
	})
}

func init() {
	register("C12", "pap", 700, 100000, genPap, papLib, 5)
	register("C13", "abnf-gen", 1000, 100000, genGen, genLib, 1)
}
