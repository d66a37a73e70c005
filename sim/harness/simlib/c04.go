package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

// evalModel applies the rules of RFC 5234 (definition, incremental
// alternatives, core rules) to a parsed rule list. problems lists every semantic
// complaint validation may raise.
func evalModel(g *h.Gram, redefine bool) (defs string, m *h.Gram, errClass string) {
	m = &h.Gram{}
	byName := map[string]*h.RuleDef{}
	for _, r := range g.Rules {
		k := lowS(r.Name)
		if h.IsCore(k) && !redefine {
			return "", nil, "core"
		}
		if !r.Inc {
			if byName[k] != nil {
				return "", nil, "duplicate"
			}
			c := *r
			byName[k] = &c
			m.Rules = append(m.Rules, &c)
			continue
		}
		base := byName[k]
		if base == nil && h.IsCore(k) {
			c := *h.CoreRule(k)
			base = &c
			byName[k] = base
			m.Rules = append(m.Rules, base)
		}
		if base == nil {
			return "", nil, "unknown-rule"
		}
		base.Alt.Cats = append(append([]h.Cat(nil), base.Alt.Cats...), r.Alt.Cats...)
	}
	var out []string
	for k, r := range byName {
		out = append(out, k+" "+canonModelAlt(r.Alt))
	}
	sort.Strings(out)
	return strings.Join(out, "\n"), m, ""
}

// semProblems lists what SemvalABNF has to complain about, by kind.
func semProblems(m *h.Gram) map[string]map[string]bool {
	p := map[string]map[string]bool{"dep": {}, "rep": {}, "num": {}}
	for _, r := range m.Rules {
		h.WalkAlt(r.Alt, func(x h.Rep) {
			if x.Max != h.Inf && x.Min > x.Max {
				p["rep"][fmt.Sprintf("%d,%d", clampRep(x.Min), clampRep(x.Max))] = true
			}
			switch v := x.El.(type) {
			case h.Ref:
				if m.Find(v.Name) == nil {
					p["dep"][lowS(v.Name)] = true
				}
			case h.Num:
				for _, n := range v.Vals {
					if n > 0x10ffff {
						p["num"][string(rune(v.Base))] = true
					}
				}
			}
		})
	}
	return p
}

// checkSemval compares a validation verdict with the model's problems.
func checkSemval(err error, p map[string]map[string]bool) *h.Violation {
	bad := len(p["dep"]) + len(p["rep"]) + len(p["num"])
	if (err != nil) != (bad > 0) {
		return h.Viol("semval-verdict", "semantic validation says %v, the grammar has %d problem(s) %v", err, bad, p)
	}
	if err == nil {
		return nil
	}
	var dep *goabnf.ErrDependencyNotFound
	var rep *goabnf.ErrSemanticRepetition
	var num *goabnf.ErrTooLargeNumeral
	switch {
	case errors.As(err, &dep):
		if !p["dep"][lowS(dep.Rulename)] {
			return h.Viol("semval-error", "validation blames dependency %q which exists", dep.Rulename)
		}
	case errors.As(err, &rep):
		if k := fmt.Sprintf("%d,%d", clampRep(rep.Repetition.Min), clampRep(rep.Repetition.Max)); !p["rep"][k] {
			return h.Viol("semval-error", "validation blames repetition %s which is well formed", k)
		}
	case errors.As(err, &num):
		if !p["num"][lowS(num.Base)] {
			return h.Viol("semval-error", "validation blames numeral %q", num.Value)
		}
	default:
		return h.Viol("semval-error", "unexpected validation error %T %v", err, err)
	}
	return nil
}

func errClass(err error) string {
	var dup *goabnf.ErrDuplicatedRule
	var core *goabnf.ErrCoreRuleModify
	var nf *goabnf.ErrRuleNotFound
	var mult *goabnf.ErrMultipleSolutionsFound
	switch {
	case err == nil:
		return ""
	case errors.As(err, &dup):
		return "duplicate"
	case errors.As(err, &core):
		return "core"
	case errors.As(err, &nf):
		return "unknown-rule"
	case errors.As(err, &mult):
		return "ambiguous"
	case errors.Is(err, goabnf.ErrNoSolutionFound):
		return "syntax"
	}
	return fmt.Sprintf("%T", err)
}

// genABNF draws ABNF source: model grammars in wild layouts, sometimes with
// semantic faults, sometimes damaged.
func genABNF(r *simrt.Rand) string {
	c := h.SwarmCfg(r)
	c.Prose, c.Undef = r.Chance(.2), r.Chance(.15)
	c.Uni = r.Chance(.3)
	c.Alpha = []string{"ab", "xXyY1", " ;=/", "%<>[]", "a"}[r.Intn(5)]
	if c.Nums {
		c.Alpha = strings.TrimSpace(c.Alpha)
	}
	if r.Chance(.5) {
		c.Rules = 1 + r.Intn(2)
		c.Depth = r.Intn(2)
	}
	g := h.GenGram(r, c)
	if r.Chance(.04) {
		if lg, _, _ := h.Large(r, c, true); len(lg.Text()) < 600 {
			g = lg
		}
	}
	if r.Chance(.12) {
		h.Rename(g, r)
	}
	if r.Chance(.35) {
		for k := 1 + r.Intn(2); k > 0; k-- {
			i := r.Intn(len(g.Rules))
			d := *g.Rules[i]
			switch r.Intn(6) {
			case 0: // define or extend a core rule
				d.Name = caseMix(r, coreNames[r.Intn(len(coreNames))])
				d.Inc = r.Chance(.5)
			case 1: // duplicate
				d.Inc = false
				d.Name = caseMix(r, d.Name)
			case 2: // increment of something unknown
				d.Name, d.Inc = "zz", true
			case 3: // increment
				d.Name, d.Inc = caseMix(r, d.Name), true
			case 4: // increment before the definition
				d.Inc = true
				g.Rules = append([]*h.RuleDef{&d}, g.Rules...)
				continue
			case 5: // semantic faults
				plantSem(r, g, false)
				continue
			}
			g.Rules = append(g.Rules, &d)
		}
	}
	l := &layout{r: r, wild: []float64{0, .3, .7, 1}[r.Intn(4)]}
	s := l.gram(g)
	if r.Chance(.05) {
		s = stretchNum(r, s)
	}
	if r.Chance(.3) {
		s = damage(r, s)
	}
	return s
}

func c04opts(sc *h.Scenario) []goabnf.ABNFOption {
	return []goabnf.ABNFOption{goabnf.WithValidation(sc.Par["novalidate"] == 0), goabnf.WithRedefineCoreRules(sc.Par["redefine"] == 1)}
}

// judgeParse compares the outcome of ParseABNF with the model.
func judgeParse(src string, g *goabnf.Grammar, err error, validate, redefine bool) *h.Violation {
	mg, perr := h.RefParse([]byte(src))
	if perr != nil {
		if cls := errClass(err); cls != "syntax" {
			return h.Viol("accepts-non-abnf", "ParseABNF(%q) = %v; the text is not ABNF (%v)", src, err, perr)
		}
		return nil
	}
	defs, m, cls := evalModel(mg, redefine)
	if cls != "" {
		if got := errClass(err); got != cls {
			return h.Viol("definition-error", "ParseABNF(%q) = %v (%q), want a %q error", src, err, got, cls)
		}
		return nil
	}
	if validate {
		p := semProblems(m)
		if len(p["dep"])+len(p["rep"])+len(p["num"]) > 0 {
			switch errClass(err) {
			case "syntax", "duplicate", "core", "ambiguous", "unknown-rule":
				return h.Viol("definition-error", "ParseABNF(%q) = %v, want a semantic error %v", src, err, p)
			}
			return checkSemval(err, p)
		}
	}
	if err != nil {
		return h.Viol("rejects-abnf", "ParseABNF(%q) = %v, but the text is valid ABNF", src, err)
	}
	if got := canon(g); got != defs {
		return h.Viol("misread", "ParseABNF(%q) produced\n%s\nwant\n%s", src, got, defs)
	}
	return nil
}

func init() {
	reg(&h.Prop{
		ID: "C04", Quick: 10000, Thorough: 400000, Real: realLib, Stub: stubLib,
		Rule: "one evaluation = one ABNF source text (random grammar in a random layout, optionally with definition errors or damage), read by ParseABNF and EvaluateABNF under every schedule and compared with an independent reader; the result is printed and read back",
		Gen: func(r *simrt.Rand, idx int, th bool) *h.Scenario {
			sc := &h.Scenario{Grammars: []string{genABNF(r)}, Par: map[string]int64{}}
			if r.Chance(.4) {
				sc.Par["novalidate"] = 1
			}
			if r.Chance(.4) {
				sc.Par["redefine"] = 1
			}
			sc.Scheds = h.Schedules(r, 3)
			return sc
		},
		Exec: func(sc *h.Scenario, c *h.Ctx) *h.Violation {
			src := sc.Grammars[0]
			validate, redefine := sc.Par["novalidate"] == 0, sc.Par["redefine"] == 1
			if mg, err := h.RefParse([]byte(src)); err != nil {
				c.Probe("not ABNF")
			} else if _, m, cls := evalModel(mg, redefine); cls != "" {
				c.Probe("definition error: " + cls)
			} else if p := semProblems(m); len(p["dep"])+len(p["rep"])+len(p["num"]) > 0 {
				c.Probe("semantic error")
			} else {
				c.Probe("valid ABNF")
			}
			for _, s := range sc.Scheds {
				var v *h.Violation
				o := c.Do(s, func() {
					in := []byte(src)
					g, err := goabnf.ParseABNF(in, c04opts(sc)...)
					if string(in) != src {
						v = h.Viol("input-modified", "ParseABNF changed its input %q", src)
						return
					}
					if v = judgeParse(src, g, err, validate, redefine); v != nil || err != nil {
						return
					}
					// The two-step API gives the same grammar.
					f, ferr := goabnf.Parse([]byte(src), goabnf.ABNF, "rulelist")
					if ferr == nil {
						var g2 *goabnf.Grammar
						g2, ferr = goabnf.EvaluateABNF([]byte(src), f, c04opts(sc)...)
						if ferr == nil && canon(g2) != canon(g) {
							v = h.Viol("evaluate", "EvaluateABNF(%q) differs from ParseABNF:\n%s\n%s", src, canon(g2), canon(g))
							return
						}
					}
					if ferr != nil {
						v = h.Viol("evaluate", "EvaluateABNF(%q): %v", src, ferr)
						return
					}
					// Print and read back.
					if len(g.Rulemap) == 0 {
						return
					}
					c.Probe("round trip")
					for _, p := range []struct{ n, s string }{{"String", g.String()}, {"PrettyPrint", g.PrettyPrint()}} {
						b, err := goabnf.ParseABNF([]byte(p.s), c04opts(sc)...)
						if err != nil {
							v = h.Viol("round-trip", "%s of %q is not accepted back: %v\n%s", p.n, src, err, p.s)
							return
						}
						if canon(b) != canon(g) {
							v = h.Viol("round-trip", "%s of %q reads back differently:\n%s\n%s", p.n, src, canon(b), canon(g))
							return
						}
					}
				})
				if v != nil {
					return v
				}
				if v := h.Bad(o, "reading ABNF"); v != nil {
					return v
				}
			}
			return nil
		},
	})
}
