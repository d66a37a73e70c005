package main

import (
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

// wantDiag is the diagnostic the documentation promises for a rejected input.
type diag struct {
	off, line, col int
	exp            []string
	found          string
	hint           bool
}

func wantDiag(in []byte, off int, exp map[string]bool) diag {
	d := diag{off: off, line: 1 + strings.Count(string(in[:off]), "\n")}
	d.col = off - strings.LastIndex(string(in[:off]), "\n")
	for e := range exp {
		d.exp = append(d.exp, normTerm(e))
	}
	sort.Strings(d.exp)
	d.exp = dedup(d.exp)
	if off == len(in) {
		d.found = "EOF"
	} else {
		switch b := in[off]; {
		case b == '\r':
			d.found = "%x0D (CR)"
		case b == '\n':
			d.found = "%x0A (LF)"
			d.hint = off == 0 || in[off-1] != '\r'
		case b == '\t':
			d.found = "%x09 (HTAB)"
		case b == ' ':
			d.found = "%x20 (SP)"
		case b > 0x20 && b < 0x7f:
			d.found = fmt.Sprintf("%q", string(rune(b)))
		default:
			d.found = fmt.Sprintf("%%x%02X", b)
		}
	}
	return d
}

var zeros = regexp.MustCompile(`(^%[bdx]|[-.])0+([0-9A-F])`)

// normTerm spells a terminal in one way: no %i, no leading zeros.
func normTerm(t string) string {
	if strings.HasPrefix(t, "%i\"") || strings.HasPrefix(t, "%s\"") || strings.HasPrefix(t, "\"") || strings.HasPrefix(t, "<") {
		return strings.TrimPrefix(t, "%i")
	}
	t = t[:2] + strings.ToUpper(t[2:])
	return zeros.ReplaceAllString(t, "$1$2")
}

func dedup(s []string) []string {
	var out []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			out = append(out, x)
		}
	}
	return out
}

func norms(xs []string) []string {
	var out []string
	for _, x := range xs {
		out = append(out, normTerm(x))
	}
	sort.Strings(out)
	return dedup(out)
}

func checkDiag(pe *goabnf.ParseError, d diag) string {
	switch {
	case pe.Offset != d.off:
		return fmt.Sprintf("offset %d, the furthest reachable position is %d", pe.Offset, d.off)
	case pe.Line != d.line || pe.Col != d.col:
		return fmt.Sprintf("line %d column %d, offset %d is at %d:%d", pe.Line, pe.Col, d.off, d.line, d.col)
	case strings.Join(norms(pe.Expected), "\x00") != strings.Join(d.exp, "\x00"):
		return fmt.Sprintf("expected %q, the terminals that could follow are %q", pe.Expected, d.exp)
	case pe.Found != d.found:
		return fmt.Sprintf("found %q, the input has %q there", pe.Found, d.found)
	case (pe.Hint != "") != d.hint:
		return fmt.Sprintf("hint %q", pe.Hint)
	case !errors.Is(pe, goabnf.ErrNoSolutionFound):
		return "does not unwrap to ErrNoSolutionFound"
	}
	return ""
}

func init() {
	reg(&h.Prop{
		ID: "C16", Quick: 40000, Thorough: 600000, Real: realLib, Stub: stubLib,
		Rule: "one evaluation = one seeded grammar with rejected and accepted inputs, parsed under every schedule; every field of ParseError is compared with the furthest position and expected terminals computed independently",
		Gen: func(r *simrt.Rand, idx int, th bool) *h.Scenario {
			if idx%vlongEvery == 77 {
				return vlongScenario(r, true)
			}
			sc := langScenario(r, idx, gopt{inputs: 5 + r.Intn(4), max: 10 + r.Intn(6), scheds: 3, mod: func(c *h.GenCfg, r *simrt.Rand) {
				c.MaxRep = 20
				c.Prose = r.Chance(.1)
			}})
			// Rejected inputs with the bytes the diagnostics treat specially.
			for k := 0; k < 2; k++ {
				b := []byte(sc.Inputs[r.Intn(len(sc.Inputs))])
				i := r.Intn(len(b) + 1)
				x := []string{"\n", "\r\n", "\t", " ", "\x00", "\xff", "é", "~"}[r.Intn(8)]
				b = append(append(append([]byte(nil), b[:i]...), x...), b[i:]...)
				if len(b) < 300 {
					sc.Inputs = append(sc.Inputs, b)
				}
			}
			return sc
		},
		Exec: func(sc *h.Scenario, c *h.Ctx) *h.Violation {
			if sc.Par["vlong"] > 0 {
				return vlongExec("C16", sc, c)
			}
			m := mustRef(sc.Grammars[0])
			rg := h.NewRef(m)
			root := rg.Rule(sc.Rule)
			probeGram(c, m, sc.Rule)
			want := make([]*diag, len(sc.Inputs))
			for i, in := range sc.Inputs {
				ch := rg.Chart(root, in)
				if ch.Accepts(root) {
					c.Probe("accepted")
					continue
				}
				off, exp := ch.Furthest(root)
				d := wantDiag(in, off, exp)
				want[i] = &d
				switch {
				case off == 0:
					c.Probe("stuck at the start")
				case off == len(in):
					c.Probe("stuck at the end")
				default:
					c.Probe("stuck inside")
				}
				if len(d.exp) == 0 {
					c.Probe("nothing expected (trailing input)")
				}
			}
			first := make([]string, len(sc.Inputs)) // the report of the first schedule, verbatim
			for _, s := range sc.Scheds {
				var v *h.Violation
				o := c.Do(s, func() {
					g, err := loadGrammar(sc, m)
					if err != nil {
						v = h.Viol("grammar-rejected", "ParseABNF rejected %s: %v", oneLine(sc.Grammars[0]), err)
						return
					}
					for i, in := range sc.Inputs {
						f, err := goabnf.Parse(in, g, sc.Rule)
						if err != nil {
							v = h.Viol("error", "parsing %s with %s: %v", q(in), oneLine(sc.Grammars[0]), err)
							return
						}
						pe := f.ParseError()
						switch {
						case want[i] == nil && pe != nil:
							v = h.Viol("error-for-word", "ParseError() = %v for %s, a word of %s in %s", pe, q(in), sc.Rule, oneLine(sc.Grammars[0]))
						case want[i] != nil && pe == nil:
							v = h.Viol("no-error", "ParseError() is nil for %s, not a word of %s in %s", q(in), sc.Rule, oneLine(sc.Grammars[0]))
						case pe != nil:
							if msg := checkDiag(pe, *want[i]); msg != "" {
								v = h.Viol("diagnostic", "parsing %s as %s of %s: %s (%v)", q(in), sc.Rule, oneLine(sc.Grammars[0]), msg, pe)
							} else if rep := fmt.Sprintf("%q %q %d %d %d %q %q", pe.Error(), pe.Expected, pe.Offset, pe.Line, pe.Col, pe.Found, pe.Hint); first[i] == "" {
								first[i] = rep
							} else if rep != first[i] {
								v = h.Viol("order", "parsing %s as %s of %s: the report is %s under one processing order and %s under another", q(in), sc.Rule, oneLine(sc.Grammars[0]), first[i], rep)
							}
						}
						if v != nil {
							return
						}
					}
				})
				if v != nil {
					return v
				}
				if v := h.Bad(o, "diagnosing"); v != nil {
					return v
				}
			}
			return nil
		},
	})
}
