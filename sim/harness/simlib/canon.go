package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
)

// Canonical forms: independent of map order, of letter case where ABNF ignores
// it, and of how a number was written.

func clampRep(n int) int {
	if n > 1<<62 {
		return 1 << 62
	}
	return n
}

func lowS(s string) string { return strings.ToLower(s) }

func canonAlt(a goabnf.Alternation) string {
	var b strings.Builder
	b.WriteString("(alt")
	for _, c := range a.Concatenations {
		b.WriteString(" (cat")
		for _, r := range c.Repetitions {
			fmt.Fprintf(&b, " {%d,%d ", clampRep(r.Min), clampRep(r.Max))
			switch v := r.Element.(type) {
			case goabnf.ElemRulename:
				b.WriteString("ref:" + lowS(v.Name))
			case goabnf.ElemGroup:
				b.WriteString("grp" + canonAlt(v.Alternation))
			case goabnf.ElemOption:
				b.WriteString("opt" + canonAlt(v.Alternation))
			case goabnf.ElemCharVal:
				fmt.Fprintf(&b, "chr:%v:%q", v.Sensitive, string(v.Values))
			case goabnf.ElemNumVal:
				fmt.Fprintf(&b, "num:%s:%v", lowS(v.Base), v.Status == goabnf.StatRange)
				for _, e := range v.Elems {
					n, err := strconv.ParseUint(e, map[string]int{"b": 2, "d": 10, "x": 16}[lowS(v.Base)], 64)
					if err != nil {
						n = 1<<64 - 1
					}
					fmt.Fprintf(&b, ".%d", n)
				}
			case goabnf.ElemProseVal:
				fmt.Fprintf(&b, "prose:%s", v.String())
			default:
				fmt.Fprintf(&b, "?%T", v)
			}
			b.WriteString("}")
		}
		b.WriteString(")")
	}
	b.WriteString(")")
	return b.String()
}

func canonMap(m map[string]*goabnf.Rule) string {
	var out []string
	for k, r := range m {
		if r == nil {
			out = append(out, lowS(k)+" <nil>")
			continue
		}
		key := ""
		if lowS(k) != lowS(r.Name) {
			key = " key=" + k
		}
		out = append(out, lowS(r.Name)+key+" "+canonAlt(r.Alternation))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func canon(g *goabnf.Grammar) string {
	if g == nil {
		return "<nil>"
	}
	return canonMap(g.Rulemap)
}

// exact keeps the spelling of names and numbers too (nothing may touch those).
func exact(g *goabnf.Grammar) string {
	var out []string
	for k, r := range g.Rulemap {
		out = append(out, fmt.Sprintf("%s|%s|%s", k, r.Name, exactAlt(r.Alternation)))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func exactAlt(a goabnf.Alternation) string {
	var b strings.Builder
	for _, c := range a.Concatenations {
		b.WriteString("/")
		for _, r := range c.Repetitions {
			fmt.Fprintf(&b, " {%d,%d ", r.Min, r.Max)
			switch v := r.Element.(type) {
			case goabnf.ElemGroup:
				b.WriteString("grp(" + exactAlt(v.Alternation) + ")")
			case goabnf.ElemOption:
				b.WriteString("opt(" + exactAlt(v.Alternation) + ")")
			case goabnf.ElemNumVal:
				fmt.Fprintf(&b, "num:%s:%v:%q", v.Base, v.Status, v.Elems)
			case goabnf.ElemCharVal:
				fmt.Fprintf(&b, "chr:%v:%q", v.Sensitive, v.Values)
			default:
				fmt.Fprintf(&b, "%T:%s", v, v)
			}
			b.WriteString("}")
		}
	}
	return b.String()
}

var coreNames = []string{"ALPHA", "BIT", "CHAR", "CR", "CRLF", "CTL", "DIGIT", "DQUOTE", "HEXDIG", "HTAB", "LF", "LWSP", "OCTET", "SP", "VCHAR", "WSP"}

// globals is a snapshot of everything that is shared by all users of the
// package: the ABNF meta-grammar and the core rules.
func globals() string {
	var b strings.Builder
	b.WriteString(exact(goabnf.ABNF))
	for _, n := range coreNames {
		r := goabnf.GetRule(n, nil)
		if r == nil {
			fmt.Fprintf(&b, "\n%s <nil>", n)
			continue
		}
		fmt.Fprintf(&b, "\n%s|%s", r.Name, exactAlt(r.Alternation))
	}
	return b.String()
}

// canonModelAlt is canonAlt for the model.
func canonModelAlt(a h.Alt) string {
	var b strings.Builder
	b.WriteString("(alt")
	for _, c := range a.Cats {
		b.WriteString(" (cat")
		for _, r := range c.Reps {
			fmt.Fprintf(&b, " {%d,%d ", clampRep(r.Min), clampRep(r.Max))
			switch v := r.El.(type) {
			case h.Ref:
				b.WriteString("ref:" + lowS(v.Name))
			case h.Grp:
				b.WriteString("grp" + canonModelAlt(v.Alt))
			case h.Opt:
				b.WriteString("opt" + canonModelAlt(v.Alt))
			case h.Chr:
				fmt.Fprintf(&b, "chr:%v:%q", v.CS, v.S)
			case h.Num:
				fmt.Fprintf(&b, "num:%c:%v", v.Base, v.Range)
				for _, n := range v.Vals {
					fmt.Fprintf(&b, ".%d", n)
				}
			case h.Prose:
				fmt.Fprintf(&b, "prose:<%s>", v.S)
			}
			b.WriteString("}")
		}
		b.WriteString(")")
	}
	b.WriteString(")")
	return b.String()
}
