package main

import (
	"fmt"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

// Wide nodes: literals with so many letters, or ranges with so many values, that
// a node stands for hundreds to tens of thousands of texts. The graph has no
// loop, so both coverage modes have to produce exactly the language.

// wideEvery: one in so many runs of C10 is a wide one.
const wideEvery = 150

func wideScenario(r *simrt.Rand) *h.Scenario {
	x, mask := "", int64(r.Intn(4))
	switch r.Intn(5) {
	case 0, 1:
		n := 8 + r.Intn(4)
		var b strings.Builder
		for i := 0; i < n; i++ {
			c := byte('a' + r.Intn(26))
			if r.Chance(.3) {
				c -= 'a' - 'A'
			}
			b.WriteByte(c)
			if r.Chance(.15) {
				b.WriteByte("-0_@[`{"[r.Intn(7)])
			}
		}
		x = `"` + b.String() + `"`
	default:
		n := 260 + r.Intn(2000)
		if r.Chance(.15) {
			n = 65530 + r.Intn(5000)
		}
		if n > 700 {
			mask &^= 1 // one node per value: quadratic to build
		}
		edge := []int{0, 0x7f, 0xff, 0x7ff, 0xd7ff, 0xe000, 0xffff, 0x10ffff - n + 1, r.Intn(0x10000)}[r.Intn(9)]
		lo := edge
		if edge > 0 && edge <= 0xffff {
			lo = max(0, edge-r.Intn(n))
		}
		x = fmt.Sprintf("%%x%X-%X", lo, lo+n-1)
	}
	switch r.Intn(4) {
	case 0:
		x = `"-" ` + x
	case 1:
		x = x + ` "=" / "##"`
	case 2:
		x = `[` + x + `]`
	}
	return &h.Scenario{Grammars: []string{"a = " + x + "\r\n"}, Rule: "a", Par: map[string]int64{"fixed": 1, "wide": 1, "mask": mask, "direct": int64(r.Intn(2)), "novalidate": 1}, Scheds: h.Schedules(r, 2)}
}

func wideExec(sc *h.Scenario, c *h.Ctx) *h.Violation {
	m := mustRef(sc.Grammars[0])
	lang, ok := h.Language(m, "a", 80000)
	if !ok {
		panic("harness: a wide language is too large: " + sc.Grammars[0])
	}
	if len(lang) > 65535 {
		c.Probe("node with more than 65535 values")
	} else {
		c.Probe("node with more than 255 values")
	}
	where := fmt.Sprintf("%s (deflate mask %d)", oneLine(sc.Grammars[0]), sc.Par["mask"])
	for _, s := range sc.Scheds {
		var v *h.Violation
		s.Budget = 400_000_000
		o := c.Do(s, func() {
			g, err := loadGrammar(sc, m)
			if err != nil {
				v = h.Viol("grammar-rejected", "ParseABNF rejected %s: %v", where, err)
				return
			}
			tg, err := g.TransitionGraph("a", tgOpts(sc)...)
			if err != nil {
				v = h.Viol("refused", "TransitionGraph refused %s: %v", where, err)
				return
			}
			for mi, name := range []string{"all trails", "compact"} {
				rd := tg.Reader(goabnf.WithCoverageMode([]goabnf.CoverageMode{goabnf.CoverageAllTrails, goabnf.CoverageCompact}[mi]))
				got := make(map[string]bool, len(lang))
				n := 0
				for ; rd.Next() && n <= 2*len(lang)+64; n++ {
					w := string(rd.Scan())
					if !lang[w] {
						v = h.Viol("wrong-word", "the reader (%s) produced %q, not a word of %s", name, w, where)
						return
					}
					got[w] = true
				}
				if n > 2*len(lang)+64 {
					v = h.Viol("reader-size", "the reader (%s) produced %d strings for a language of %d, %s", name, n, len(lang), where)
					return
				}
				// A deflated literal is a path of single letters: covering each of
				// them does not take every combination.
				if mi == 1 && sc.Par["mask"]&2 != 0 {
					continue
				}
				if len(got) != len(lang) {
					for _, w := range sorted(lang) {
						if !got[w] {
							v = h.Viol("reader-missing", "the reader (%s) produced %d of %d words, not %q, %s", name, len(got), len(lang), w, where)
							return
						}
					}
				}
			}
		})
		if v != nil {
			return v
		}
		if v := h.Bad(o, "reading a wide graph"); v != nil {
			v.Detail += " on " + where
			return v
		}
	}
	return nil
}
