// Package h is the harness of the simulator: an independent model of ABNF (its
// own parser, printer, recogniser, derivation counter and tree checker), seeded
// workload generators, and the run / minimise / replay driver.
package h

import (
	"fmt"
	"strings"

	"github.com/pandatix/go-abnf/zsim/simrt"
)

// ---------------------------------------------------------------------------
// Model grammar
// ---------------------------------------------------------------------------

const Inf = -1

type Gram struct{ Rules []*RuleDef }
type RuleDef struct {
	Name string
	Inc  bool // defined with =/
	Alt  Alt
}
type Alt struct{ Cats []Cat }
type Cat struct{ Reps []Rep }
type Rep struct {
	Min, Max int
	El       El
}
type El interface{}
type Ref struct{ Name string }
type Grp struct{ Alt Alt }
type Opt struct{ Alt Alt }
type Chr struct {
	S  string
	CS bool
	I  bool // explicit %i
}
type Num struct {
	Base  byte // b d x
	Range bool
	Vals  []uint64
}
type Prose struct{ S string }

func low(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// Text renders the grammar as ABNF, one rule per line.
func (g *Gram) Text() string {
	var b strings.Builder
	for _, r := range g.Rules {
		b.WriteString(r.Name)
		if r.Inc {
			b.WriteString(" =/ ")
		} else {
			b.WriteString(" = ")
		}
		b.WriteString(altText(r.Alt))
		b.WriteString("\r\n")
	}
	return b.String()
}

func altText(a Alt) string {
	var p []string
	for _, c := range a.Cats {
		var q []string
		for _, r := range c.Reps {
			q = append(q, repText(r))
		}
		p = append(p, strings.Join(q, " "))
	}
	return strings.Join(p, " / ")
}

func repText(r Rep) string {
	e := elText(r.El)
	switch {
	case r.Min == 1 && r.Max == 1:
		return e
	case r.Min == r.Max:
		return fmt.Sprintf("%d%s", r.Min, e)
	}
	s := ""
	if r.Min != 0 {
		s = fmt.Sprint(r.Min)
	}
	s += "*"
	if r.Max != Inf {
		s += fmt.Sprint(r.Max)
	}
	return s + e
}

func numText(v uint64, base byte) string {
	switch base {
	case 'b':
		return fmt.Sprintf("%b", v)
	case 'd':
		return fmt.Sprintf("%d", v)
	}
	return fmt.Sprintf("%X", v)
}

func elText(e El) string {
	switch v := e.(type) {
	case Ref:
		return v.Name
	case Grp:
		return "(" + altText(v.Alt) + ")"
	case Opt:
		return "[" + altText(v.Alt) + "]"
	case Chr:
		if v.CS {
			return "%s\"" + v.S + "\""
		}
		if v.I {
			return "%i\"" + v.S + "\""
		}
		return "\"" + v.S + "\""
	case Num:
		sep := "."
		if v.Range {
			sep = "-"
		}
		var p []string
		for _, x := range v.Vals {
			p = append(p, numText(x, v.Base))
		}
		return "%" + string(v.Base) + strings.Join(p, sep)
	case Prose:
		return "<" + v.S + ">"
	}
	return "?"
}

// Find returns the merged definition of a rule (base plus increments), or nil.
func (g *Gram) Find(name string) *RuleDef {
	var out *RuleDef
	for _, r := range g.Rules {
		if low(r.Name) == low(name) {
			if out == nil {
				c := *r
				c.Alt.Cats = nil
				if b := core[low(name)]; b != nil && r.Inc {
					c.Alt.Cats = append(c.Alt.Cats, b.Alt.Cats...)
				}
				c.Alt.Cats = append(c.Alt.Cats, r.Alt.Cats...)
				out = &c
			} else {
				out.Alt.Cats = append(out.Alt.Cats, r.Alt.Cats...)
			}
		}
	}
	if out == nil {
		return core[low(name)]
	}
	return out
}

func (g *Gram) Has(name string) bool {
	for _, r := range g.Rules {
		if low(r.Name) == low(name) {
			return true
		}
	}
	return false
}

// Names returns the distinct rule names in order of first definition.
func (g *Gram) Names() []string {
	var out []string
	seen := map[string]bool{}
	for _, r := range g.Rules {
		if !seen[low(r.Name)] {
			seen[low(r.Name)] = true
			out = append(out, r.Name)
		}
	}
	return out
}

// Core rules, transcribed from RFC 5234 appendix B.1.
const coreText = "ALPHA = %x41-5A / %x61-7A\r\nBIT = \"0\" / \"1\"\r\nCHAR = %x01-7F\r\nCR = %x0D\r\nCRLF = CR LF\r\nCTL = %x00-1F / %x7F\r\nDIGIT = %x30-39\r\nDQUOTE = %x22\r\nHEXDIG = DIGIT / \"A\" / \"B\" / \"C\" / \"D\" / \"E\" / \"F\"\r\nHTAB = %x09\r\nLF = %x0A\r\nLWSP = *(WSP / CRLF WSP)\r\nOCTET = %x00-FF\r\nSP = %x20\r\nVCHAR = %x21-7E\r\nWSP = SP / HTAB\r\n"

var core = map[string]*RuleDef{}

func init() {
	g, err := RefParse([]byte(coreText))
	if err != nil {
		panic(err)
	}
	for _, r := range g.Rules {
		core[low(r.Name)] = r
	}
}

// CoreRule is the RFC's definition of a core rule, or nil.
func CoreRule(name string) *RuleDef { return core[low(name)] }

func IsCore(name string) bool { return core[low(name)] != nil }

// Walk visits every element of a rule body.
func WalkAlt(a Alt, f func(Rep)) { walkAlt(a, f) }

func walkAlt(a Alt, f func(Rep)) {
	for _, c := range a.Cats {
		for _, r := range c.Reps {
			f(r)
			switch v := r.El.(type) {
			case Grp:
				walkAlt(v.Alt, f)
			case Opt:
				walkAlt(v.Alt, f)
			}
		}
	}
}

// Deps returns the rules directly referenced by a rule body (lower case).
func Deps(a Alt) []string {
	var out []string
	seen := map[string]bool{}
	walkAlt(a, func(r Rep) {
		if v, ok := r.El.(Ref); ok && !seen[low(v.Name)] {
			seen[low(v.Name)] = true
			out = append(out, low(v.Name))
		}
	})
	return out
}

// Reach returns all rules reachable from name (lower case, including itself).
func (g *Gram) Reach(name string) map[string]bool {
	seen := map[string]bool{}
	var w func(n string)
	w = func(n string) {
		n = low(n)
		if seen[n] {
			return
		}
		seen[n] = true
		if r := g.Find(n); r != nil {
			for _, d := range Deps(r.Alt) {
				w(d)
			}
		}
	}
	w(name)
	return seen
}

// Cyclic reports whether a rule reachable from name lies on a cycle.
func (g *Gram) Cyclic(name string) bool {
	for n := range g.Reach(name) {
		if g.onCycle(n) {
			return true
		}
	}
	return false
}

func (g *Gram) onCycle(n string) bool {
	r := g.Find(n)
	if r == nil {
		return false
	}
	for _, d := range Deps(r.Alt) {
		if g.Reach(d)[low(n)] {
			return true
		}
	}
	return false
}

// HasProse reports whether a rule reachable from name contains a prose-val.
func (g *Gram) HasProse(name string) bool {
	for n := range g.Reach(name) {
		if r := g.Find(n); r != nil {
			hit := false
			walkAlt(r.Alt, func(p Rep) {
				if _, ok := p.El.(Prose); ok {
					hit = true
				}
			})
			if hit {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// Random grammars (swarm style: each grammar draws its own feature mix)
// ---------------------------------------------------------------------------

type GenCfg struct {
	Rules, Alts, Cats, Depth    int
	Recursive, LeftRec, Core    bool
	Counted, Big, Groups, Opts  bool
	CSens, Empty, Nums, Uni     bool
	Prose, CaseRefs, Inc, Undef bool
	Dups                        bool
	Odd                         bool // numerals that match nothing: reversed ranges, surrogates
	TooBig                      bool // numerals above U+10FFFF (rejected by validation)
	MaxRep                      int  // cap on the span of counted repetitions (0: none)
	Alpha                       string
}

func SwarmCfg(r *simrt.Rand) GenCfg {
	c := GenCfg{Rules: 1 + r.Intn(5), Alts: 1 + r.Intn(3), Cats: 1 + r.Intn(3), Depth: r.Intn(3)}
	b := func(p float64) bool { return r.Chance(p) }
	c.Recursive, c.LeftRec = b(.6), b(.4)
	c.Core, c.Counted, c.Big = b(.3), b(.5), b(.1)
	c.Groups, c.Opts = b(.6), b(.6)
	c.CSens, c.Empty, c.Nums, c.Uni = b(.4), b(.3), b(.5), b(.25)
	c.CaseRefs, c.Inc = b(.3), b(.25)
	c.Dups = b(.3)
	c.Alpha = []string{"ab", "aAb", "abc", "xXyY1", "a", "ab", "abc", "kKsS", "@`[{aA", ".]^-\\*", "zZ[9:"}[r.Intn(11)]
	return c
}

var ruleNames = []string{"a", "b", "Cc", "d-e", "f1", "Gg", "h"}

func GenGram(r *simrt.Rand, c GenCfg) *Gram {
	g := &Gram{}
	n := c.Rules
	var pool []Rep // for duplicated sub-expressions
	for i := 0; i < n; i++ {
		g.Rules = append(g.Rules, &RuleDef{Name: ruleNames[i]})
	}
	var alt func(self, depth int) Alt
	el := func(self, depth int, first bool) El {
		for {
			switch k := r.Intn(12); {
			case k < 3:
				lo := self + 1
				if c.Recursive {
					lo = 0
				}
				if lo >= n {
					continue
				}
				t := lo + r.Intn(n-lo)
				if first && !c.LeftRec && t <= self {
					continue
				}
				nm := ruleNames[t]
				if c.CaseRefs && r.Chance(.4) {
					nm = strings.ToUpper(nm)
				}
				return Ref{nm}
			case k == 3 && c.Groups && depth > 0:
				return Grp{alt(self, depth-1)}
			case k == 4 && c.Opts && depth > 0:
				return Opt{alt(self, depth-1)}
			case k == 5 && c.Nums:
				return genNum(r, c)
			case k == 6 && c.Core:
				return Ref{[]string{"ALPHA", "DIGIT", "BIT", "HEXDIG", "WSP", "VCHAR", "CRLF", "SP", "alpha", "LWSP", "OCTET", "CHAR", "CTL", "DQUOTE", "HTAB", "CR", "LF", "Digit"}[r.Intn(18)]}
			case k == 7 && c.Prose:
				return Prose{"some text"}
			case k == 8 && c.Undef && r.Chance(.3):
				return Ref{"nope"}
			case k >= 9:
				l := 1
				if r.Chance(.25) {
					l = 2 + r.Intn(2)
				}
				if c.Empty && r.Chance(.2) {
					l = 0
				}
				s := ""
				for i := 0; i < l; i++ {
					s += string(c.Alpha[r.Intn(len(c.Alpha))])
				}
				return Chr{S: s, CS: c.CSens && r.Chance(.5), I: r.Chance(.05)}
			}
		}
	}
	rep := func(self, depth int, first bool) Rep {
		if c.Dups && len(pool) > 0 && r.Chance(.25) {
			return pool[r.Intn(len(pool))]
		}
		p := Rep{1, 1, el(self, depth, first)}
		if r.Chance(.35) {
			switch r.Intn(6) {
			case 0:
				p.Min, p.Max = 0, Inf
			case 1:
				p.Min, p.Max = 1, Inf
			case 2:
				p.Min, p.Max = 0, 1
			default:
				if c.Counted {
					p.Min = r.Intn(4)
					p.Max = p.Min + r.Intn(4)
					if r.Chance(.2) {
						p.Max = Inf
					}
					if c.Big && r.Chance(.3) {
						p.Max = p.Min + []int{20, 300, 5000, 1000000}[r.Intn(4)]
						if c.MaxRep > 0 {
							p.Max = min(p.Max, p.Min+c.MaxRep)
						}
					}
				} else {
					p.Min, p.Max = 0, Inf
				}
			}
		}
		pool = append(pool, p)
		return p
	}
	alt = func(self, depth int) Alt {
		var a Alt
		for k := 1 + r.Intn(c.Alts); k > 0; k-- {
			var ct Cat
			for q := 1 + r.Intn(c.Cats); q > 0; q-- {
				ct.Reps = append(ct.Reps, rep(self, depth, len(ct.Reps) == 0))
			}
			a.Cats = append(a.Cats, ct)
		}
		return a
	}
	for i, rd := range g.Rules {
		rd.Alt = alt(i, c.Depth)
	}
	// Make sure most rules are productive: give recursive ones a base case.
	if r.Chance(.85) {
		for i := range g.Rules {
			if productive(g)[low(g.Rules[i].Name)] {
				continue
			}
			g.Rules[i].Alt.Cats = append(g.Rules[i].Alt.Cats, Cat{[]Rep{{1, 1, Chr{S: string(c.Alpha[0])}}}})
		}
	}
	if c.Inc && n > 0 {
		i := r.Intn(n)
		nm := g.Rules[i].Name
		if r.Chance(.5) {
			nm = strings.ToUpper(nm)
		}
		g.Rules = append(g.Rules, &RuleDef{Name: nm, Inc: true, Alt: alt(i, 0)})
	}
	return g
}

func genNum(r *simrt.Rand, c GenCfg) El {
	base := "bdx"[r.Intn(3)]
	if r.Chance(.5) {
		base = 'x'
	}
	ch := func() uint64 {
		if c.Uni && r.Chance(.4) {
			return []uint64{0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff}[r.Intn(11)]
		}
		return uint64(c.Alpha[r.Intn(len(c.Alpha))])
	}
	if c.Odd && r.Chance(.3) {
		return Num{Base: base, Range: true, Vals: [][]uint64{{0x62, 0x61}, {0xd800, 0xdfff}, {0xd7fe, 0xd801}, {0xdffe, 0xe001}, {0xd7ff, 0xe000}, {0xd800, 0xd800}}[r.Intn(6)]}
	}
	if c.Odd && r.Chance(.1) {
		return Num{Base: base, Vals: []uint64{ch(), 0xd800}}
	}
	if c.TooBig && r.Chance(.3) {
		return Num{Base: base, Range: true, Vals: [][]uint64{{0x61, 0x110000}, {0x10fffe, 0x120000}, {0x110000, 0x120000}, {0x61, 1 << 33}, {1 << 33, 1 << 34}}[r.Intn(5)]}
	}
	if c.Uni && r.Chance(.2) {
		return Num{Base: base, Range: true, Vals: [][]uint64{{0x80, 0x10ffff}, {0, 0x10ffff}, {0x7f, 0x80}, {0xfff0, 0xffff}, {0x7ff, 0x800}, {0xffff, 0x10000}, {0x61, 0x10ffff}, {0xc0, 0xff}, {0, 0x7f}, {0x80, 0xd7ff}, {0xe000, 0xfffd}}[r.Intn(11)]}
	}
	if r.Chance(.45) {
		lo := ch()
		hi := lo + uint64(r.Intn(4))
		if c.Uni && r.Chance(.3) {
			hi = lo + uint64(r.Intn(0x900))
		}
		if hi > 0x10ffff {
			hi = 0x10ffff
		}
		return Num{Base: base, Range: true, Vals: []uint64{lo, hi}}
	}
	v := []uint64{ch()}
	for r.Chance(.4) && len(v) < 3 {
		v = append(v, ch())
	}
	return Num{Base: base, Vals: v}
}

// Productive returns the rules (lower case) that derive at least one word.
func Productive(g *Gram) map[string]bool { return productive(g) }

func productive(g *Gram) map[string]bool {
	prod := map[string]bool{}
	names := g.Names()
	for k := range core {
		names = append(names, k)
	}
	var altP func(a Alt) bool
	elP := func(e El) bool {
		switch v := e.(type) {
		case Ref:
			return prod[low(v.Name)]
		case Grp:
			return altP(v.Alt)
		case Opt:
			return true
		case Prose:
			return false
		case Num:
			if v.Range {
				return v.Vals[0] <= 0x10ffff && v.Vals[0] <= v.Vals[1] && !(v.Vals[0] >= 0xd800 && v.Vals[1] <= 0xdfff)
			}
			for _, x := range v.Vals {
				if x > 0x10ffff || (x >= 0xd800 && x <= 0xdfff) {
					return false
				}
			}
		}
		return true
	}
	altP = func(a Alt) bool {
		for _, c := range a.Cats {
			ok := true
			for _, r := range c.Reps {
				if r.Max != Inf && r.Max < r.Min {
					ok = false
				}
				if r.Min > 0 && !elP(r.El) {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
		return false
	}
	for ch := true; ch; {
		ch = false
		for _, n := range names {
			n = low(n)
			if !prod[n] && g.Find(n) != nil && altP(g.Find(n).Alt) {
				prod[n] = true
				ch = true
			}
		}
	}
	return prod
}

// MaxRange is the size of the widest value range of the grammar.
func (g *Gram) MaxRange() int64 {
	m := int64(0)
	for _, r := range g.Rules {
		walkAlt(r.Alt, func(p Rep) {
			if v, ok := p.El.(Num); ok && v.Range && len(v.Vals) == 2 {
				m = max(m, int64(v.Vals[1])-int64(v.Vals[0]))
			}
		})
	}
	return m
}
