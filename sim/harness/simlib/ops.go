package main

import (
	"crypto/sha256"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
	"github.com/pandatix/go-abnf/zsim/harness/h"
	"github.com/pandatix/go-abnf/zsim/simrt"
)

// A client of the library: grammars in slots and the long-lived objects made
// from them. Operations run against it and report a digest of their result.
type client struct {
	sc   *h.Scenario
	ins  [][]byte
	g    []*goabnf.Grammar
	gerr []string
	objs map[string]any // transition graphs, generators, forests by key
	// frozen: shared by several tasks, nothing is added any more
	frozen bool
	errs   map[string]error
}

func newClient(sc *h.Scenario) *client {
	c := &client{sc: sc, g: make([]*goabnf.Grammar, len(sc.Grammars)), gerr: make([]string, len(sc.Grammars)), objs: map[string]any{}, errs: map[string]error{}}
	for _, in := range sc.Inputs {
		c.ins = append(c.ins, append([]byte(nil), in...))
	}
	return c
}

// abnfFlags are the ParseABNF options of grammar slot i.
func (c *client) abnfFlags(i int) []goabnf.ABNFOption {
	f := c.sc.Par[fmt.Sprintf("flags%d", i)]
	return []goabnf.ABNFOption{goabnf.WithRedefineCoreRules(f&1 != 0), goabnf.WithValidation(f&2 == 0)}
}

// grammar parses slot i on first use.
func (c *client) grammar(i int) *goabnf.Grammar {
	if c.g[i] == nil && c.gerr[i] == "" {
		src := []byte(c.sc.Grammars[i])
		g, err := goabnf.ParseABNF(src, c.abnfFlags(i)...)
		if err != nil {
			c.gerr[i] = err.Error()
		} else {
			c.g[i] = g
		}
	}
	return c.g[i]
}

// prepare makes everything the operations share, then freezes the client.
func (c *client) prepare(tasks [][]h.Op) {
	for _, t := range tasks {
		for _, op := range t {
			if c.grammar(op.G) == nil {
				continue
			}
			switch op.Kind {
			case "forest-again":
				c.forest(op)
			case "bsr-again":
				c.bsr(op)
			case "mermaid", "reader", "reader-compact":
				c.tg(op)
			case "ast", "ast-rand":
				c.ast(op)
			case "walk", "walk-rand", "nearmiss", "nearmiss-rand", "expected":
				c.gen(op)
			}
		}
	}
	c.frozen = true
}

// result of one operation.
type result struct {
	digest   string        // what must not depend on history or schedule
	live     func() string // re-reads the result: it must not change later
	scribble func()        // what a caller may do to a result it owns
}

func text(f string, a ...any) result { return result{digest: fmt.Sprintf(f, a...)} }

func bytesResult(b []byte, extra string) result {
	d := fmt.Sprintf("%q %s", b, extra)
	return result{digest: d, live: func() string { return fmt.Sprintf("%q %s", b, extra) }, scribble: func() { scribble(b) }}
}

func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0xA5
	}
}

func treeText(t *goabnf.ParseTree) string {
	if t == nil {
		return "nil"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s[%d,%d](", t.Rule, t.Start, t.End)
	for _, k := range t.Children {
		b.WriteString(treeText(k))
	}
	b.WriteString(")")
	return b.String()
}

func scribbleTree(t *goabnf.ParseTree) {
	if t == nil {
		return
	}
	for _, k := range t.Children {
		scribbleTree(k)
	}
	t.Rule, t.Start, t.End = "scribble", -7, -7
	for i := range t.Children {
		t.Children[i] = nil
	}
}

// errText is the error without what legitimately depends on the order in which
// faults are met (which of several faults is named).
func errText(err error) string { return fmt.Sprintf("%T %v", err, err) }

func peText(p *goabnf.ParseError) string {
	if p == nil {
		return "none"
	}
	e := append([]string(nil), p.Expected...)
	return fmt.Sprintf("%d %d %d %q %q %q", p.Offset, p.Line, p.Col, e, p.Found, p.Hint)
}

func linesOf(s string) string {
	l := strings.Split(strings.ReplaceAll(s, "\r\n", "\n"), "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// graphText ignores node identities and the order nodes are listed in.
func graphText(tg *goabnf.TransitionGraph) string {
	seen := map[*goabnf.Node]bool{}
	var lines []string
	name := func(n *goabnf.Node) string {
		if n == nil || n.Elem == nil {
			return "empty"
		}
		return n.Elem.String()
	}
	var rec func(n *goabnf.Node)
	rec = func(n *goabnf.Node) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		var ns []string
		for _, x := range n.Nexts {
			ns = append(ns, name(x))
		}
		sort.Strings(ns)
		lines = append(lines, name(n)+" -> "+strings.Join(ns, ","))
		for _, x := range n.Nexts {
			rec(x)
		}
	}
	var in, out []string
	for _, e := range tg.Entrypoints {
		in = append(in, name(e))
		rec(e)
	}
	for _, e := range tg.Endpoints {
		out = append(out, name(e))
	}
	sort.Strings(in)
	sort.Strings(out)
	sort.Strings(lines)
	return fmt.Sprintf("in %q out %q\n%s", in, out, strings.Join(lines, "\n"))
}

// graphExact is the graph with its identities and orders: nothing may touch it.
func graphExact(tg *goabnf.TransitionGraph) string {
	seen := map[*goabnf.Node]bool{}
	var b strings.Builder
	var rec func(n *goabnf.Node)
	id := func(n *goabnf.Node) string {
		if n == nil {
			return "nil"
		}
		return n.ID
	}
	rec = func(n *goabnf.Node) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		fmt.Fprintf(&b, "%s %T %v:", n.ID, n.Elem, n.Elem)
		for _, x := range n.Nexts {
			b.WriteString(" " + id(x))
		}
		b.WriteString("\n")
		for _, x := range n.Nexts {
			rec(x)
		}
	}
	for _, e := range tg.Entrypoints {
		b.WriteString("in " + id(e) + "\n")
		rec(e)
	}
	for _, e := range tg.Endpoints {
		b.WriteString("out " + id(e) + "\n")
	}
	return b.String()
}

func hashText(b []byte) string { return fmt.Sprintf("%d bytes %x", len(b), sha256.Sum256(b)) }

// tg returns the shared transition graph of a slot.
func (c *client) tg(op h.Op) (*goabnf.TransitionGraph, error) {
	k := fmt.Sprintf("tg|%d|%s", op.G, op.Rule)
	if v, ok := c.objs[k].(*goabnf.TransitionGraph); ok {
		return v, nil
	}
	if err := c.errs[k]; err != nil {
		return nil, err
	}
	if c.frozen {
		panic("harness: shared object is missing: " + k)
	}
	tg, err := c.grammar(op.G).TransitionGraph(op.Rule, goabnf.WithDeflateRules(true), goabnf.WithMaxNodes(150), goabnf.WithRepetitionThreshold(40),
		goabnf.WithDeflateNumVals(c.sc.Par["mask"]&1 != 0), goabnf.WithDeflateCharVals(c.sc.Par["mask"]&2 != 0))
	if err == nil {
		c.objs[k] = tg
	} else {
		c.errs[k] = err
	}
	return tg, err
}

func (c *client) gen(op h.Op) (*goabnf.Generator, error) {
	k := fmt.Sprintf("gen|%d|%s", op.G, op.Rule)
	if v, ok := c.objs[k].(*goabnf.Generator); ok {
		return v, nil
	}
	if err := c.errs[k]; err != nil {
		return nil, err
	}
	if c.frozen {
		panic("harness: shared object is missing: " + k)
	}
	tg, err := c.tg(op)
	if err != nil {
		c.errs[k] = err
		return nil, err
	}
	o := []goabnf.GenOption{goabnf.WithMaxLength(40)}
	if c.sc.Par["mask"]&4 != 0 {
		o = append(o, goabnf.WithStableAddressing())
	}
	g, err := goabnf.NewGenerator(tg, o...)
	if err == nil {
		c.objs[k] = g
	} else {
		c.errs[k] = err
	}
	return g, err
}

func (c *client) ast(op h.Op) (*goabnf.ASTGenerator, error) {
	k := fmt.Sprintf("ast|%d|%s", op.G, op.Rule)
	if v, ok := c.objs[k].(*goabnf.ASTGenerator); ok {
		return v, nil
	}
	if err := c.errs[k]; err != nil {
		return nil, err
	}
	if c.frozen {
		panic("harness: shared object is missing: " + k)
	}
	g, err := goabnf.NewASTGenerator(c.grammar(op.G), op.Rule, goabnf.WithMaxLen(40), goabnf.WithMaxDepth(6), goabnf.WithMaxRepeat(4))
	if err == nil {
		c.objs[k] = g
	} else {
		c.errs[k] = err
	}
	return g, err
}

func (c *client) forest(op h.Op) (*goabnf.Forest, error) {
	k := fmt.Sprintf("forest|%d|%s|%d", op.G, op.Rule, op.In)
	if v, ok := c.objs[k].(*goabnf.Forest); ok {
		return v, nil
	}
	if err := c.errs[k]; err != nil {
		return nil, err
	}
	if c.frozen {
		panic("harness: shared object is missing: " + k)
	}
	f, err := goabnf.Parse(c.ins[op.In], c.grammar(op.G), op.Rule)
	if err == nil {
		c.objs[k] = f
	} else {
		c.errs[k] = err
	}
	return f, err
}

func (c *client) bsr(op h.Op) (*goabnf.BSRForest, error) {
	k := fmt.Sprintf("bsr|%d|%s|%d", op.G, op.Rule, op.In)
	if v, ok := c.objs[k].(*goabnf.BSRForest); ok {
		return v, nil
	}
	if err := c.errs[k]; err != nil {
		return nil, err
	}
	if c.frozen {
		panic("harness: shared object is missing: " + k)
	}
	f, err := goabnf.ParseBSR(c.ins[op.In], c.grammar(op.G), op.Rule)
	if err == nil {
		c.objs[k] = f
	} else {
		c.errs[k] = err
	}
	return f, err
}

func bigResult(n *big.Int, t *goabnf.ParseTree, extra string) result {
	ex := treeText(t)
	return result{
		digest: fmt.Sprintf("trees=%s hastree=%v %s", n, t != nil, extra),
		live:   func() string { return n.String() + ex[:0] + treeText(t) },
		scribble: func() {
			n.SetInt64(-12345)
			scribbleTree(t)
		},
	}
}

// readOps only read what they are given; parseOps make new grammars.
var readOps = []string{"isvalid", "forest", "bsr", "forest-again", "bsr-again", "regex", "tg", "reader", "reader-compact", "generate", "ast", "ast-rand", "walk", "walk-rand", "nearmiss", "nearmiss-rand", "expected", "codegen", "deps", "cycle", "semval", "print", "getrule", "mermaid", "rulestrings"}
var parseOps = []string{"parse", "parse", "parse-text", "evaluate", "meta-isvalid", "codegen-abnf", "reparse"}

// do runs one operation.
func (c *client) do(op h.Op) result {
	var in []byte
	if op.In < len(c.ins) {
		in = c.ins[op.In]
	}
	switch op.Kind {
	case "parse", "reparse", "evaluate":
		src := []byte(c.sc.Grammars[op.G])
		var g *goabnf.Grammar
		var err error
		if op.Kind == "evaluate" {
			var f *goabnf.Forest
			f, err = goabnf.Parse(src, goabnf.ABNF, "rulelist")
			if err == nil {
				if !f.Valid() {
					return text("invalid %s", peText(f.ParseError()))
				}
				g, err = goabnf.EvaluateABNF(src, f, c.abnfFlags(op.G)...)
			}
		} else {
			g, err = goabnf.ParseABNF(src, c.abnfFlags(op.G)...)
		}
		if string(src) != c.sc.Grammars[op.G] {
			return text("INPUT CHANGED")
		}
		if err != nil {
			return text("error %T", err)
		}
		scribble(src) // the caller reuses its buffer
		if op.Kind == "reparse" {
			// replaces the slot and forgets the objects made from the old grammar
			c.g[op.G] = g
			for _, k := range sortedKeys(c.objs) {
				if strings.Contains(k, fmt.Sprintf("|%d|", op.G)) {
					delete(c.objs, k)
				}
			}
			clear(c.errs)
			return text("%s", canon(g))
		}
		return result{digest: canon(g), live: func() string { return exact(g) }, scribble: func() { scribbleGrammar(g) }}
	case "parse-text":
		// an input read as a grammar: mostly an error
		g, err := goabnf.ParseABNF(in)
		if err != nil {
			return text("error %s", errText(err))
		}
		return text("%s", canon(g))
	case "meta-isvalid":
		ok, err := goabnf.ABNF.IsValid("rulelist", []byte(c.sc.Grammars[op.G]))
		return text("%v %v", ok, err)
	case "codegen-abnf":
		b, err := goabnf.GenerateGoParserFromABNF([]byte(c.sc.Grammars[op.G]), op.Rule, "p", c.abnfFlags(op.G)...)
		if err != nil {
			return text("error %T", err)
		}
		return result{digest: hashText(b), live: func() string { return hashText(b) }, scribble: func() { scribble(b) }}
	}
	g := c.grammar(op.G)
	if g == nil {
		return text("no grammar: %v", len(c.gerr[op.G]) > 0)
	}
	switch op.Kind {
	case "isvalid":
		ok, err := g.IsValid(op.Rule, in)
		return text("%v %v", ok, err)
	case "diag": // what is reported for every input of the scenario
		var sb strings.Builder
		for _, in := range c.ins {
			f, err := goabnf.Parse(in, g, op.Rule)
			if err != nil {
				fmt.Fprintf(&sb, "error %s\n", errText(err))
				continue
			}
			fmt.Fprintf(&sb, "%s\n", peText(f.ParseError()))
		}
		return text("%s", sb.String())
	case "forest", "forest-again":
		var f *goabnf.Forest
		var err error
		if op.Kind == "forest" {
			f, err = goabnf.ParseForest(in, g, op.Rule)
		} else {
			f, err = c.forest(op)
		}
		if err != nil {
			return text("error %s", errText(err))
		}
		return bigResult(f.NumTrees(), f.Tree(), fmt.Sprintf("valid=%v amb=%v pe=%s", f.Valid(), f.Ambiguous(), peText(f.ParseError())))
	case "bsr", "bsr-again":
		var f *goabnf.BSRForest
		var err error
		if op.Kind == "bsr" {
			f, err = goabnf.ParseBSR(in, g, op.Rule)
		} else {
			f, err = c.bsr(op)
		}
		if err != nil {
			return text("error %s", errText(err))
		}
		return bigResult(f.NumTrees(), f.Tree(), fmt.Sprintf("valid=%v amb=%v nodes=%d", f.Valid(), f.Ambiguous(), f.Nodes()))
	case "regex":
		s, err := g.Regex(op.Rule, goabnf.WithMaxRegexLen(2000))
		return text("%s %v", s, err)
	case "tg":
		tg, err := g.TransitionGraph(op.Rule, goabnf.WithMaxNodes(150), goabnf.WithRepetitionThreshold(40), goabnf.WithDeflateRules(op.N&1 == 0), goabnf.WithDeflateNumVals(op.N&2 != 0), goabnf.WithDeflateCharVals(op.N&4 != 0))
		if err != nil {
			return text("error %s", errText(err))
		}
		return result{digest: graphText(tg), live: func() string { return graphExact(tg) }, scribble: func() {
			// a caller may rewire its own graph
			for _, e := range tg.Entrypoints {
				if e != nil && e.ID != "" && e.Elem != nil {
					e.Nexts = nil
				}
			}
			tg.Entrypoints = nil
		}}
	case "mermaid":
		tg, err := c.tg(op)
		if err != nil {
			return text("error %s", errText(err))
		}
		d := linesOf(g.DependencyGraph().Mermaid())
		return text("%s\n%d", d, len(strings.Split(tg.ToMermaid(), "\n")))
	case "reader", "reader-compact":
		tg, err := c.tg(op)
		if err != nil {
			return text("error %s", errText(err))
		}
		o := []goabnf.ReaderOption{}
		if op.Kind == "reader-compact" {
			o = append(o, goabnf.WithCoverageMode(goabnf.CoverageCompact))
		}
		rd := tg.Reader(o...)
		var outs [][]byte
		var digest []string
		for len(outs) < 12 && rd.Next() {
			b := rd.Scan()
			digest = append(digest, fmt.Sprintf("%q", b))
			if op.N&1 != 0 {
				scribble(b) // the caller owns what it scanned
			}
			outs = append(outs, b)
		}
		if op.N&1 != 0 {
			// writing into what it scanned must not change what comes next
			again := tg.Reader(o...)
			for i := 0; i < len(outs) && again.Next(); i++ {
				if s := fmt.Sprintf("%q", again.Scan()); s != digest[i] {
					return text("OVERWRITTEN string %d of the reader is %s, or %s when the caller wrote into the ones before", i, s, digest[i])
				}
			}
		}
		return result{digest: strings.Join(digest, " "), live: func() string { return fmt.Sprintf("%q", outs) }, scribble: func() {
			for _, b := range outs {
				scribble(b)
			}
		}}
	case "generate":
		b, err := g.Generate(op.N, op.Rule, goabnf.WithRepMax(3), goabnf.WithThreshold(20))
		if err != nil {
			return text("error %s", errText(err))
		}
		return bytesResult(b, "")
	case "ast", "ast-rand":
		ag, err := c.ast(op)
		if err != nil {
			return text("error %T", err)
		}
		if op.Kind == "ast-rand" {
			return bytesResult(ag.GenerateRand(rand.New(rand.NewSource(op.N))), "")
		}
		tp := append([]byte(nil), op.Tape...)
		r := bytesResult(ag.Generate(tp), "")
		scribble(tp)
		return r
	case "walk", "walk-rand", "nearmiss", "nearmiss-rand", "expected":
		gn, err := c.gen(op)
		if err != nil {
			return text("error %s", errText(err))
		}
		switch op.Kind {
		case "walk":
			tp := append([]byte(nil), op.Tape...)
			r := bytesResult(gn.Generate(tp), "")
			scribble(tp)
			return r
		case "walk-rand":
			return bytesResult(gn.GenerateRand(rand.New(rand.NewSource(op.N))), "")
		case "nearmiss":
			b, l, ok := gn.NearMiss(op.Tape)
			return bytesResult(b, fmt.Sprint(l, ok))
		case "nearmiss-rand":
			b, l, ok := gn.NearMissRand(rand.New(rand.NewSource(op.N)))
			return bytesResult(b, fmt.Sprint(l, ok))
		}
		p := in
		if op.N > 0 && int(op.N) < len(p) {
			p = p[:op.N]
		}
		b, acc, ok := gn.ExpectedNext(p)
		return bytesResult(b, fmt.Sprint(acc, ok))
	case "codegen":
		b, err := goabnf.GenerateGoParser(g, op.Rule, "p")
		if err != nil {
			return text("error %s", errText(err))
		}
		return result{digest: hashText(b), live: func() string { return hashText(b) }, scribble: func() { scribble(b) }}
	case "deps":
		dg := g.DependencyGraph()
		return result{digest: linesOf(dg.Mermaid()), live: func() string { return linesOf(dg.Mermaid()) }, scribble: func() {
			for _, k := range []string{"alpha", "a", "b", "digit"} {
				if n := dg[k]; n != nil {
					for i := range n.Dependencies {
						n.Dependencies[i] = "scribble"
					}
				}
				delete(dg, k)
			}
		}}
	case "cycle":
		ok, err := g.RuleContainsCycle(op.Rule)
		return text("%v %v %v", ok, err, g.IsDAG())
	case "semval":
		return text("%v", goabnf.SemvalABNF(g) == nil)
	case "print":
		return text("%s\n%s", linesOf(g.String()), linesOf(g.PrettyPrint()))
	case "getrule":
		r := goabnf.GetRule(op.Rule, g.Rulemap)
		d := "nil"
		if r != nil {
			d = r.Name + exactAlt(r.Alternation)
		}
		a := goabnf.GetRule("alpha", g.Rulemap)
		return text("%s %s %s", d, a.Name, exactAlt(a.Alternation))
	case "rulestrings":
		r := goabnf.GetRule(op.Rule, g.Rulemap)
		if r == nil {
			return text("nil")
		}
		return text("%s", r.Alternation.String())
	}
	panic("harness: unknown operation " + op.Kind)
}

// objText is what may be observed of a shared object, when that is possible.
func (c *client) objText(key string) string {
	if tg, ok := c.objs[key].(*goabnf.TransitionGraph); ok {
		return graphExact(tg)
	}
	return ""
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// scribbleGrammar is what a caller may do to a grammar it owns: edit every rule
// in place, add and delete rules.
func scribbleGrammar(g *goabnf.Grammar) {
	var alt func(a *goabnf.Alternation)
	alt = func(a *goabnf.Alternation) {
		for ci := range a.Concatenations {
			c := &a.Concatenations[ci]
			for ri := range c.Repetitions {
				p := &c.Repetitions[ri]
				switch v := p.Element.(type) {
				case goabnf.ElemGroup:
					alt(&v.Alternation)
				case goabnf.ElemOption:
					alt(&v.Alternation)
				case goabnf.ElemCharVal:
					for i := range v.Values {
						v.Values[i] = '!'
					}
				case goabnf.ElemNumVal:
					for i := range v.Elems {
						v.Elems[i] = "1"
					}
				}
				p.Min, p.Max = 7, 7
				p.Element = goabnf.ElemCharVal{Values: []rune("scribble")}
			}
			c.Repetitions = append(c.Repetitions, goabnf.Repetition{Min: 1, Max: 1, Element: goabnf.ElemCharVal{Values: []rune("more")}})
		}
		a.Concatenations = append(a.Concatenations, goabnf.Concatenation{})
	}
	for _, k := range sortedKeys(g.Rulemap) {
		alt(&g.Rulemap[k].Alternation)
		g.Rulemap[k].Name = "scribble-" + g.Rulemap[k].Name
	}
	for _, k := range sortedKeys(g.Rulemap) {
		delete(g.Rulemap, k)
	}
}

// coreEdits are rule definitions that touch core rules.
var coreEdits = []string{"ALPHA =/ %x31\r\n", "DIGIT = \"z\"\r\n", "alpha = %x61-62\r\n", "WSP =/ \"_\"\r\n", "CRLF =/ LF\r\n", "BIT = \"a\" / ALPHA\r\n", "VCHAR =/ SP\r\n", "HEXDIG =/ \"x\"\r\n"}

// opsScenario draws several grammars, inputs and a pool of operations on them.
func opsScenario(r *simrt.Rand, idx, nG, maxRules int, kinds []string, nOps int) *h.Scenario {
	sc := &h.Scenario{Par: map[string]int64{"mask": int64(r.Intn(8))}}
	var rules []string
	for i := 0; i < nG; i++ {
		s := langScenario(r, idx, gopt{text: true, halved: true, inputs: 3, max: 6, scheds: 1, mod: func(c *h.GenCfg, r *simrt.Rand) {
			c.MaxRep = 5
			if r.Chance(.6) {
				c.Recursive = false
			}
			if r.Chance(.5) {
				c.Core = true
			}
			if c.Rules > maxRules {
				c.Rules = maxRules
			}
			if r.Chance(.1) {
				c.Undef, c.Prose = true, true
			}
		}})
		if s == nil {
			return nil
		}
		flags := int64(r.Intn(4))
		t := s.Grammars[0]
		if i > 0 && r.Chance(.5) {
			// the same rule names with other meanings: what is remembered under a
			// name must not leak
			m := mustRef(sc.Grammars[r.Intn(i)])
			varyGram(m, r)
			t, s.Rule = m.Text(), m.Rules[0].Name
		}
		if mustRef(t).Redefines() && r.Chance(.95) {
			flags |= 1
		}
		if r.Chance(.4) {
			t += coreEdits[r.Intn(len(coreEdits))]
			if r.Chance(.7) {
				flags |= 1
			}
		}
		sc.Grammars = append(sc.Grammars, t)
		sc.Par[fmt.Sprintf("flags%d", i)] = flags
		sc.Inputs = append(sc.Inputs, s.Inputs...)
		rules = append(rules, s.Rule)
	}
	sc.Str = map[string]string{"rules": strings.Join(rules, " ")}
	if r.Chance(.5) { // few kinds of calls, on every grammar
		few := make([]string, 1+r.Intn(3))
		for i := range few {
			few[i] = kinds[r.Intn(len(kinds))]
		}
		kinds = few
	}
	for i := 0; i < nOps; i++ {
		op := drawOp(sc, r, kinds)
		if i > 0 && r.Chance(.25) { // the previous call, on another grammar
			g := op.G
			op = sc.Ops[i-1]
			op.G = g
			if r.Chance(.5) {
				op.Rule = strings.Fields(sc.Str["rules"])[g]
			}
		}
		sc.Ops = append(sc.Ops, op)
	}
	return sc
}

// varyGram changes the meaning of a grammar, not the names in it.
func varyGram(g *h.Gram, r *simrt.Rand) {
	switch ss := sites(g); r.Intn(4) {
	case 0, 1:
		h.RedefCore(g, r)
	case 2:
		c := ss[r.Intn(len(ss))]
		c.Reps = append(c.Reps[:len(c.Reps):len(c.Reps)], h.Rep{Min: 1, Max: 1, El: h.Chr{S: []string{"x", "ab", "1"}[r.Intn(3)]}})
	case 3:
		c := ss[r.Intn(len(ss))]
		c.Reps = []h.Rep{{Min: 1, Max: 1, El: h.Chr{S: []string{"x", "ab", "1"}[r.Intn(3)]}}}
	}
}

// oddSeed is n or, now and then, a seed one might treat specially.
func oddSeed(r *simrt.Rand, n int64) int64 {
	if r.Chance(.15) {
		return []int64{0, 0, 0, 1, -1, -n, math.MinInt64, math.MaxInt64, 1 << 31, 1<<31 - 1}[r.Intn(10)]
	}
	return n
}

// drawOp draws one operation on the grammars of the scenario.
func drawOp(sc *h.Scenario, r *simrt.Rand, kinds []string) h.Op {
	op := h.Op{Kind: kinds[r.Intn(len(kinds))], G: r.Intn(len(sc.Grammars)), N: int64(r.Intn(8)), Tape: tape(r)}
	if len(op.Tape) > 24 {
		op.Tape = op.Tape[:24]
	}
	op.Rule = strings.Fields(sc.Str["rules"])[op.G]
	if r.Chance(.1) {
		op.Rule = []string{"ALPHA", "digit", "WSP", "nope", "b"}[r.Intn(5)]
	}
	switch op.Kind {
	case "generate", "ast-rand", "walk-rand", "nearmiss-rand":
		op.N = oddSeed(r, int64(r.Uint64()>>(8+uint(r.Intn(56)))))
	}
	op.In = op.G*3 + r.Intn(3)
	if r.Chance(.1) {
		op.In = r.Intn(len(sc.Inputs))
	}
	if op.In >= len(sc.Inputs) {
		op.In = 0
	}
	return op
}
