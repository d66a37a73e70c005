package h

import (
	goabnf "github.com/pandatix/go-abnf"
)

// Build constructs the library's Grammar from the model without going through
// ParseABNF (prose-vals cannot be expressed this way: ok is false).
func (g *Gram) Build() (*goabnf.Grammar, bool) {
	ok := true
	var alt func(a Alt) goabnf.Alternation
	el := func(e El) goabnf.ElemItf {
		switch v := e.(type) {
		case Ref:
			return goabnf.ElemRulename{Name: v.Name}
		case Grp:
			return goabnf.ElemGroup{Alternation: alt(v.Alt)}
		case Opt:
			return goabnf.ElemOption{Alternation: alt(v.Alt)}
		case Chr:
			return goabnf.ElemCharVal{Sensitive: v.CS, Values: []rune(v.S)}
		case Num:
			n := goabnf.ElemNumVal{Base: string(v.Base), Status: goabnf.StatSeries}
			if v.Range {
				n.Status = goabnf.StatRange
			}
			for _, x := range v.Vals {
				n.Elems = append(n.Elems, numText(x, v.Base))
			}
			return n
		}
		ok = false
		return nil
	}
	alt = func(a Alt) goabnf.Alternation {
		var out goabnf.Alternation
		for _, c := range a.Cats {
			var cc goabnf.Concatenation
			for _, r := range c.Reps {
				cc.Repetitions = append(cc.Repetitions, goabnf.Repetition{Min: r.Min, Max: r.Max, Element: el(r.El)})
			}
			out.Concatenations = append(out.Concatenations, cc)
		}
		return out
	}
	mp := map[string]*goabnf.Rule{}
	for _, n := range g.Names() {
		r := g.Find(n)
		mp[r.Name] = &goabnf.Rule{Name: r.Name, Alternation: alt(r.Alt)}
	}
	return &goabnf.Grammar{Rulemap: mp}, ok
}
