package h

import "github.com/pandatix/go-abnf/zsim/simrt"

// CoreNames lists the core rules.
var CoreNames = []string{"ALPHA", "BIT", "CHAR", "CR", "CRLF", "CTL", "DIGIT", "DQUOTE", "HEXDIG", "HTAB", "LF", "LWSP", "OCTET", "SP", "VCHAR", "WSP"}

// Redefines reports whether the grammar defines or extends a core rule.
func (g *Gram) Redefines() bool {
	for _, r := range g.Rules {
		if IsCore(r.Name) {
			return true
		}
	}
	return false
}

// RedefCore makes the grammar define or extend a core rule of its own: one of its
// rules takes the name of a core rule, or a core rule it uses gets a new
// definition.
func RedefCore(g *Gram, r *simrt.Rand) {
	name := CoreNames[r.Intn(len(CoreNames))]
	var used []string
	for _, d := range g.Rules {
		WalkAlt(d.Alt, func(x Rep) {
			if v, ok := x.El.(Ref); ok && IsCore(v.Name) {
				used = append(used, low(v.Name))
			}
		})
	}
	if len(used) > 0 && r.Chance(.7) {
		name = used[r.Intn(len(used))]
		// a core rule another one refers to
		switch name {
		case "hexdig":
			name = "digit"
		case "lwsp":
			name = []string{"wsp", "crlf", "sp", "lwsp"}[r.Intn(4)]
		case "wsp":
			name = []string{"sp", "htab", "wsp"}[r.Intn(3)]
		case "crlf":
			name = []string{"cr", "lf", "crlf"}[r.Intn(3)]
		}
	}
	if g.Has(name) {
		return
	}
	if r.Chance(.3) {
		name = caseOf(name, r)
	}
	if len(used) > 0 && r.Chance(.5) {
		d := &RuleDef{Name: name, Inc: r.Chance(.5), Alt: Alt{Cats: []Cat{{Reps: []Rep{{Min: 1, Max: 1, El: Chr{S: []string{"a", "b", "1", ""}[r.Intn(4)]}}}}}}}
		if r.Chance(.3) {
			d.Alt.Cats[0].Reps[0].El = Ref{Name: g.Rules[r.Intn(len(g.Rules))].Name}
		}
		g.Rules = append(g.Rules, d)
		return
	}
	old := low(g.Rules[r.Intn(len(g.Rules))].Name)
	if IsCore(old) {
		return
	}
	for _, d := range g.Rules {
		if low(d.Name) == old {
			d.Name = name
		}
		renameRefs(d.Alt, old, name, r)
	}
}

func caseOf(s string, r *simrt.Rand) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' && r.Chance(.5) {
			b[i] = c - 32
		} else if c >= 'A' && c <= 'Z' && r.Chance(.5) {
			b[i] = c + 32
		}
	}
	return string(b)
}

func renameRefs(a Alt, old, name string, r *simrt.Rand) {
	for _, c := range a.Cats {
		for i := range c.Reps {
			switch v := c.Reps[i].El.(type) {
			case Ref:
				if low(v.Name) == old {
					n := name
					if r.Chance(.3) {
						n = caseOf(name, r)
					}
					c.Reps[i].El = Ref{Name: n}
				}
			case Grp:
				renameRefs(v.Alt, old, name, r)
			case Opt:
				renameRefs(v.Alt, old, name, r)
			}
		}
	}
}

// oddNames: names of ABNF's own grammar, names that contain one another or differ
// only in hyphens, names close to core rules, Go keywords, long ones.
var oddNames = []string{
	"rule", "rulelist", "rulename", "elements", "element", "alternation", "repetition", "group", "option", "c-wsp", "char-val", "num-val", "defined-as",
	"x", "x1", "x-1", "x--1", "x-", "xx", "X-Y", "xy", "x11", "xA",
	"alphas", "alpha-1", "digits", "bits", "sp-", "crl", "lf-x", "ows",
	"type", "func", "nil", "range", "map", "string", "parse", "Valid", "Tree", "len", "init", "error",
	"a-rule-name-that-is-rather-longer-than-any-other-one-in-here-and-goes-on-and-on-for-more-than-a-hundred-octets-1",
	"a-rule-name-that-is-rather-longer-than-any-other-one-in-here-and-goes-on-and-on-for-more-than-a-hundred-octets-2",
}

// Rename gives some rules names of that list.
func Rename(g *Gram, r *simrt.Rand) {
	for k := 1 + r.Intn(4); k > 0; k-- {
		name := oddNames[r.Intn(len(oddNames))]
		if r.Chance(.2) {
			name = caseOf(name, r)
		}
		old := low(g.Rules[r.Intn(len(g.Rules))].Name)
		if g.Has(name) || IsCore(old) {
			continue
		}
		for _, d := range g.Rules {
			if low(d.Name) == old {
				d.Name = name
			}
			renameRefs(d.Alt, old, name, r)
		}
	}
}
