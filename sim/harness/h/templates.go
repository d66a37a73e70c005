package h

import (
	"fmt"

	"github.com/pandatix/go-abnf/zsim/simrt"
)

// Template draws a grammar from a family of shapes that are awkward for parsers:
// direct, indirect and hidden left recursion, left recursion inside groups,
// options and repetitions, nullable loops, shared sub-expressions that differ
// only in case sensitivity, bounded repetitions over ambiguous elements.
func Template(r *simrt.Rand, c GenCfg) *Gram {
	a := c.Alpha
	t := func() string {
		s := string(a[r.Intn(len(a))])
		if r.Chance(.2) {
			s += string(a[r.Intn(len(a))])
		}
		switch r.Intn(6) {
		case 0:
			return `%s"` + s + `"`
		case 1:
			return fmt.Sprintf("%%x%X", s[0])
		case 2:
			return fmt.Sprintf("%%x%X-%X", s[0], int(s[0])+r.Intn(3))
		}
		return `"` + s + `"`
	}
	rep := func() string {
		switch r.Intn(7) {
		case 0:
			return "*"
		case 1:
			return "1*"
		case 2:
			return fmt.Sprintf("%d", r.Intn(4))
		case 3:
			return fmt.Sprintf("*%d", r.Intn(4))
		case 4:
			n := r.Intn(3)
			return fmt.Sprintf("%d*%d", n, n+r.Intn(4))
		case 5:
			return fmt.Sprintf("%d*", r.Intn(4))
		}
		return ""
	}
	null := func() string {
		return []string{`""`, "*" + t(), "[" + t() + "]", "*(" + t() + " / " + t() + ")", `0*1` + t(), `("" / ` + t() + `)`}[r.Intn(6)]
	}
	var s string
	switch r.Intn(22) {
	case 0:
		s = fmt.Sprintf("a = a %s / %s\r\n", t(), t())
	case 1:
		s = fmt.Sprintf("a = (a %s) / %s\r\n", t(), t())
	case 2:
		s = fmt.Sprintf("a = [a] %s / %s\r\n", t(), t())
	case 3:
		s = fmt.Sprintf("a = b %s / %s\r\nb = a %s / %s\r\n", t(), t(), t(), t())
	case 4:
		s = fmt.Sprintf("a = b a %s / %s\r\nb = %s\r\n", t(), t(), null())
	case 5:
		s = fmt.Sprintf("a = a a / %s\r\n", t())
	case 6:
		s = fmt.Sprintf("a = %s a %s / %s\r\n", t(), t(), null())
	case 7:
		s = fmt.Sprintf("a = %s(%s / %s)\r\n", rep(), t(), t())
	case 8:
		s = fmt.Sprintf("a = %s(%s(%s / %s) %s)\r\n", rep(), rep(), t(), null(), t())
	case 9:
		s = fmt.Sprintf("a = %sb %sb\r\nb = %s / %s\r\n", rep(), rep(), t(), null())
	case 10:
		x := string(a[0])
		s = fmt.Sprintf("a = (%%s\"%s\" %s) / (\"%s\" %s)\r\n", x, t(), x, t())
	case 11:
		x := string(a[0])
		s = fmt.Sprintf("a = %s%%s\"%s\" %s / %s\"%s\" %s\r\n", rep(), x, t(), rep(), x, t())
	case 12:
		s = fmt.Sprintf("a = a %s / b\r\nb = b %s / c\r\nc = \"(\" a \")\" / %s\r\n", t(), t(), t())
	case 13:
		s = fmt.Sprintf("a = %s b / b %s\r\nb = [c] %s\r\nc = %sb / %s\r\n", t(), t(), t(), rep(), t())
	case 14:
		s = fmt.Sprintf("a = *(a / %s) %s / %s\r\n", t(), t(), t())
	case 15:
		s = fmt.Sprintf("a = %sb\r\nb = %s / %s %s\r\n", rep(), t(), t(), t())
	case 16:
		s = fmt.Sprintf("a = b / c\r\nb = c %s / %s\r\nc = b %s / a %s / %s\r\n", t(), t(), t(), t(), t())
	case 17:
		s = fmt.Sprintf("a = %s / %s\r\nA =/ %s a\r\n", t(), t(), t())
	case 18:
		s = fmt.Sprintf("a = %s [%s [%s [a]]]\r\n", t(), t(), t())
	case 19:
		s = fmt.Sprintf("a = %d*%d%s %s%s\r\n", r.Intn(3), 3+r.Intn(12), t(), rep(), t())
	case 20:
		s = fmt.Sprintf("a = 1*b %s\r\nb = 1*%s [b] / %s\r\n", t(), t(), null())
	case 21:
		s = fmt.Sprintf("a = ALPHA *(ALPHA / DIGIT / \"-\") [%s]\r\nb = a *(\".\" a)\r\n", t())
	}
	g, err := RefParse([]byte(s))
	if err != nil {
		panic("harness template: " + err.Error() + "\n" + s)
	}
	return g
}

// LeftRecursive reports whether a rule reachable from name can re-derive itself
// at the same position.
func (g *Gram) LeftRecursive(name string) bool {
	null := map[string]bool{}
	var altN func(a Alt) bool
	elN := func(e El) bool {
		switch v := e.(type) {
		case Ref:
			return null[low(v.Name)]
		case Grp:
			return altN(v.Alt)
		case Opt:
			return true
		case Chr:
			return v.S == ""
		}
		return false
	}
	altN = func(a Alt) bool {
		for _, c := range a.Cats {
			ok := true
			for _, p := range c.Reps {
				ok = ok && (p.Min == 0 || elN(p.El))
			}
			if ok {
				return true
			}
		}
		return false
	}
	reach := g.Reach(name)
	for ch := true; ch; {
		ch = false
		for n := range reach {
			if r := g.Find(n); r != nil && !null[n] && altN(r.Alt) {
				null[n] = true
				ch = true
			}
		}
	}
	corners := func(a Alt) map[string]bool {
		out := map[string]bool{}
		var w func(a Alt)
		w = func(a Alt) {
			for _, c := range a.Cats {
				for _, p := range c.Reps {
					switch v := p.El.(type) {
					case Ref:
						out[low(v.Name)] = true
					case Grp:
						w(v.Alt)
					case Opt:
						w(v.Alt)
					}
					if p.Min > 0 && !elN(p.El) {
						break
					}
				}
			}
		}
		w(a)
		return out
	}
	for n := range reach {
		seen := map[string]bool{}
		var w func(k string) bool
		w = func(k string) bool {
			r := g.Find(k)
			if r == nil {
				return false
			}
			for d := range corners(r.Alt) {
				if d == n {
					return true
				}
				if !seen[d] {
					seen[d] = true
					if w(d) {
						return true
					}
				}
			}
			return false
		}
		if w(n) {
			return true
		}
	}
	return false
}
