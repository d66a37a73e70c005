package h

import "strings"

// Literals beyond US-ASCII. No ABNF text can spell them, but a Grammar put together
// by its owner can have them, and matchers, printers and generators go by runes.

// ExoticMark ends the text of a grammar whose literals are to be read through Exotic.
const ExoticMark = ";~exotic\r\n"

var exoticRunes = map[rune]rune{
	'@': 'é', '`': '€', '[': '😀', '{': '\u212a', '_': 'ſ', '}': '\ufffd', '~': '\u0080', '#': '\u0130', ']': '\u00df', '^': '\U0010ffff', 'z': 'ж', 'Z': 'Ж', '0': '\u07ff', '-': '\u0800', '!': '\uffff',
}

// RefRead is RefParse for the text of a scenario.
func RefRead(text string) (*Gram, error) {
	g, err := RefParse([]byte(text))
	if err == nil && IsExotic(text) {
		g = Exotic(g)
	}
	return g, err
}

func IsExotic(text string) bool { return strings.HasSuffix(text, ExoticMark) }

// Exotic replaces some characters of g's literals.
func Exotic(g *Gram) *Gram {
	var alt func(a *Alt)
	el := func(e El) El {
		switch v := e.(type) {
		case Grp:
			alt(&v.Alt)
			return v
		case Opt:
			alt(&v.Alt)
			return v
		case Chr:
			v.S = strings.Map(func(r rune) rune {
				if x, ok := exoticRunes[r]; ok {
					return x
				}
				return r
			}, v.S)
			return v
		}
		return e
	}
	alt = func(a *Alt) {
		a.Cats = append([]Cat(nil), a.Cats...)
		for i := range a.Cats {
			c := &a.Cats[i]
			c.Reps = append([]Rep(nil), c.Reps...)
			for j := range c.Reps {
				c.Reps[j].El = el(c.Reps[j].El)
			}
		}
	}
	out := &Gram{}
	for _, d := range g.Rules {
		n := *d
		alt(&n.Alt)
		out.Rules = append(out.Rules, &n)
	}
	return out
}
