package h

import (
	"math/bits"
	"unicode/utf8"
)

// Prefix closure of the reference semantics: the chart gets one more position,
// "past the end of the input", reached when a terminal runs out of input.

func validScalar(v uint64) bool { return v <= utf8.MaxRune && !(v >= 0xD800 && v <= 0xDFFF) }

// startsWith: can a scalar in [lo,hi] be encoded as rem plus at least one octet?
func startsWith(rem []byte, lo, hi uint64) bool {
	type class struct{ lo, hi uint64 }
	for _, c := range []class{{0, 0x7f}, {0x80, 0x7ff}, {0x800, 0xd7ff}, {0xe000, 0xffff}, {0x10000, 0x10ffff}} {
		a, b := max(lo, c.lo), min(hi, c.hi)
		if a > b {
			continue
		}
		if len(rem) == 0 {
			return true
		}
		n := utf8.RuneLen(rune(c.lo))
		if len(rem) >= n {
			continue
		}
		var v uint64
		ok := true
		for k, x := range rem {
			switch {
			case k == 0:
				switch n {
				case 2:
					ok = x >= 0xc0 && x < 0xe0
					v = uint64(x & 0x1f)
				case 3:
					ok = x >= 0xe0 && x < 0xf0
					v = uint64(x & 0x0f)
				case 4:
					ok = x >= 0xf0 && x < 0xf8
					v = uint64(x & 0x07)
				}
			case x < 0x80 || x > 0xbf:
				ok = false
			default:
				v = v<<6 | uint64(x&0x3f)
			}
		}
		if !ok {
			continue
		}
		sh := uint(6 * (n - len(rem)))
		p, q := v<<sh, (v+1)<<sh-1
		if max(a, p) <= min(b, q) {
			return true
		}
	}
	return false
}

func swapCase(c rune) rune {
	switch {
	case c >= 'a' && c <= 'z':
		return c - 32
	case c >= 'A' && c <= 'Z':
		return c + 32
	}
	return c
}

// TermProductive: does any text match the terminal?
func TermProductive(t El) bool {
	switch v := t.(type) {
	case Chr:
		return true
	case Num:
		if v.Range {
			return startsWith(nil, v.Vals[0], v.Vals[1])
		}
		for _, x := range v.Vals {
			if !validScalar(x) {
				return false
			}
		}
		return true
	}
	return false
}

// partialTerm: does the input end inside a possible match of t at i?
func partialTerm(t El, in []byte, i int) bool {
	if !TermProductive(t) {
		return false
	}
	one := func(alts ...rune) (int, bool, bool) { // advance, partial, matched
		if i < len(in) {
			if c, n := utf8.DecodeRune(in[i:]); !(c == utf8.RuneError && n <= 1) {
				for _, a := range alts {
					if c == a {
						return n, false, true
					}
				}
				return 0, false, false
			}
		}
		for _, a := range alts {
			if startsWith(in[i:], uint64(a), uint64(a)) {
				return 0, true, false
			}
		}
		return 0, false, false
	}
	var seq [][]rune
	switch v := t.(type) {
	case Chr:
		for _, w := range v.S {
			if v.CS {
				seq = append(seq, []rune{w})
			} else {
				seq = append(seq, []rune{w, swapCase(w)})
			}
		}
	case Num:
		if v.Range {
			if i < len(in) {
				if c, n := utf8.DecodeRune(in[i:]); !(c == utf8.RuneError && n <= 1) {
					return false
				}
			}
			return startsWith(in[i:], v.Vals[0], v.Vals[1])
		}
		for _, w := range v.Vals {
			seq = append(seq, []rune{rune(w)})
		}
	}
	for _, alts := range seq {
		n, partial, ok := one(alts...)
		if partial {
			return true
		}
		if !ok {
			return false
		}
		i += n
	}
	return false
}

func (r *RefG) prodNodes() []bool {
	p := make([]bool, len(r.nodes))
	for ch := true; ch; {
		ch = false
		for id := range r.nodes {
			if p[id] {
				continue
			}
			nd := &r.nodes[id]
			ok := false
			switch nd.kind {
			case kEps:
				ok = true
			case kTerm:
				ok = TermProductive(nd.term)
			case kRule:
				ok = p[nd.kids[0]]
			case kAlt:
				for _, k := range nd.kids {
					ok = ok || p[k]
				}
			case kCat:
				ok = true
				for _, k := range nd.kids {
					ok = ok && p[k]
				}
			case kRep:
				ok = (nd.max == Inf || nd.max >= nd.min) && (nd.min == 0 || p[nd.kids[0]])
			}
			if ok {
				p[id], ch = true, true
			}
		}
	}
	return p
}

// Prefix decides whether in is a word of root, and whether some word of root has
// in as a prefix (in itself included).
func (r *RefG) Prefix(root int, in []byte) (word, viable bool) {
	n := len(in)
	if n > 60 {
		panic("harness: prefix too long for the reference chart")
	}
	past := n + 1
	prod := r.prodNodes()
	ends := make([][]uint64, len(r.nodes))
	for id, nd := range r.nodes {
		ends[id] = make([]uint64, n+2)
		for i := 0; i <= n; i++ {
			switch nd.kind {
			case kTerm:
				if e := MatchTerm(nd.term, in, i); e >= 0 {
					ends[id][i] |= 1 << e
				} else if partialTerm(nd.term, in, i) {
					ends[id][i] |= 1 << past
				}
			case kEps:
				ends[id][i] = 1 << i
			}
		}
		if prod[id] {
			ends[id][past] = 1 << past
		}
	}
	step := func(id int, from uint64) (s uint64) {
		for ; from != 0; from &= from - 1 {
			s |= ends[id][bits.TrailingZeros64(from)]
		}
		return
	}
	for ch := true; ch; {
		ch = false
		for id := len(r.nodes) - 1; id >= 0; id-- {
			nd := &r.nodes[id]
			for i := n; i >= 0; i-- {
				var s uint64
				switch nd.kind {
				case kRule:
					s = ends[nd.kids[0]][i]
				case kAlt:
					for _, k := range nd.kids {
						s |= ends[k][i]
					}
				case kCat:
					s = 1 << i
					for _, k := range nd.kids {
						s = step(k, s)
					}
				case kRep:
					if nd.max != Inf && nd.max < nd.min {
						break
					}
					lv := uint64(1) << i
					for k := 0; ; k++ {
						if k >= nd.min {
							s |= lv
						}
						if nd.max != Inf && k >= nd.max {
							break
						}
						nx := step(nd.kids[0], lv)
						if nx == 0 {
							break
						}
						if k > 2*n+6 {
							s |= nx
							break
						}
						lv = nx
					}
				default:
					continue
				}
				if s != ends[id][i] {
					ends[id][i] = s
					ch = true
				}
			}
		}
	}
	e := ends[root][0]
	return e>>n&1 == 1, e>>n&1 == 1 || e>>past&1 == 1
}

// EdgeOctets are octets worth probing: the ones in and next to the encodings of
// the terminals reachable from root.
func (r *RefG) EdgeOctets() map[byte]bool {
	o := map[byte]bool{0: true, 'a': true, 'A': true, 0x7f: true, 0x80: true, 0xbf: true, 0xc3: true, 0xff: true}
	put := func(v uint64) {
		if v > utf8.MaxRune {
			return
		}
		for _, b := range []byte(string(rune(v))) {
			o[b], o[b+1], o[b-1] = true, true, true
		}
	}
	for _, nd := range r.nodes {
		switch v := nd.term.(type) {
		case Chr:
			for _, c := range v.S {
				put(uint64(c))
				put(uint64(swapCase(c)))
			}
		case Num:
			for _, x := range v.Vals {
				put(x)
			}
		}
	}
	return o
}

// Language enumerates the language of the rule, or fails when it is infinite or
// has more than limit words (or intermediate combinations).
func Language(g *Gram, rule string, limit int) (map[string]bool, bool) {
	if g.Cyclic(rule) {
		return nil, false
	}
	memo := map[string]map[string]bool{}
	var alt func(a Alt) (map[string]bool, bool)
	cross := func(a, b map[string]bool) (map[string]bool, bool) {
		if len(a)*len(b) > 8*limit {
			return nil, false
		}
		o := map[string]bool{}
		for x := range a {
			for y := range b {
				o[x+y] = true
			}
		}
		return o, len(o) <= limit
	}
	el := func(e El) (map[string]bool, bool) {
		switch v := e.(type) {
		case Ref:
			k := low(v.Name)
			if m, ok := memo[k]; ok {
				return m, true
			}
			d := g.Find(k)
			if d == nil {
				return map[string]bool{}, true
			}
			m, ok := alt(d.Alt)
			if ok {
				memo[k] = m
			}
			return m, ok
		case Grp:
			return alt(v.Alt)
		case Opt:
			m, ok := alt(v.Alt)
			if !ok {
				return nil, false
			}
			o := map[string]bool{"": true}
			for k := range m {
				o[k] = true
			}
			return o, true
		case Chr:
			o := map[string]bool{"": true}
			for _, c := range v.S {
				n := map[string]bool{string(c): true}
				if !v.CS {
					n[string(swapCase(c))] = true
				}
				var ok bool
				if o, ok = cross(o, n); !ok {
					return nil, false
				}
			}
			return o, true
		case Num:
			o := map[string]bool{}
			if !TermProductive(v) {
				return o, true
			}
			if v.Range {
				if v.Vals[1]-v.Vals[0] > uint64(limit)+3000 {
					return nil, false
				}
				for x := v.Vals[0]; x <= v.Vals[1]; x++ {
					if validScalar(x) {
						o[string(rune(x))] = true
					}
				}
				return o, len(o) <= limit
			}
			s := ""
			for _, x := range v.Vals {
				s += string(rune(x))
			}
			o[s] = true
			return o, true
		}
		return nil, false
	}
	alt = func(a Alt) (map[string]bool, bool) {
		o := map[string]bool{}
		for _, c := range a.Cats {
			cur := map[string]bool{"": true}
			for _, rp := range c.Reps {
				m, ok := el(rp.El)
				if !ok {
					return nil, false
				}
				if rp.Max != Inf && rp.Max < rp.Min {
					cur = map[string]bool{}
					continue
				}
				rep := map[string]bool{}
				lv := map[string]bool{"": true}
				for k := 0; ; k++ {
					if k > 40 {
						return nil, false
					}
					grew := false
					if k >= rp.Min {
						for x := range lv {
							if !rep[x] {
								rep[x], grew = true, true
							}
						}
						if !grew {
							break
						}
					}
					if rp.Max != Inf && k >= rp.Max {
						break
					}
					if lv, ok = cross(lv, m); !ok {
						return nil, false
					}
				}
				if cur, ok = cross(cur, rep); !ok {
					return nil, false
				}
			}
			for x := range cur {
				o[x] = true
			}
		}
		return o, len(o) <= limit
	}
	d := g.Find(rule)
	if d == nil {
		return nil, false
	}
	return alt(d.Alt)
}
