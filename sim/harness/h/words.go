package h

import (
	"strings"
	"unicode/utf8"

	"github.com/pandatix/go-abnf/zsim/simrt"
)

// Sampler draws words of the model grammar (positive inputs) and near misses.
type Sampler struct {
	g      *Gram
	height map[string]int
	r      *simrt.Rand
	max    int
	out    []byte
	fuel   int
	long   bool // draw words close to max
}

const unprod = 1 << 20

func NewSampler(g *Gram, r *simrt.Rand, max int) *Sampler {
	s := &Sampler{g: g, r: r, max: max, height: map[string]int{}}
	names := g.Names()
	for k := range core {
		names = append(names, k)
	}
	for ch := true; ch; {
		ch = false
		for _, n := range names {
			h := s.altH(g.Find(n).Alt) + 1
			if old, ok := s.height[low(n)]; (!ok || h < old) && h < unprod {
				s.height[low(n)] = h
				ch = true
			}
		}
	}
	return s
}

func (s *Sampler) elH(e El) int {
	switch v := e.(type) {
	case Ref:
		if h, ok := s.height[low(v.Name)]; ok {
			return h
		}
		return unprod
	case Grp:
		return s.altH(v.Alt)
	case Opt, Chr:
		return 0
	case Num:
		if v.Range {
			if _, ok := pickRune(v.Vals[0], v.Vals[1], 0); !ok {
				return unprod
			}
			return 0
		}
		for _, x := range v.Vals {
			if x > 0x10ffff || !utf8.ValidRune(rune(x)) {
				return unprod
			}
		}
		return 0
	}
	return unprod
}

func (s *Sampler) catH(c Cat) int {
	h := 0
	for _, r := range c.Reps {
		if r.Max != Inf && r.Max < r.Min {
			return unprod
		}
		if r.Min == 0 {
			continue
		}
		if e := s.elH(r.El); e > h {
			h = e
		}
	}
	return h
}

func (s *Sampler) altH(a Alt) int {
	h := unprod
	for _, c := range a.Cats {
		if e := s.catH(c); e < h {
			h = e
		}
	}
	return h
}

func pickRune(lo, hi uint64, k uint64) (rune, bool) {
	if hi > 0x10ffff {
		hi = 0x10ffff
	}
	if lo > hi {
		return 0, false
	}
	n := hi - lo + 1
	for t := uint64(0); t < n && t < 5000; t++ {
		c := lo + (k+t)%n
		if utf8.ValidRune(rune(c)) {
			return rune(c), true
		}
	}
	return 0, false
}

// Word samples a word of rule, or ok=false if unproductive or too long.
func (s *Sampler) Word(rule string) ([]byte, bool) {
	s.out, s.fuel = nil, 400+20*s.max
	if h, ok := s.height[low(rule)]; !ok || h >= unprod {
		return nil, false
	}
	if !s.rule(rule, 0) || len(s.out) > s.max {
		return nil, false
	}
	return s.out, true
}

func (s *Sampler) rule(n string, d int) bool {
	if _, ok := s.height[low(n)]; !ok {
		return false
	}
	return s.alt(s.g.Find(n).Alt, d+1)
}

func (s *Sampler) alt(a Alt, d int) bool {
	s.fuel--
	if s.fuel < 0 || d > 200+2*s.max || len(s.out) > s.max {
		return false
	}
	best := s.altH(a)
	if best >= unprod {
		return false
	}
	tight := d > 8 || len(s.out) > min(s.max, 20)/2
	if s.long {
		tight = len(s.out) > s.max*9/10 || d > s.max*9/10 || s.r.Chance(.02)
	}
	var ok []Cat
	for _, c := range a.Cats {
		h := s.catH(c)
		if h >= unprod || (tight && h > best) {
			continue
		}
		ok = append(ok, c)
	}
	c := ok[s.r.Intn(len(ok))]
	for _, r := range c.Reps {
		n := r.Min
		if s.elH(r.El) < unprod {
			extra := 0
			if !tight {
				for extra < 4 && s.r.Chance(.45) {
					extra++
				}
				if s.long && s.r.Chance(.5) {
					extra = s.r.Intn(s.max)
				} else if r.Max != Inf && r.Max > 8 && r.Max <= s.max && s.r.Chance(.3) {
					extra = r.Max - n
				}
			}
			if r.Max != Inf && n+extra > r.Max {
				extra = r.Max - n
			}
			n += extra
		}
		if n > 300 {
			return false
		}
		for k := 0; k < n; k++ {
			if s.long && k >= r.Min && len(s.out) > s.max*9/10 {
				break
			}
			if !s.elem(r.El, d) {
				return false
			}
			if len(s.out) > s.max {
				return false
			}
		}
	}
	return true
}

func (s *Sampler) elem(e El, d int) bool {
	switch v := e.(type) {
	case Ref:
		return s.rule(v.Name, d)
	case Grp:
		return s.alt(v.Alt, d+1)
	case Opt:
		if s.altH(v.Alt) >= unprod || s.r.Chance(.5) {
			return true
		}
		return s.alt(v.Alt, d+1)
	case Chr:
		for _, c := range v.S {
			if !v.CS && s.r.Chance(.3) {
				if c >= 'a' && c <= 'z' {
					c -= 32
				} else if c >= 'A' && c <= 'Z' {
					c += 32
				}
			}
			s.out = utf8.AppendRune(s.out, c)
		}
		return true
	case Num:
		if v.Range {
			c, ok := pickRune(v.Vals[0], v.Vals[1], s.r.Uint64()%(1<<30))
			if !ok {
				return false
			}
			if s.r.Chance(.3) {
				if c2, ok := pickRune(v.Vals[1], v.Vals[1], 0); ok {
					c = c2
				}
			}
			s.out = utf8.AppendRune(s.out, c)
			return true
		}
		for _, x := range v.Vals {
			if x > 0x10ffff || !utf8.ValidRune(rune(x)) {
				return false
			}
			s.out = utf8.AppendRune(s.out, rune(x))
		}
		return true
	}
	return false
}

// Inputs draws k inputs: words, mutated words and noise, at most max bytes.
func Inputs(g *Gram, r *simrt.Rand, rule, alpha string, k, max int) [][]byte {
	return LongInputs(g, r, rule, alpha, k, max, false)
}

// LongInputs also decides whether words should come close to max bytes.
func LongInputs(g *Gram, r *simrt.Rand, rule, alpha string, k, max int, long bool) [][]byte {
	s := NewSampler(g, r, max)
	s.long = long
	var out [][]byte
	noise := []string{"", "x", "0", " ", "\r\n", "é", "\xff", "\x00", "Z", "k", "-", "\u212a", "ſ", "\xc3", "\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\ufffd", "\xc0\x80", "\xe2\x82", "\U0010ffff", "\u0130", "[", "{", "@", "`"}
	for len(out) < k {
		w, ok := s.Word(rule)
		w = append([]byte(nil), w...)
		switch {
		case ok && r.Chance(.6):
		case ok && r.Chance(.7):
			for m := 1 + r.Intn(2); m > 0; m-- {
				w = mutate(r, w, alpha, noise)
			}
		default:
			var b strings.Builder
			for n := r.Intn(6); n > 0; n-- {
				if r.Chance(.9) {
					b.WriteByte(alpha[r.Intn(len(alpha))])
				} else {
					b.WriteString(noise[r.Intn(len(noise))])
				}
			}
			w = []byte(b.String())
		}
		if len(w) > max {
			w = w[:max]
		}
		out = append(out, w)
	}
	return out
}

func mutate(r *simrt.Rand, w []byte, alpha string, noise []string) []byte {
	i := r.Intn(len(w) + 1)
	switch r.Intn(7) {
	case 5, 6:
		if i < len(w) {
			n := noise[r.Intn(len(noise))]
			if r.Chance(.3) {
				n = string(alpha[r.Intn(len(alpha))])
			}
			return append(append(append([]byte(nil), w[:i]...), n...), w[i+1:]...)
		}
	case 0:
		if i < len(w) {
			return append(w[:i:i], w[i+1:]...)
		}
	case 1:
		return append(append(append([]byte(nil), w[:i]...), alpha[r.Intn(len(alpha))]), w[i:]...)
	case 2:
		if i < len(w) {
			w[i] ^= 32
		}
		return w
	case 3:
		return append(append(append([]byte(nil), w[:i]...), noise[r.Intn(len(noise))]...), w[i:]...)
	case 4:
		if i < len(w) {
			return append(append(append([]byte(nil), w[:i]...), w[i]), w[i:]...)
		}
	}
	return w
}
