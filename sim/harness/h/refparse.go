package h

import (
	"fmt"
	"strconv"
)

// RefParse is an independent ABNF reader (RFC 5234 + RFC 7405), written as a
// hand-made recursive descent parser with explicit c-wsp look-ahead. It accepts
// exactly the strings of the `rulelist` production.
func RefParse(src []byte) (*Gram, error) {
	p := &rp{s: src}
	g := &Gram{}
	any := false
	for p.i < len(p.s) {
		// ( rule / (*c-wsp c-nl) )
		if isAlpha(p.s[p.i]) {
			r, err := p.rule()
			if err != nil {
				return nil, err
			}
			g.Rules = append(g.Rules, r)
			any = true
			continue
		}
		if !p.blank() {
			return nil, p.err("rule or blank line")
		}
		any = true
	}
	if !any {
		return nil, p.err("rulelist")
	}
	return g, nil
}

type rp struct {
	s []byte
	i int
}

func (p *rp) err(w string) error { return fmt.Errorf("ref: expected %s at %d", w, p.i) }

func isAlpha(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDigit(c byte) bool { return c >= '0' && c <= '9' }

func (p *rp) at(k int) byte {
	if p.i+k < len(p.s) {
		return p.s[p.i+k]
	}
	return 0
}

// cnl matches c-nl = comment / CRLF at position i and returns the end, or -1.
func (p *rp) cnl(i int) int {
	if i < len(p.s) && p.s[i] == ';' {
		j := i + 1
		for j < len(p.s) && (p.s[j] == ' ' || p.s[j] == '\t' || p.s[j] >= 0x21 && p.s[j] <= 0x7e) {
			j++
		}
		i = j
	}
	if i+1 < len(p.s) && p.s[i] == '\r' && p.s[i+1] == '\n' {
		return i + 2
	}
	return -1
}

// cwsp matches one c-wsp = WSP / (c-nl WSP) at i and returns the end, or -1.
func (p *rp) cwsp(i int) int {
	if i < len(p.s) && (p.s[i] == ' ' || p.s[i] == '\t') {
		return i + 1
	}
	if j := p.cnl(i); j >= 0 && j < len(p.s) && (p.s[j] == ' ' || p.s[j] == '\t') {
		return j + 1
	}
	return -1
}

func (p *rp) skip(i int) int {
	for {
		j := p.cwsp(i)
		if j < 0 {
			return i
		}
		i = j
	}
}

// blank matches *c-wsp c-nl. c-wsp may itself swallow newlines followed by
// blanks, so on failure after the greedy skip fall back to shorter prefixes.
func (p *rp) blank() bool {
	pos := []int{p.i}
	for {
		j := p.cwsp(pos[len(pos)-1])
		if j < 0 {
			break
		}
		pos = append(pos, j)
	}
	for k := len(pos) - 1; k >= 0; k-- {
		if j := p.cnl(pos[k]); j >= 0 {
			p.i = j
			return true
		}
	}
	return false
}

func (p *rp) rule() (*RuleDef, error) {
	r := &RuleDef{Name: p.name()}
	p.i = p.skip(p.i)
	if p.at(0) != '=' {
		return nil, p.err("=")
	}
	p.i++
	if p.at(0) == '/' {
		r.Inc = true
		p.i++
	}
	p.i = p.skip(p.i)
	a, err := p.alt()
	if err != nil {
		return nil, err
	}
	r.Alt = a
	// elements = alternation *c-wsp ; rule ends with c-nl
	if !p.blank() {
		return nil, p.err("end of rule")
	}
	return r, nil
}

func (p *rp) name() string {
	j := p.i
	for j < len(p.s) && (isAlpha(p.s[j]) || j > p.i && (isDigit(p.s[j]) || p.s[j] == '-')) {
		j++
	}
	n := string(p.s[p.i:j])
	p.i = j
	return n
}

func (p *rp) alt() (Alt, error) {
	var a Alt
	for {
		c, err := p.cat()
		if err != nil {
			return a, err
		}
		a.Cats = append(a.Cats, c)
		j := p.skip(p.i)
		if j < len(p.s) && p.s[j] == '/' {
			p.i = p.skip(j + 1)
			continue
		}
		return a, nil
	}
}

func (p *rp) starts(i int) bool {
	if i >= len(p.s) {
		return false
	}
	c := p.s[i]
	return isAlpha(c) || isDigit(c) || c == '*' || c == '(' || c == '[' || c == '"' || c == '%' || c == '<'
}

func (p *rp) cat() (Cat, error) {
	var c Cat
	for {
		r, err := p.rep()
		if err != nil {
			return c, err
		}
		c.Reps = append(c.Reps, r)
		j := p.skip(p.i)
		if j > p.i && p.starts(j) {
			p.i = j
			continue
		}
		return c, nil
	}
}

func (p *rp) digits() (int, bool) {
	j := p.i
	for j < len(p.s) && isDigit(p.s[j]) {
		j++
	}
	if j == p.i {
		return 0, false
	}
	n, err := strconv.Atoi(string(p.s[p.i:j]))
	p.i = j
	if err != nil {
		n = 1 << 62
	}
	return n, true
}

func (p *rp) rep() (Rep, error) {
	r := Rep{Min: 1, Max: 1}
	n, ok := p.digits()
	if p.at(0) == '*' {
		p.i++
		r.Min = 0
		if ok {
			r.Min = n
		}
		r.Max = Inf
		if m, ok2 := p.digits(); ok2 {
			r.Max = m
		}
	} else if ok {
		r.Min, r.Max = n, n
	}
	e, err := p.elem()
	r.El = e
	return r, err
}

func (p *rp) elem() (El, error) {
	switch c := p.at(0); {
	case isAlpha(c):
		return Ref{p.name()}, nil
	case c == '(' || c == '[':
		p.i = p.skip(p.i + 1)
		a, err := p.alt()
		if err != nil {
			return nil, err
		}
		p.i = p.skip(p.i)
		if c == '(' && p.at(0) == ')' {
			p.i++
			return Grp{a}, nil
		}
		if c == '[' && p.at(0) == ']' {
			p.i++
			return Opt{a}, nil
		}
		return nil, p.err("closing bracket")
	case c == '"':
		s, err := p.quoted()
		return Chr{S: s}, err
	case c == '<':
		j := p.i + 1
		for j < len(p.s) && p.s[j] >= 0x20 && p.s[j] <= 0x7e && p.s[j] != '>' {
			j++
		}
		if j >= len(p.s) || p.s[j] != '>' {
			return nil, p.err(">")
		}
		s := string(p.s[p.i+1 : j])
		p.i = j + 1
		return Prose{s}, nil
	case c == '%':
		switch d := p.at(1) | 32; d {
		case 's', 'i':
			if p.at(2) == '"' {
				p.i += 2
				s, err := p.quoted()
				return Chr{S: s, CS: d == 's', I: d == 'i'}, err
			}
			return nil, p.err("quoted string")
		case 'b', 'd', 'x':
			p.i += 2
			return p.num(d)
		}
	}
	return nil, p.err("element")
}

func (p *rp) quoted() (string, error) {
	j := p.i + 1
	for j < len(p.s) && p.s[j] >= 0x20 && p.s[j] <= 0x7e && p.s[j] != '"' {
		j++
	}
	if j >= len(p.s) || p.s[j] != '"' {
		return "", p.err("closing quote")
	}
	s := string(p.s[p.i+1 : j])
	p.i = j + 1
	return s, nil
}

func (p *rp) val(base byte) (uint64, bool) {
	j := p.i
	ok := func(c byte) bool {
		switch base {
		case 'b':
			return c == '0' || c == '1'
		case 'd':
			return isDigit(c)
		}
		return isDigit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
	}
	for j < len(p.s) && ok(p.s[j]) {
		j++
	}
	if j == p.i {
		return 0, false
	}
	b := map[byte]int{'b': 2, 'd': 10, 'x': 16}[base]
	v, err := strconv.ParseUint(string(p.s[p.i:j]), b, 64)
	if err != nil {
		v = 1<<64 - 1
	}
	p.i = j
	return v, true
}

func (p *rp) num(base byte) (El, error) {
	n := Num{Base: base}
	v, ok := p.val(base)
	if !ok {
		return nil, p.err("digits")
	}
	n.Vals = append(n.Vals, v)
	if p.at(0) == '-' {
		save := p.i
		p.i++
		w, ok := p.val(base)
		if !ok {
			p.i = save
			return nil, p.err("digits")
		}
		n.Range = true
		n.Vals = append(n.Vals, w)
		return n, nil
	}
	for p.at(0) == '.' {
		p.i++
		w, ok := p.val(base)
		if !ok {
			return nil, p.err("digits")
		}
		n.Vals = append(n.Vals, w)
	}
	return n, nil
}
