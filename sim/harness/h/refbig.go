package h

import (
	"math/big"
	"math/bits"
)

// The same plain fixpoints as in ref.go over multi-word sets.

const bigMax = 511

type bset [8]uint64

func single(i int) (s bset)    { s.put(i); return }
func (s *bset) put(i int)      { s[i>>6] |= 1 << (i & 63) }
func (s *bset) has(i int) bool { return s[i>>6]>>(i&63)&1 == 1 }
func (s *bset) zero() bool     { return *s == bset{} }
func (s *bset) or(t *bset) {
	for k := range s {
		s[k] |= t[k]
	}
}
func (s bset) each(f func(int)) {
	for k, w := range s {
		for ; w != 0; w &= w - 1 {
			f(k<<6 + bits.TrailingZeros64(w))
		}
	}
}

// BigChart is Chart for inputs of up to bigMax bytes.
type BigChart struct {
	r    *RefG
	in   []byte
	n    int
	ends [][]bset
	memo map[citem]*big.Int
	on   map[citem]bool
	inf  bool
}

func (r *RefG) bigChart(root int, in []byte) *BigChart {
	if len(in) > bigMax {
		panic("harness: input too long for the reference chart")
	}
	c := &BigChart{r: r, in: in, n: len(in), ends: make([][]bset, len(r.nodes))}
	for i := range c.ends {
		c.ends[i] = make([]bset, c.n+1)
	}
	for id, nd := range r.nodes {
		for i := 0; i <= c.n; i++ {
			switch nd.kind {
			case kTerm:
				if e := MatchTerm(nd.term, in, i); e >= 0 {
					c.ends[id][i].put(e)
				}
			case kEps:
				c.ends[id][i].put(i)
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for id := len(r.nodes) - 1; id >= 0; id-- {
			nd := &r.nodes[id]
			for i := c.n; i >= 0; i-- {
				var s bset
				switch nd.kind {
				case kRule:
					s = c.ends[nd.kids[0]][i]
				case kAlt:
					for _, k := range nd.kids {
						s.or(&c.ends[k][i])
					}
				case kCat:
					s = single(i)
					for _, k := range nd.kids {
						s = c.step(k, s)
					}
				case kRep:
					s = c.repEnds(nd, i)
				default:
					continue
				}
				if s != c.ends[id][i] {
					c.ends[id][i] = s
					ch = true
				}
			}
		}
	}
	return c
}

func (c *BigChart) step(node int, from bset) bset {
	var s bset
	from.each(func(p int) { s.or(&c.ends[node][p]) })
	return s
}

func (c *BigChart) repEnds(nd *rnode, i int) bset {
	if nd.max != Inf && nd.max < nd.min {
		return bset{}
	}
	var out bset
	level := single(i)
	for k := 0; ; k++ {
		if k >= nd.min {
			out.or(&level)
		}
		if nd.max != Inf && k >= nd.max {
			return out
		}
		next := c.step(nd.kids[0], level)
		if next.zero() {
			return out
		}
		if k > 2*c.n+4 { // the level sets are stationary by now
			out.or(&next)
			return out
		}
		level = next
	}
}

// Accepts: is the whole input in the language of root?
func (c *BigChart) Accepts(root int) bool { return c.ends[root][0].has(c.n) }

// ---------------------------------------------------------------------------
// Derivation counting
// ---------------------------------------------------------------------------

func (c *BigChart) has(node, i, j int) bool { return c.ends[node][i].has(j) }

// Count returns the number of derivations of the whole input (a choice of
// alternative, split and repetition count at every node), -1 for infinitely many.
func (c *BigChart) Count(root int) *big.Int {
	if !c.Accepts(root) {
		return big.NewInt(0)
	}
	c.memo, c.on, c.inf = map[citem]*big.Int{}, map[citem]bool{}, false
	v := c.count(root, 0, c.n)
	if c.inf {
		return big.NewInt(-1)
	}
	return v
}

func (c *BigChart) count(node, i, j int) *big.Int {
	if !c.has(node, i, j) {
		return zero
	}
	nd := &c.r.nodes[node]
	switch nd.kind {
	case kTerm, kEps:
		return one
	case kCat:
		return c.countCat(node, 0, i, j)
	case kRep:
		return c.countRep(node, 0, i, j)
	}
	it := citem{node, -1, i, j}
	if v, ok := c.memo[it]; ok {
		return v
	}
	if c.on[it] {
		c.inf = true
		return one
	}
	c.on[it] = true
	t := new(big.Int)
	for _, k := range nd.kids {
		t.Add(t, c.count(k, i, j))
	}
	delete(c.on, it)
	c.memo[it] = t
	return t
}

// restCat: can kids[sub:] derive [i,j]?
func (c *BigChart) restCat(node, sub, i, j int) bool {
	s := single(i)
	for _, k := range c.r.nodes[node].kids[sub:] {
		s = c.step(k, s)
	}
	return s.has(j)
}

func (c *BigChart) countCat(node, sub, i, j int) *big.Int {
	kids := c.r.nodes[node].kids
	if sub == len(kids) {
		if i == j {
			return one
		}
		return zero
	}
	if !c.restCat(node, sub, i, j) {
		return zero
	}
	it := citem{node, sub, i, j}
	if v, ok := c.memo[it]; ok {
		return v
	}
	if c.on[it] {
		c.inf = true
		return one
	}
	c.on[it] = true
	t := new(big.Int)
	for k := i; k <= j; k++ {
		if c.has(kids[sub], i, k) && c.restCat(node, sub+1, k, j) {
			t.Add(t, new(big.Int).Mul(c.count(kids[sub], i, k), c.countCat(node, sub+1, k, j)))
		}
	}
	delete(c.on, it)
	c.memo[it] = t
	return t
}

// repOK: from count k at i, can the repetition finish exactly at j?
func (c *BigChart) repOK(node, k, i, j int) bool {
	nd := c.r.nodes[node]
	nd.min -= k
	if nd.min < 0 {
		nd.min = 0
	}
	if nd.max != Inf {
		nd.max -= k
		if nd.max < 0 {
			return false
		}
	}
	e := c.repEnds(&nd, i)
	return e.has(j)
}

func (c *BigChart) countRep(node, k, i, j int) *big.Int {
	nd := &c.r.nodes[node]
	if nd.max == Inf && k > nd.min {
		k = nd.min // beyond the minimum the exact count is irrelevant
	}
	if !c.repOK(node, k, i, j) {
		return zero
	}
	it := citem{node, k, i, j}
	if v, ok := c.memo[it]; ok {
		return v
	}
	if c.on[it] {
		c.inf = true
		return one
	}
	c.on[it] = true
	t := new(big.Int)
	if k >= nd.min && i == j {
		t.Add(t, one)
	}
	if nd.max == Inf || k < nd.max {
		for m := i; m <= j; m++ {
			if c.has(nd.kids[0], i, m) && c.repOK(node, k+1, m, j) {
				t.Add(t, new(big.Int).Mul(c.count(nd.kids[0], i, m), c.countRep(node, k+1, m, j)))
			}
		}
	}
	delete(c.on, it)
	c.memo[it] = t
	return t
}

// ---------------------------------------------------------------------------
// Furthest failure
// ---------------------------------------------------------------------------

// Furthest returns the deepest offset some left-to-right derivation attempt gets
// to, and the texts of the terminals that are needed there but do not match.
func (c *BigChart) Furthest(root int) (int, map[string]bool) {
	type pt struct{ n, i int }
	seen := map[pt]bool{}
	best := 0
	exp := map[string]bool{}
	var reach func(n, i int)
	reach = func(n, i int) {
		if seen[pt{n, i}] {
			return
		}
		seen[pt{n, i}] = true
		nd := &c.r.nodes[n]
		switch nd.kind {
		case kTerm:
			at := i
			if !c.ends[n][i].zero() {
				c.ends[n][i].each(func(p int) { at = p })
			}
			if at > best {
				best = at
				exp = map[string]bool{}
			}
			if c.ends[n][i].zero() && i == best {
				exp[elText(nd.term)] = true
			}
		case kRule, kAlt:
			for _, k := range nd.kids {
				reach(k, i)
			}
		case kCat:
			s := single(i)
			for _, k := range nd.kids {
				s.each(func(p int) { reach(k, p) })
				s = c.step(k, s)
			}
		case kRep:
			if nd.max != Inf && nd.max < nd.min {
				return
			}
			s := single(i)
			for k := 0; k <= 2*c.n+4 && !s.zero(); k++ {
				if nd.max != Inf && k >= nd.max {
					break
				}
				s.each(func(p int) { reach(nd.kids[0], p) })
				s = c.step(nd.kids[0], s)
			}
		}
	}
	reach(root, 0)
	return best, exp
}
