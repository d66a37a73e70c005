package h

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
	"unicode/utf8"

	goabnf "github.com/pandatix/go-abnf"
)

// Ref is the executable reference semantics of a model grammar: the plainest
// possible fixpoints over (node, start) -> set of ends, with no memo keyed by
// text, no left-recursion special case and no sharing tricks.

type rkind uint8

const (
	kRule rkind = iota
	kAlt
	kCat
	kRep
	kTerm
	kEps // also the empty choice of an option
	kNone
)

type rnode struct {
	kind     rkind
	kids     []int
	min, max int
	term     El
	name     string // rule
}

type RefG struct {
	G     *Gram
	nodes []rnode
	rules map[string]int
}

func NewRef(g *Gram) *RefG {
	r := &RefG{G: g, rules: map[string]int{}}
	return r
}

func (r *RefG) add(n rnode) int { r.nodes = append(r.nodes, n); return len(r.nodes) - 1 }

func (r *RefG) Rule(name string) int {
	k := low(name)
	if id, ok := r.rules[k]; ok {
		return id
	}
	d := r.G.Find(k)
	if d == nil {
		id := r.add(rnode{kind: kNone, name: name})
		r.rules[k] = id
		return id
	}
	id := r.add(rnode{kind: kRule, name: d.Name})
	r.rules[k] = id
	r.nodes[id].kids = []int{r.alt(d.Alt, false)}
	return id
}

func (r *RefG) alt(a Alt, opt bool) int {
	id := r.add(rnode{kind: kAlt})
	var kids []int
	if opt {
		kids = append(kids, r.add(rnode{kind: kEps}))
	}
	for _, c := range a.Cats {
		cid := r.add(rnode{kind: kCat})
		var ck []int
		for _, rp := range c.Reps {
			e := r.el(rp.El)
			if rp.Min == 1 && rp.Max == 1 {
				ck = append(ck, e)
			} else {
				ck = append(ck, r.add(rnode{kind: kRep, kids: []int{e}, min: rp.Min, max: rp.Max}))
			}
		}
		r.nodes[cid].kids = ck
		kids = append(kids, cid)
	}
	r.nodes[id].kids = kids
	return id
}

func (r *RefG) el(e El) int {
	switch v := e.(type) {
	case Ref:
		return r.Rule(v.Name)
	case Grp:
		return r.alt(v.Alt, false)
	case Opt:
		return r.alt(v.Alt, true)
	}
	return r.add(rnode{kind: kTerm, term: e})
}

func fold(c rune) rune {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

// MatchTerm returns the end of the terminal at byte offset i, or -1.
func MatchTerm(t El, in []byte, i int) int {
	next := func(i int) (rune, int) {
		if i >= len(in) {
			return -1, 0
		}
		c, n := utf8.DecodeRune(in[i:])
		if c == utf8.RuneError && n == 1 {
			return -1, 0
		}
		return c, n
	}
	switch v := t.(type) {
	case Chr:
		for _, w := range v.S {
			c, n := next(i)
			if n == 0 || (v.CS && c != w) || (!v.CS && fold(c) != fold(w)) {
				return -1
			}
			i += n
		}
		return i
	case Num:
		if v.Range {
			c, n := next(i)
			if n == 0 || uint64(c) < v.Vals[0] || uint64(c) > v.Vals[1] {
				return -1
			}
			return i + n
		}
		for _, w := range v.Vals {
			c, n := next(i)
			if n == 0 || uint64(c) != w {
				return -1
			}
			i += n
		}
		return i
	}
	return -1
}

// Chart answers questions about one input.
type Chart interface {
	Accepts(root int) bool
	Count(root int) *big.Int
	Furthest(root int) (int, map[string]bool)
}

func (r *RefG) Chart(root int, in []byte) Chart {
	if len(in) > 62 {
		return r.bigChart(root, in)
	}
	return r.chart(root, in)
}

// smallChart holds ends[node][i] as bit sets over byte offsets (inputs <= 63 bytes).
type smallChart struct {
	r    *RefG
	in   []byte
	n    int
	ends [][]uint64
	memo map[citem]*big.Int
	on   map[citem]bool
	inf  bool
}

func (r *RefG) chart(root int, in []byte) *smallChart {
	c := &smallChart{r: r, in: in, n: len(in), ends: make([][]uint64, len(r.nodes))}
	for i := range c.ends {
		c.ends[i] = make([]uint64, c.n+1)
	}
	for id, nd := range r.nodes {
		for i := 0; i <= c.n; i++ {
			switch nd.kind {
			case kTerm:
				if e := MatchTerm(nd.term, in, i); e >= 0 {
					c.ends[id][i] = 1 << e
				}
			case kEps:
				c.ends[id][i] = 1 << i
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for id := len(r.nodes) - 1; id >= 0; id-- {
			nd := &r.nodes[id]
			for i := c.n; i >= 0; i-- {
				var s uint64
				switch nd.kind {
				case kRule:
					s = c.ends[nd.kids[0]][i]
				case kAlt:
					for _, k := range nd.kids {
						s |= c.ends[k][i]
					}
				case kCat:
					s = 1 << i
					for _, k := range nd.kids {
						s = c.step(k, s)
					}
				case kRep:
					s = c.repEnds(nd, i)
				default:
					continue
				}
				if s != c.ends[id][i] {
					c.ends[id][i] = s
					ch = true
				}
			}
		}
	}
	return c
}

func (c *smallChart) step(node int, from uint64) uint64 {
	var s uint64
	for from != 0 {
		p := bits.TrailingZeros64(from)
		from &= from - 1
		s |= c.ends[node][p]
	}
	return s
}

func (c *smallChart) repEnds(nd *rnode, i int) uint64 {
	if nd.max != Inf && nd.max < nd.min {
		return 0
	}
	var out uint64
	level := uint64(1) << i
	for k := 0; ; k++ {
		if k >= nd.min {
			out |= level
		}
		if nd.max != Inf && k >= nd.max {
			return out
		}
		next := c.step(nd.kids[0], level)
		if next == 0 {
			return out
		}
		if k > 2*c.n+4 { // the level sets are stationary by now
			return out | next
		}
		level = next
	}
}

// Accepts: is the whole input in the language of root?
func (c *smallChart) Accepts(root int) bool { return c.ends[root][0]>>c.n&1 == 1 }

// ---------------------------------------------------------------------------
// Derivation counting
// ---------------------------------------------------------------------------

type citem struct {
	node, sub, i, j int // sub: position in a cat, or count in a rep
}

func (c *smallChart) has(node, i, j int) bool { return c.ends[node][i]>>j&1 == 1 }

// Count returns the number of derivations of the whole input (a choice of
// alternative, split and repetition count at every node), -1 for infinitely many.
func (c *smallChart) Count(root int) *big.Int {
	if !c.Accepts(root) {
		return big.NewInt(0)
	}
	c.memo, c.on, c.inf = map[citem]*big.Int{}, map[citem]bool{}, false
	v := c.count(root, 0, c.n)
	if c.inf {
		return big.NewInt(-1)
	}
	return v
}

var one = big.NewInt(1)
var zero = big.NewInt(0)

func (c *smallChart) count(node, i, j int) *big.Int {
	if !c.has(node, i, j) {
		return zero
	}
	nd := &c.r.nodes[node]
	switch nd.kind {
	case kTerm, kEps:
		return one
	case kCat:
		return c.countCat(node, 0, i, j)
	case kRep:
		return c.countRep(node, 0, i, j)
	}
	it := citem{node, -1, i, j}
	if v, ok := c.memo[it]; ok {
		return v
	}
	if c.on[it] {
		c.inf = true
		return one
	}
	c.on[it] = true
	t := new(big.Int)
	for _, k := range nd.kids {
		t.Add(t, c.count(k, i, j))
	}
	delete(c.on, it)
	c.memo[it] = t
	return t
}

// restCat: can kids[sub:] derive [i,j]?
func (c *smallChart) restCat(node, sub, i, j int) bool {
	s := uint64(1) << i
	for _, k := range c.r.nodes[node].kids[sub:] {
		s = c.step(k, s)
	}
	return s>>j&1 == 1
}

func (c *smallChart) countCat(node, sub, i, j int) *big.Int {
	kids := c.r.nodes[node].kids
	if sub == len(kids) {
		if i == j {
			return one
		}
		return zero
	}
	if !c.restCat(node, sub, i, j) {
		return zero
	}
	it := citem{node, sub, i, j}
	if v, ok := c.memo[it]; ok {
		return v
	}
	if c.on[it] {
		c.inf = true
		return one
	}
	c.on[it] = true
	t := new(big.Int)
	for k := i; k <= j; k++ {
		if c.has(kids[sub], i, k) && c.restCat(node, sub+1, k, j) {
			t.Add(t, new(big.Int).Mul(c.count(kids[sub], i, k), c.countCat(node, sub+1, k, j)))
		}
	}
	delete(c.on, it)
	c.memo[it] = t
	return t
}

// repOK: from count k at i, can the repetition finish exactly at j?
func (c *smallChart) repOK(node, k, i, j int) bool {
	nd := c.r.nodes[node]
	nd.min -= k
	if nd.min < 0 {
		nd.min = 0
	}
	if nd.max != Inf {
		nd.max -= k
		if nd.max < 0 {
			return false
		}
	}
	return c.repEnds(&nd, i)>>j&1 == 1
}

func (c *smallChart) countRep(node, k, i, j int) *big.Int {
	nd := &c.r.nodes[node]
	if nd.max == Inf && k > nd.min {
		k = nd.min // beyond the minimum the exact count is irrelevant
	}
	if !c.repOK(node, k, i, j) {
		return zero
	}
	it := citem{node, k, i, j}
	if v, ok := c.memo[it]; ok {
		return v
	}
	if c.on[it] {
		c.inf = true
		return one
	}
	c.on[it] = true
	t := new(big.Int)
	if k >= nd.min && i == j {
		t.Add(t, one)
	}
	if nd.max == Inf || k < nd.max {
		for m := i; m <= j; m++ {
			if c.has(nd.kids[0], i, m) && c.repOK(node, k+1, m, j) {
				t.Add(t, new(big.Int).Mul(c.count(nd.kids[0], i, m), c.countRep(node, k+1, m, j)))
			}
		}
	}
	delete(c.on, it)
	c.memo[it] = t
	return t
}

// ---------------------------------------------------------------------------
// Furthest failure
// ---------------------------------------------------------------------------

// Furthest returns the deepest offset some left-to-right derivation attempt gets
// to, and the texts of the terminals that are needed there but do not match.
func (c *smallChart) Furthest(root int) (int, map[string]bool) {
	type pt struct{ n, i int }
	seen := map[pt]bool{}
	best := 0
	exp := map[string]bool{}
	var reach func(n, i int)
	reach = func(n, i int) {
		if seen[pt{n, i}] {
			return
		}
		seen[pt{n, i}] = true
		nd := &c.r.nodes[n]
		switch nd.kind {
		case kTerm:
			at := i
			if c.ends[n][i] != 0 {
				at = 63 - bits.LeadingZeros64(c.ends[n][i])
			}
			if at > best {
				best = at
				exp = map[string]bool{}
			}
			if c.ends[n][i] == 0 && i == best {
				exp[elText(nd.term)] = true
			}
		case kRule, kAlt:
			for _, k := range nd.kids {
				reach(k, i)
			}
		case kCat:
			s := uint64(1) << i
			for _, k := range nd.kids {
				for t := s; t != 0; t &= t - 1 {
					reach(k, bits.TrailingZeros64(t))
				}
				s = c.step(k, s)
			}
		case kRep:
			if nd.max != Inf && nd.max < nd.min {
				return
			}
			s := uint64(1) << i
			for k := 0; k <= 2*c.n+4 && s != 0; k++ {
				if nd.max != Inf && k >= nd.max {
					break
				}
				for t := s; t != 0; t &= t - 1 {
					reach(nd.kids[0], bits.TrailingZeros64(t))
				}
				s = c.step(nd.kids[0], s)
			}
		}
	}
	reach(root, 0)
	return best, exp
}

// ---------------------------------------------------------------------------
// Parse-tree soundness
// ---------------------------------------------------------------------------

// CheckTree decides whether t is a derivation tree of the whole input from the
// rule: every rule node's children must be derivable from that rule's own
// definition, in order, gap-free, with terminals that match the bytes they span.
func (r *RefG) CheckTree(name string, in []byte, t *goabnf.ParseTree) error {
	if t == nil {
		return fmt.Errorf("no tree")
	}
	id := r.Rule(name)
	if low(t.Rule) != low(r.nodes[id].name) {
		return fmt.Errorf("root rule %q, want %q", t.Rule, r.nodes[id].name)
	}
	if t.Start != 0 || t.End != len(in) {
		return fmt.Errorf("root spans [%d,%d], input has %d bytes", t.Start, t.End, len(in))
	}
	return r.checkNode(in, t, 0)
}

func (r *RefG) checkNode(in []byte, t *goabnf.ParseTree, depth int) error {
	if depth > 2000 {
		return fmt.Errorf("tree too deep")
	}
	pos := t.Start
	for _, c := range t.Children {
		if c == nil {
			return fmt.Errorf("nil child under %q", t.Rule)
		}
		if c.Start != pos || c.End < c.Start || c.End > t.End {
			return fmt.Errorf("children of %s[%d,%d] do not tile: child %q[%d,%d] at %d", t.Rule, t.Start, t.End, c.Rule, c.Start, c.End, pos)
		}
		pos = c.End
	}
	if pos != t.End {
		return fmt.Errorf("children of %s[%d,%d] end at %d", t.Rule, t.Start, t.End, pos)
	}
	id := r.Rule(t.Rule)
	if r.nodes[id].kind != kRule {
		return fmt.Errorf("unknown rule %q in tree", t.Rule)
	}
	m := &treeMatch{r: r, in: in, kids: t.Children, start: t.Start}
	if !m.run(r.nodes[id].kids[0]) {
		return fmt.Errorf("children of %s[%d,%d] = %s do not follow its definition", t.Rule, t.Start, t.End, ShowKids(t))
	}
	for _, c := range t.Children {
		if c.Rule != "" {
			if err := r.checkNode(in, c, depth+1); err != nil {
				return err
			}
		} else if len(c.Children) != 0 {
			return fmt.Errorf("terminal leaf with children")
		}
	}
	return nil
}

// treeMatch matches a flat child list against a rule body: states are child
// indices (the byte offset is determined by the index).
type treeMatch struct {
	r     *RefG
	in    []byte
	kids  []*goabnf.ParseTree
	start int
	ends  map[[2]int]bset
}

func (m *treeMatch) off(k int) int {
	if k < len(m.kids) {
		return m.kids[k].Start
	}
	if k == 0 {
		return m.start
	}
	return m.kids[k-1].End
}

func (m *treeMatch) run(root int) bool {
	n := len(m.kids)
	if n > bigMax {
		return true // beyond the checker's bound
	}
	// Fixpoint over (node, index), as for recognition but over children.
	m.ends = map[[2]int]bset{}
	var nodes []int
	seen := map[int]bool{}
	var col func(id int)
	col = func(id int) {
		if seen[id] {
			return
		}
		seen[id] = true
		nodes = append(nodes, id)
		nd := &m.r.nodes[id]
		if nd.kind == kRule {
			return
		}
		for _, k := range nd.kids {
			col(k)
		}
	}
	col(root)
	step := func(id int, s bset) bset {
		var o bset
		s.each(func(p int) { e := m.ends[[2]int{id, p}]; o.or(&e) })
		return o
	}
	for ch := true; ch; {
		ch = false
		for q := len(nodes) - 1; q >= 0; q-- {
			id := nodes[q]
			nd := &m.r.nodes[id]
			for k := 0; k <= n; k++ {
				var s bset
				switch nd.kind {
				case kRule:
					if k < n && m.kids[k].Rule != "" && low(m.kids[k].Rule) == low(nd.name) {
						s.put(k + 1)
					}
				case kTerm:
					if e := MatchTerm(nd.term, m.in, m.off(k)); e >= 0 {
						if e == m.off(k) {
							s.put(k) // an empty terminal may leave no leaf
						}
						if k < n && m.kids[k].Rule == "" && m.kids[k].End == e {
							s.put(k + 1)
						}
					}
				case kEps:
					s = single(k)
				case kAlt:
					for _, c := range nd.kids {
						e := m.ends[[2]int{c, k}]
						s.or(&e)
					}
				case kCat:
					s = single(k)
					for _, c := range nd.kids {
						s = step(c, s)
					}
				case kRep:
					if nd.max != Inf && nd.max < nd.min {
						continue
					}
					lv := single(k)
					for c := 0; ; c++ {
						if c >= nd.min {
							s.or(&lv)
						}
						if nd.max != Inf && c >= nd.max {
							break
						}
						nx := step(nd.kids[0], lv)
						if nx.zero() {
							break
						}
						if c > 2*n+4 {
							s.or(&nx)
							break
						}
						lv = nx
					}
				}
				key := [2]int{id, k}
				if s != m.ends[key] {
					m.ends[key] = s
					ch = true
				}
			}
		}
	}
	e := m.ends[[2]int{root, 0}]
	return e.has(n)
}

func ShowKids(t *goabnf.ParseTree) string {
	var p []string
	for _, c := range t.Children {
		p = append(p, fmt.Sprintf("%s[%d,%d]", c.Rule, c.Start, c.End))
	}
	return "{" + strings.Join(p, " ") + "}"
}

// TreeSpans is a structural sanity check valid even for truncated (cyclic)
// extractions: finite, spans nested and ordered.
func TreeSpans(t *goabnf.ParseTree, depth int) error {
	if depth > 5000 {
		return fmt.Errorf("tree deeper than 5000")
	}
	pos := t.Start
	for _, c := range t.Children {
		if c.Start < pos || c.End < c.Start || c.End > t.End {
			return fmt.Errorf("child [%d,%d] escapes or reorders under [%d,%d]", c.Start, c.End, t.Start, t.End)
		}
		pos = c.End
		if err := TreeSpans(c, depth+1); err != nil {
			return err
		}
	}
	return nil
}

func sortedKeys(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
