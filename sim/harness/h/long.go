package h

// AcceptsLong decides membership of inputs longer than the word-sized Chart
// handles, with the same plain fixpoint over multi-word bit sets.
func (r *RefG) AcceptsLong(root int, in []byte) bool {
	if len(in) <= 62 {
		return r.Chart(root, in).Accepts(root)
	}
	n := len(in)
	w := (n + 64) / 64
	type set []uint64
	ends := make([][]set, len(r.nodes))
	for id := range ends {
		ends[id] = make([]set, n+1)
		back := make([]uint64, w*(n+1))
		for i := range ends[id] {
			ends[id][i] = back[i*w : (i+1)*w]
		}
	}
	has := func(s set, i int) bool { return s[i>>6]>>(i&63)&1 == 1 }
	put := func(s set, i int) { s[i>>6] |= 1 << (i & 63) }
	or := func(a, b set) {
		for k := range a {
			a[k] |= b[k]
		}
	}
	empty := func(s set) bool {
		for _, x := range s {
			if x != 0 {
				return false
			}
		}
		return true
	}
	for id, nd := range r.nodes {
		for i := 0; i <= n; i++ {
			switch nd.kind {
			case kTerm:
				if e := MatchTerm(nd.term, in, i); e >= 0 {
					put(ends[id][i], e)
				}
			case kEps:
				put(ends[id][i], i)
			}
		}
	}
	a, b, out := make(set, w), make(set, w), make(set, w)
	step := func(node int, from, to set) {
		for k := range to {
			to[k] = 0
		}
		for i := 0; i <= n; i++ {
			if has(from, i) {
				or(to, ends[node][i])
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for id := len(r.nodes) - 1; id >= 0; id-- {
			nd := &r.nodes[id]
			for i := n; i >= 0; i-- {
				for k := range out {
					out[k], a[k] = 0, 0
				}
				switch nd.kind {
				case kRule:
					or(out, ends[nd.kids[0]][i])
				case kAlt:
					for _, k := range nd.kids {
						or(out, ends[k][i])
					}
				case kCat:
					put(a, i)
					for _, k := range nd.kids {
						step(k, a, b)
						a, b = b, a
					}
					or(out, a)
				case kRep:
					if nd.max != Inf && nd.max < nd.min {
						break
					}
					put(a, i)
					for k := 0; ; k++ {
						if k >= nd.min {
							or(out, a)
						}
						if nd.max != Inf && k >= nd.max {
							break
						}
						step(nd.kids[0], a, b)
						if empty(b) {
							break
						}
						if k > 2*n+4 {
							or(out, b)
							break
						}
						a, b = b, a
					}
				default:
					continue
				}
				for k := range out {
					if out[k]&^ends[id][i][k] != 0 {
						ends[id][i][k] |= out[k]
						ch = true
					}
				}
			}
		}
	}
	return has(ends[root][0], n)
}
