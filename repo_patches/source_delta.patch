From 5952011566b1dc6a30fc57de757ccb67ce5df8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:12 +0000
Subject: [PATCH 01/34] fix: do not memoize provisional results while a
 left-recursive seed grows

IsValid rejected words of grammars whose left recursion passes through a
group or an option, e.g. a = [a] "x" on "xx": the group result computed
from the unfinished seed was cached and never recomputed.
---
 recognize.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/recognize.go b/recognize.go
index 2f18570..f5a2a94 100644
--- a/recognize.go
+++ b/recognize.go
@@ -31,6 +31,9 @@ type recognizer struct {
 	// returns the seed instead of recursing.
 	leftRec map[string][]string
 	growing map[string]map[int]bool
+	// seedReads counts how often a live (unfinished) seed has been returned. A
+	// result computed across such a read is provisional and must not be memoized.
+	seedReads int
 }
 
 func cloneSet(s map[int]bool) map[int]bool {
@@ -141,8 +144,14 @@ func (r *recognizer) reachElem(elem ElemItf, index int) map[int]bool {
 		return map[int]bool{}
 	}
 	r.inProgress[key] = true
+	reads := r.seedReads
 	out := r.computeElem(elem, index)
 	delete(r.inProgress, key)
+	// A group or option inside a left-recursive rule can read the seed that is
+	// still growing; its result is provisional, so recompute it next time.
+	if r.seedReads != reads {
+		return out
+	}
 	// Safe to cache: a rule reached here either is independent of any actively
 	// growing seed, or is itself a growing SCC member (handled by reachLeftRec
 	// via r.growing, not this path). A lower left-corner SCC cannot reference
@@ -165,8 +174,10 @@ func (r *recognizer) reachLeftRec(name string, scc []string, index int) map[int]
 		return cached
 	}
 	if seed, ok := r.growing[key]; ok {
+		r.seedReads++
 		return seed // re-entrant: return the current seed
 	}
+	reads := r.seedReads
 
 	keys := make([]string, len(scc))
 	for i, x := range scc {
@@ -195,6 +206,7 @@ func (r *recognizer) reachLeftRec(name string, scc []string, index int) map[int]
 	// outer growing seed (the SCC only re-references its own members, held in
 	// r.growing, and strictly lower SCCs, which cannot reference it back), so
 	// they can be memoized unconditionally.
+	r.seedReads = reads
 	var result map[int]bool
 	for i, x := range scc {
 		v := r.growing[keys[i]]
-- 
2.43.0


From eaa2c14550130d3f3aef53dba91b77c4b46bb514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:36 +0000
Subject: [PATCH 02/34] fix: keep the %s prefix when printing a case-sensitive
 char-val

String() dropped it, so a printed grammar lost its case sensitivity, and the
recognizer memo and the slot lowering, which key sub-expressions by their
text, confused %s"a" with "a" (a = %s"a" / "a" rejected "A").
---
 abnf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abnf.go b/abnf.go
index 5173714..a8e413f 100644
--- a/abnf.go
+++ b/abnf.go
@@ -151,6 +151,9 @@ func (ecvl ElemCharVal) String() string {
 	for _, val := range ecvl.Values {
 		str += string(val)
 	}
+	if ecvl.Sensitive {
+		return `%s"` + str + `"`
+	}
 	return `"` + str + `"`
 }
 
-- 
2.43.0


From 484f03632b0d461bc442c5a527302231bdcf80c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:48 +0000
Subject: [PATCH 03/34] fix: count repetitions exactly in the recognizer

IsValid gave up after len(input)+2 occurrences (a = 5*["x"] rejected "") and
stopped at the first occurrence that reached no new position even if some of
those positions had so far only been reached below the minimum
(a = 3*("abcde" / "a" / "b" / "cde" / "f") rejected "abcdef").
---
 recognize.go | 60 ++++++++++++++++++++++++----------------------------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/recognize.go b/recognize.go
index f5a2a94..795bbf1 100644
--- a/recognize.go
+++ b/recognize.go
@@ -72,53 +72,49 @@ func (r *recognizer) reachConcat(c Concatenation, index int) map[int]bool {
 }
 
 func (r *recognizer) reachRep(rep Repetition, index int) map[int]bool {
-	ends := map[int]bool{}
-	if rep.Min == 0 {
-		ends[index] = true
+	if rep.Max != inf && rep.Max < rep.Min {
+		return map[int]bool{} // unsatisfiable bound
 	}
 
 	// level = positions reachable after exactly c occurrences.
 	level := map[int]bool{index: true}
-	// seen = every position reached at any count so far. reachElem only moves
-	// forward (an end position is >= its start), so once a step introduces no
-	// position outside seen, the reachable set has closed and no later
-	// repetition can add a new end position. Breaking there keeps an unbounded
-	// repetition over an element with large reach-sets (e.g. *(1*ALPHA)) at
-	// O(n^2); the previous len(next)==len(level) test never tripped because
-	// level shrank by one each step ({1..n}, {2..n}, ...), giving O(n^3).
-	seen := map[int]bool{index: true}
-
-	cap := len(r.input) + 2
-	for c := 1; c <= cap; c++ {
-		if rep.Max != inf && c > rep.Max {
-			break
-		}
+	for c := 0; c < rep.Min; c++ {
 		next := map[int]bool{}
+		stable := true
 		for p := range level {
 			for e := range r.reachElem(rep.Element, p) {
 				next[e] = true
+				stable = stable && level[e]
 			}
 		}
 		if len(next) == 0 {
-			break
+			return next
 		}
-		if c >= rep.Min {
-			for e := range next {
-				ends[e] = true
-			}
-		}
-		grew := false
-		for e := range next {
-			if !seen[e] {
-				seen[e] = true
-				grew = true
-			}
+		// reachElem only moves forward (an end position is >= its start), so the
+		// level empties or turns stationary within len(input)+2 occurrences; a
+		// stationary level is also the level after Min occurrences.
+		if stable && len(next) == len(level) {
+			break
 		}
 		level = next
-		// Reachable set closed and the minimum-count requirement met.
-		if !grew && c >= rep.Min {
-			break
+	}
+
+	// Past the minimum every position is an end. A position already in ends has
+	// been expanded at a lower count, so only the fresh ones need expanding:
+	// each is expanded once, which keeps an unbounded repetition over an element
+	// with large reach-sets (e.g. *(1*ALPHA)) at O(n^2).
+	ends := cloneSet(level)
+	for c := rep.Min; len(level) != 0 && (rep.Max == inf || c < rep.Max); c++ {
+		fresh := map[int]bool{}
+		for p := range level {
+			for e := range r.reachElem(rep.Element, p) {
+				if !ends[e] {
+					ends[e] = true
+					fresh[e] = true
+				}
+			}
 		}
+		level = fresh
 	}
 	return ends
 }
-- 
2.43.0


From e1f20112b6baca6f60a44cd9fdff272ac78da75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:33 +0000
Subject: [PATCH 04/34] fix: never revisit the first node in the SCC search

Index 0 marked both an unvisited node and the first visited one, so depending
on the map iteration order a node could be visited twice and the components
came out wrong: IsValid panicked on a = a / b / "x", b = a.
---
 dag.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dag.go b/dag.go
index 4d004e4..a0d7cf6 100644
--- a/dag.go
+++ b/dag.go
@@ -194,10 +194,11 @@ func (c *cycle) find() {
 }
 
 func (c *cycle) strongconnect(v *node) {
-	// Set the depth index for v to the smallest unused index
+	// Set the depth index for v to the smallest unused index. Indices start at
+	// 1, as 0 marks a node that has not been visited yet.
+	c.index++
 	v.index = c.index
 	v.lowlink = c.index
-	c.index++
 	c.stack = append(c.stack, v)
 	v.onStack = true
 
-- 
2.43.0


From 7d381922d83a48f257555af35be49f3037e3acad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:47 +0000
Subject: [PATCH 05/34] fix: let a group re-enter itself through a
 left-recursive rule

The in-progress guard is keyed by text, so in a = [c b], b = [c b] "x",
c = *"y" the option inside b was mistaken for the one inside a that was being
evaluated at the same position, and "x" was rejected.
---
 recognize.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recognize.go b/recognize.go
index 795bbf1..b840d59 100644
--- a/recognize.go
+++ b/recognize.go
@@ -133,10 +133,12 @@ func (r *recognizer) reachElem(elem ElemItf, index int) map[int]bool {
 	if cached, ok := r.memo[key]; ok {
 		return cached
 	}
-	if r.inProgress[key] {
+	if _, ok := elem.(ElemRulename); ok && r.inProgress[key] {
 		// Re-entry at the same position == non-progressing recursion in a rule
 		// not flagged left-recursive. Return empty (defense-in-depth) instead of
-		// looping forever.
+		// looping forever. Groups and options are exempt: the same text may occur
+		// both outside and inside a left-recursive rule, and any recursion through
+		// them goes through a rule.
 		return map[int]bool{}
 	}
 	r.inProgress[key] = true
-- 
2.43.0


From 67c194f6794690dff7cb73703d83741689c53662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:04 +0000
Subject: [PATCH 06/34] fix: tell alternates with equal children apart in the
 SPPF

a = "x" / "x" on "x" has two derivations and ParseBSR says so, but
ParseForest merged them: NumTrees was 1 and Ambiguous false.
---
 sppf.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sppf.go b/sppf.go
index 9c4d507..bf1ee9a 100644
--- a/sppf.go
+++ b/sppf.go
@@ -247,11 +247,14 @@ type gnode struct {
 	nt         int // symbol nonterminal id, for gSymbol
 	Start, End int
 	packs      [][]*gnode // each pack has 1 or 2 children; >1 pack == ambiguity
+	packAlts   []int      // alternate each pack derives from
 }
 
-func (n *gnode) addPack(children []*gnode) {
-	for _, p := range n.packs {
-		if len(p) != len(children) {
+// addPack records a derivation of n through alternate alt. Two alternates that
+// derive the same children are two derivations, as in the BSR engine.
+func (n *gnode) addPack(alt int, children []*gnode) {
+	for pi, p := range n.packs {
+		if n.packAlts[pi] != alt || len(p) != len(children) {
 			continue
 		}
 		same := true
@@ -266,6 +269,7 @@ func (n *gnode) addPack(children []*gnode) {
 		}
 	}
 	n.packs = append(n.packs, children)
+	n.packAlts = append(n.packAlts, alt)
 }
 
 // ---------------------------------------------------------------------------
@@ -416,9 +420,9 @@ func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
 	}
 	y := p.findNode(k)
 	if w != nil {
-		y.addPack([]*gnode{w, z})
+		y.addPack(L.alt, []*gnode{w, z})
 	} else {
-		y.addPack([]*gnode{z})
+		y.addPack(L.alt, []*gnode{z})
 	}
 	return y
 }
-- 
2.43.0


From f891c2f84a4560c09d5f283528e4c5092cc79c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:08 +0000
Subject: [PATCH 07/34] fix: keep the repetition count in forest nodes

Symbol nodes and BSR elements of a counted repetition were shared between
frames with different counts, so a derivation that may stop and one that must
continue were merged and NumTrees, Ambiguous and Tree could report
derivations that do not exist (e.g. 2*3("a" / "aa") over "aaa").
---
 bsr.go     | 131 ++++++++++++++++++++++++++++----------------------
 codegen.go | 139 ++++++++++++++++++++++++++++++-----------------------
 sppf.go    |  20 +++++---
 3 files changed, 164 insertions(+), 126 deletions(-)

diff --git a/bsr.go b/bsr.go
index 75f3309..8141d96 100644
--- a/bsr.go
+++ b/bsr.go
@@ -27,9 +27,13 @@ import (
 // bsrElem is one binary subtree element. The slot's dot is "just past" the most
 // recently consumed symbol; that symbol spans [k,r] and the earlier prefix spans
 // [l,k]. A complete production (dot == len) records the nonterminal's extent.
+//
+// rc is the repetition count of the production's frame (0 outside a counted
+// repetition).
 type bsrElem struct {
 	slot    slot
 	l, k, r int
+	rc      int
 }
 
 // bsrGNode is a GSS node for the BSR engine. Unlike the SPPF GSS, its edges are
@@ -89,14 +93,14 @@ func (p *bsrParser) gssNodeFor(ret slot, pos, rc int) *bsrGNode {
 // when the consumed prefix has length >= 2 (an intermediate extent) or the
 // production is complete (dot == len). A length-1 prefix is degenerate (l == k)
 // and is reconstructed directly from the single symbol, so it is not stored.
-func (p *bsrParser) record(L slot, l, k, r int) {
+func (p *bsrParser) record(L slot, l, k, r, rc int) {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	if L.dot >= 2 || L.dot == len(prod) {
 		if p.maxElems > 0 && len(p.set) >= p.maxElems {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r}] = true
+		p.set[bsrElem{L, l, k, r, rc}] = true
 	}
 }
 
@@ -106,7 +110,7 @@ func (p *bsrParser) create(ret slot, u *bsrGNode, i, rc int) *bsrGNode {
 		v.edgeSet[u] = true
 		v.edges = append(v.edges, u)
 		for j := range p.popped[v] {
-			p.record(ret, u.pos, i, j)
+			p.record(ret, u.pos, i, j, rc)
 			p.add(ret, u, j, rc)
 		}
 	}
@@ -122,7 +126,7 @@ func (p *bsrParser) pop(u *bsrGNode, j int) {
 	}
 	p.popped[u][j] = true
 	for _, v := range u.edges {
-		p.record(u.ret, v.pos, u.pos, j)
+		p.record(u.ret, v.pos, u.pos, j, u.rc)
 		p.add(u.ret, v, j, u.rc)
 	}
 }
@@ -240,7 +244,7 @@ func (p *bsrParser) process(d bsrDesc) {
 			return
 		}
 		next := slot{L.nt, L.alt, L.dot + 1}
-		p.record(next, u.pos, i, j)
+		p.record(next, u.pos, i, j, rc)
 		i = j
 		L = next
 	}
@@ -257,7 +261,7 @@ type BSRForest struct {
 	input    []byte
 	rulename string
 	set      map[bsrElem]bool
-	index    map[bsrKey][]int // (slot,l,r) -> pivots k
+	index    map[bsrKey][]int // (slot,l,r,rc) -> pivots k
 	start    int
 	n        int
 }
@@ -265,12 +269,22 @@ type BSRForest struct {
 type bsrKey struct {
 	slot slot
 	l, r int
+	rc   int
+}
+
+// childRC returns the repetition count of the frame of symbol s called from a
+// production of nonterminal nt whose own count is rc.
+func (f *BSRForest) childRC(s ssym, nt, rc int) int {
+	if s.kind == symNonterm && s.nt == nt && f.sg.nts[nt].isRep {
+		return capRC(rc, f.sg.nts[nt])
+	}
+	return 0
 }
 
 func (f *BSRForest) buildIndex() {
 	f.index = make(map[bsrKey][]int, len(f.set))
 	for e := range f.set {
-		k := bsrKey{e.slot, e.l, e.r}
+		k := bsrKey{e.slot, e.l, e.r, e.rc}
 		f.index[k] = append(f.index[k], e.k)
 	}
 }
@@ -280,7 +294,7 @@ func (f *BSRForest) buildIndex() {
 func (f *BSRForest) startElems() (slot, []int, bool) {
 	for ai, prod := range f.sg.nts[f.start].alts {
 		s := slot{f.start, ai, len(prod)}
-		if ks := f.index[bsrKey{s, 0, f.n}]; len(ks) > 0 {
+		if ks := f.index[bsrKey{s, 0, f.n, 0}]; len(ks) > 0 {
 			return s, ks, true
 		}
 	}
@@ -291,7 +305,7 @@ func (f *BSRForest) startElems() (slot, []int, bool) {
 func (f *BSRForest) Valid() bool {
 	for ai, prod := range f.sg.nts[f.start].alts {
 		s := slot{f.start, ai, len(prod)}
-		if len(f.index[bsrKey{s, 0, f.n}]) > 0 {
+		if len(f.index[bsrKey{s, 0, f.n, 0}]) > 0 {
 			return true
 		}
 	}
@@ -307,6 +321,7 @@ type bsrNodeID struct {
 	slot  slot // for intermediate nodes
 	nt    int  // for symbol nodes
 	l, r  int
+	rc    int // repetition count
 }
 
 // NumTrees returns the number of distinct parse trees represented, or -1 for
@@ -320,35 +335,35 @@ func (f *BSRForest) NumTrees() *big.Int {
 	onStack := map[bsrNodeID]bool{}
 	infinite := false
 
-	var symWays func(s ssym, a, b int) *big.Int
-	var countSym func(nt, l, r int) *big.Int
-	var countInter func(sl slot, l, r int) *big.Int
-	var countElem func(sl slot, l, k, r int) *big.Int
+	var symWays func(s ssym, a, b, rc int) *big.Int
+	var countSym func(nt, l, r, rc int) *big.Int
+	var countInter func(sl slot, l, r, rc int) *big.Int
+	var countElem func(sl slot, l, k, r, rc int) *big.Int
 
-	symWays = func(s ssym, a, b int) *big.Int {
+	symWays = func(s ssym, a, b, rc int) *big.Int {
 		if s.kind == symNonterm {
-			return countSym(s.nt, a, b)
+			return countSym(s.nt, a, b, rc)
 		}
 		return big.NewInt(1) // terminal / eps leaf
 	}
 
-	countElem = func(sl slot, l, k, r int) *big.Int {
+	countElem = func(sl slot, l, k, r, rc int) *big.Int {
 		prod := f.sg.nts[sl.nt].alts[sl.alt]
-		last := symWays(prod[sl.dot-1], k, r)
+		last := symWays(prod[sl.dot-1], k, r, f.childRC(prod[sl.dot-1], sl.nt, rc))
 		var pre *big.Int
 		switch sl.dot {
 		case 1: // empty prefix (l == k)
 			pre = big.NewInt(1)
 		case 2: // single-symbol prefix
-			pre = symWays(prod[0], l, k)
+			pre = symWays(prod[0], l, k, f.childRC(prod[0], sl.nt, rc))
 		default: // intermediate prefix
-			pre = countInter(slot{sl.nt, sl.alt, sl.dot - 1}, l, k)
+			pre = countInter(slot{sl.nt, sl.alt, sl.dot - 1}, l, k, rc)
 		}
 		return new(big.Int).Mul(pre, last)
 	}
 
-	countInter = func(sl slot, l, r int) *big.Int {
-		id := bsrNodeID{inter: true, slot: sl, l: l, r: r}
+	countInter = func(sl slot, l, r, rc int) *big.Int {
+		id := bsrNodeID{inter: true, slot: sl, l: l, r: r, rc: rc}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -358,16 +373,16 @@ func (f *BSRForest) NumTrees() *big.Int {
 		}
 		onStack[id] = true
 		total := big.NewInt(0)
-		for _, k := range f.index[bsrKey{sl, l, r}] {
-			total.Add(total, countElem(sl, l, k, r))
+		for _, k := range f.index[bsrKey{sl, l, r, rc}] {
+			total.Add(total, countElem(sl, l, k, r, rc))
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
 
-	countSym = func(nt, l, r int) *big.Int {
-		id := bsrNodeID{nt: nt, l: l, r: r}
+	countSym = func(nt, l, r, rc int) *big.Int {
+		id := bsrNodeID{nt: nt, l: l, r: r, rc: rc}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -379,8 +394,8 @@ func (f *BSRForest) NumTrees() *big.Int {
 		total := big.NewInt(0)
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			for _, k := range f.index[bsrKey{sl, l, r}] {
-				total.Add(total, countElem(sl, l, k, r))
+			for _, k := range f.index[bsrKey{sl, l, r, rc}] {
+				total.Add(total, countElem(sl, l, k, r, rc))
 			}
 		}
 		onStack[id] = false
@@ -388,7 +403,7 @@ func (f *BSRForest) NumTrees() *big.Int {
 		return total
 	}
 
-	res := countSym(f.start, 0, f.n)
+	res := countSym(f.start, 0, f.n, 0)
 	if infinite {
 		return big.NewInt(-1)
 	}
@@ -402,49 +417,49 @@ func (f *BSRForest) Ambiguous() bool {
 	}
 	visited := map[bsrNodeID]bool{}
 
-	var symAmb func(nt, l, r int) bool
-	var interAmb func(sl slot, l, r int) bool
-	var elemAmb func(sl slot, l, k, r int) bool
+	var symAmb func(nt, l, r, rc int) bool
+	var interAmb func(sl slot, l, r, rc int) bool
+	var elemAmb func(sl slot, l, k, r, rc int) bool
 
-	symOf := func(s ssym, a, b int) bool {
+	symOf := func(s ssym, a, b, rc int) bool {
 		if s.kind == symNonterm {
-			return symAmb(s.nt, a, b)
+			return symAmb(s.nt, a, b, rc)
 		}
 		return false
 	}
-	elemAmb = func(sl slot, l, k, r int) bool {
+	elemAmb = func(sl slot, l, k, r, rc int) bool {
 		prod := f.sg.nts[sl.nt].alts[sl.alt]
-		if symOf(prod[sl.dot-1], k, r) {
+		if symOf(prod[sl.dot-1], k, r, f.childRC(prod[sl.dot-1], sl.nt, rc)) {
 			return true
 		}
 		switch sl.dot {
 		case 1:
 			return false
 		case 2:
-			return symOf(prod[0], l, k)
+			return symOf(prod[0], l, k, f.childRC(prod[0], sl.nt, rc))
 		default:
-			return interAmb(slot{sl.nt, sl.alt, sl.dot - 1}, l, k)
+			return interAmb(slot{sl.nt, sl.alt, sl.dot - 1}, l, k, rc)
 		}
 	}
-	interAmb = func(sl slot, l, r int) bool {
-		id := bsrNodeID{inter: true, slot: sl, l: l, r: r}
+	interAmb = func(sl slot, l, r, rc int) bool {
+		id := bsrNodeID{inter: true, slot: sl, l: l, r: r, rc: rc}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
-		ks := f.index[bsrKey{sl, l, r}]
+		ks := f.index[bsrKey{sl, l, r, rc}]
 		if len(ks) > 1 {
 			return true
 		}
 		for _, k := range ks {
-			if elemAmb(sl, l, k, r) {
+			if elemAmb(sl, l, k, r, rc) {
 				return true
 			}
 		}
 		return false
 	}
-	symAmb = func(nt, l, r int) bool {
-		id := bsrNodeID{nt: nt, l: l, r: r}
+	symAmb = func(nt, l, r, rc int) bool {
+		id := bsrNodeID{nt: nt, l: l, r: r, rc: rc}
 		if visited[id] {
 			return false
 		}
@@ -452,7 +467,7 @@ func (f *BSRForest) Ambiguous() bool {
 		packs := 0
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			ks := f.index[bsrKey{sl, l, r}]
+			ks := f.index[bsrKey{sl, l, r, rc}]
 			packs += len(ks)
 		}
 		if packs > 1 {
@@ -460,15 +475,15 @@ func (f *BSRForest) Ambiguous() bool {
 		}
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			for _, k := range f.index[bsrKey{sl, l, r}] {
-				if elemAmb(sl, l, k, r) {
+			for _, k := range f.index[bsrKey{sl, l, r, rc}] {
+				if elemAmb(sl, l, k, r, rc) {
 					return true
 				}
 			}
 		}
 		return false
 	}
-	return symAmb(f.start, 0, f.n)
+	return symAmb(f.start, 0, f.n, 0)
 }
 
 // Tree extracts a single parse tree (first element at each extent), or nil if
@@ -490,7 +505,7 @@ func (f *BSRForest) Tree() *ParseTree {
 // complete-production slot sl with pivot k.
 func (f *BSRForest) emitSym(nt int, sl slot, k, l, r int, visited map[bsrNodeID]bool) *ParseTree {
 	var kids []*ParseTree
-	f.collectElem(sl, l, k, r, &kids, visited)
+	f.collectElem(sl, l, k, r, 0, &kids, visited)
 	info := f.sg.nts[nt]
 	if !info.isRule {
 		// synthetic (group/option/rep): splice children into the parent
@@ -501,25 +516,25 @@ func (f *BSRForest) emitSym(nt int, sl slot, k, l, r int, visited map[bsrNodeID]
 
 // collectElem appends the children of element (sl,l,k,r) into out, flattening
 // intermediate extents and synthetic nonterminals.
-func (f *BSRForest) collectElem(sl slot, l, k, r int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
+func (f *BSRForest) collectElem(sl slot, l, k, r, rc int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
 	prod := f.sg.nts[sl.nt].alts[sl.alt]
 	// prefix x_1..x_{dot-1} over [l,k]
 	switch sl.dot {
 	case 1:
 		// empty
 	case 2:
-		f.collectChild(prod[0], l, k, out, visited)
+		f.collectChild(prod[0], l, k, f.childRC(prod[0], sl.nt, rc), out, visited)
 	default:
 		isl := slot{sl.nt, sl.alt, sl.dot - 1}
-		if ks := f.index[bsrKey{isl, l, k}]; len(ks) > 0 {
-			f.collectElem(isl, l, ks[0], k, out, visited)
+		if ks := f.index[bsrKey{isl, l, k, rc}]; len(ks) > 0 {
+			f.collectElem(isl, l, ks[0], k, rc, out, visited)
 		}
 	}
 	// last symbol x_{dot} over [k,r]
-	f.collectChild(prod[sl.dot-1], k, r, out, visited)
+	f.collectChild(prod[sl.dot-1], k, r, f.childRC(prod[sl.dot-1], sl.nt, rc), out, visited)
 }
 
-func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
+func (f *BSRForest) collectChild(s ssym, a, b, rc int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
 	if s.kind != symNonterm {
 		if s.kind == symEps {
 			return // epsilon contributes no leaf
@@ -527,7 +542,7 @@ func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited ma
 		*out = append(*out, &ParseTree{Start: a, End: b})
 		return
 	}
-	id := bsrNodeID{nt: s.nt, l: a, r: b}
+	id := bsrNodeID{nt: s.nt, l: a, r: b, rc: rc}
 	if visited[id] {
 		return
 	}
@@ -535,15 +550,15 @@ func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited ma
 	// pick the first complete-production element for this nonterminal extent
 	for ai, prod := range f.sg.nts[s.nt].alts {
 		csl := slot{s.nt, ai, len(prod)}
-		if ks := f.index[bsrKey{csl, a, b}]; len(ks) > 0 {
+		if ks := f.index[bsrKey{csl, a, b, rc}]; len(ks) > 0 {
 			info := f.sg.nts[s.nt]
 			if info.isRule {
 				var kids []*ParseTree
-				f.collectElem(csl, a, ks[0], b, &kids, visited)
+				f.collectElem(csl, a, ks[0], b, rc, &kids, visited)
 				*out = append(*out, &ParseTree{Rule: info.ruleName, Start: a, End: b, Children: kids})
 			} else {
 				// synthetic: splice its children directly into the parent
-				f.collectElem(csl, a, ks[0], b, out, visited)
+				f.collectElem(csl, a, ks[0], b, rc, out, visited)
 			}
 			visited[id] = false
 			return
diff --git a/codegen.go b/codegen.go
index 39129e9..1cb4f40 100644
--- a/codegen.go
+++ b/codegen.go
@@ -204,12 +204,12 @@ func (c *codegen) emitCall(b *strings.Builder, s sInfo, callee, retID int) {
 
 func (c *codegen) emitTerminal(b *strings.Builder, sym ssym, nextID int) {
 	if sym.kind == symEps {
-		fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, i)\n", nextID)
+		fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, i, rc)\n", nextID)
 		fmt.Fprintf(b, "\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 		return
 	}
 	c.emitMatch(b, sym) // sets j or returns on failure
-	fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, j)\n", nextID)
+	fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, j, rc)\n", nextID)
 	fmt.Fprintf(b, "\t\t\ti = j\n\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 }
 
@@ -340,7 +340,7 @@ func (c *codegen) emitMetadata(b *strings.Builder) {
 
 	b.WriteString("var qNTs = []qNT{\n")
 	for _, nt := range c.sg.nts {
-		fmt.Fprintf(b, "\t{isRule: %v, ruleName: %q, alts: ", nt.isRule, nt.ruleName)
+		fmt.Fprintf(b, "\t{isRule: %v, ruleName: %q, isRep: %v, repMin: %d, repMax: %d, alts: ", nt.isRule, nt.ruleName, nt.isRep, nt.repMin, nt.repMax)
 		if len(nt.alts) == 0 {
 			b.WriteString("nil},\n")
 			continue
@@ -474,12 +474,16 @@ type qSym struct{ kind, nt int }
 type qNT struct {
 	isRule   bool
 	ruleName string
+	isRep    bool
+	repMin   int
+	repMax   int
 	alts     [][]qSym
 }
 
 type bsrElem struct {
 	sl      int
 	l, k, r int
+	rc      int // repetition count of the production's frame
 }
 
 type gssKey struct {
@@ -559,14 +563,14 @@ func (p *parser) gssNodeFor(ret, pos, rc int) *gnode {
 
 // record inserts a BSR element, keeping only intermediate (prefix length >= 2)
 // or complete (dot == len) extents.
-func (p *parser) record(L, l, k, r int) {
+func (p *parser) record(L, l, k, r, rc int) {
 	si := slotInfo[L]
 	if si.dot >= 2 || si.dot == si.plen {
 		if MaxElements > 0 && len(p.set) >= MaxElements {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r}] = true
+		p.set[bsrElem{L, l, k, r, rc}] = true
 	}
 }
 
@@ -576,7 +580,7 @@ func (p *parser) create(ret int, u *gnode, i, rc int) *gnode {
 		v.edgeSet[u] = true
 		v.edges = append(v.edges, u)
 		for j := range p.popped[v] {
-			p.record(ret, u.pos, i, j)
+			p.record(ret, u.pos, i, j, rc)
 			p.add(ret, u, j, rc)
 		}
 	}
@@ -592,7 +596,7 @@ func (p *parser) pop(u *gnode, j int) {
 	}
 	p.popped[u][j] = true
 	for _, v := range u.edges {
-		p.record(u.ret, v.pos, u.pos, j)
+		p.record(u.ret, v.pos, u.pos, j, u.rc)
 		p.add(u.ret, v, j, u.rc)
 	}
 }
@@ -612,12 +616,27 @@ type ParseTree struct {
 type bsrKey struct {
 	sl   int
 	l, r int
+	rc   int
 }
 
 type nodeID struct {
 	sl   int // slot id for intermediate nodes; -1 for symbol nodes
 	nt   int // nonterminal id for symbol nodes
 	l, r int
+	rc   int // repetition count
+}
+
+// childRC returns the repetition count of the frame of symbol s called from a
+// production of nonterminal nt whose own count is rc.
+func childRC(s qSym, nt, rc int) int {
+	if s.kind != kNT || s.nt != nt || !qNTs[nt].isRep {
+		return 0
+	}
+	rc++
+	if qNTs[nt].repMax == inf && rc > qNTs[nt].repMin {
+		rc = qNTs[nt].repMin
+	}
+	return rc
 }
 
 // Result holds the BSR set for a parse and answers queries over it.
@@ -634,7 +653,7 @@ func (r *Result) buildIndex() {
 	}
 	r.index = make(map[bsrKey][]int, len(r.set))
 	for e := range r.set {
-		bk := bsrKey{e.sl, e.l, e.r}
+		bk := bsrKey{e.sl, e.l, e.r, e.rc}
 		r.index[bk] = append(r.index[bk], e.k)
 	}
 }
@@ -643,7 +662,7 @@ func (r *Result) buildIndex() {
 func (r *Result) Valid() bool {
 	r.buildIndex()
 	for _, sl := range ntComplete[gStart] {
-		if len(r.index[bsrKey{sl, 0, r.n}]) > 0 {
+		if len(r.index[bsrKey{sl, 0, r.n, 0}]) > 0 {
 			return true
 		}
 	}
@@ -662,34 +681,34 @@ func (r *Result) NumTrees() *big.Int {
 	onStack := map[nodeID]bool{}
 	infinite := false
 
-	var symWays func(s qSym, a, b int) *big.Int
-	var countSym func(nt, l, rr int) *big.Int
-	var countInter func(sl, l, rr int) *big.Int
-	var countElem func(sl, l, k, rr int) *big.Int
+	var symWays func(s qSym, a, b, rc int) *big.Int
+	var countSym func(nt, l, rr, rc int) *big.Int
+	var countInter func(sl, l, rr, rc int) *big.Int
+	var countElem func(sl, l, k, rr, rc int) *big.Int
 
-	symWays = func(s qSym, a, b int) *big.Int {
+	symWays = func(s qSym, a, b, rc int) *big.Int {
 		if s.kind == kNT {
-			return countSym(s.nt, a, b)
+			return countSym(s.nt, a, b, rc)
 		}
 		return big.NewInt(1)
 	}
-	countElem = func(sl, l, k, rr int) *big.Int {
+	countElem = func(sl, l, k, rr, rc int) *big.Int {
 		si := slotInfo[sl]
 		prod := qNTs[si.nt].alts[si.alt]
-		last := symWays(prod[si.dot-1], k, rr)
+		last := symWays(prod[si.dot-1], k, rr, childRC(prod[si.dot-1], si.nt, rc))
 		var pre *big.Int
 		switch {
 		case si.dot == 1:
 			pre = big.NewInt(1)
 		case si.dot == 2:
-			pre = symWays(prod[0], l, k)
+			pre = symWays(prod[0], l, k, childRC(prod[0], si.nt, rc))
 		default:
-			pre = countInter(sl-1, l, k)
+			pre = countInter(sl-1, l, k, rc)
 		}
 		return new(big.Int).Mul(pre, last)
 	}
-	countInter = func(sl, l, rr int) *big.Int {
-		id := nodeID{sl: sl, nt: -1, l: l, r: rr}
+	countInter = func(sl, l, rr, rc int) *big.Int {
+		id := nodeID{sl: sl, nt: -1, l: l, r: rr, rc: rc}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -699,15 +718,15 @@ func (r *Result) NumTrees() *big.Int {
 		}
 		onStack[id] = true
 		total := big.NewInt(0)
-		for _, k := range r.index[bsrKey{sl, l, rr}] {
-			total.Add(total, countElem(sl, l, k, rr))
+		for _, k := range r.index[bsrKey{sl, l, rr, rc}] {
+			total.Add(total, countElem(sl, l, k, rr, rc))
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
-	countSym = func(nt, l, rr int) *big.Int {
-		id := nodeID{sl: -1, nt: nt, l: l, r: rr}
+	countSym = func(nt, l, rr, rc int) *big.Int {
+		id := nodeID{sl: -1, nt: nt, l: l, r: rr, rc: rc}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -718,15 +737,15 @@ func (r *Result) NumTrees() *big.Int {
 		onStack[id] = true
 		total := big.NewInt(0)
 		for _, sl := range ntComplete[nt] {
-			for _, k := range r.index[bsrKey{sl, l, rr}] {
-				total.Add(total, countElem(sl, l, k, rr))
+			for _, k := range r.index[bsrKey{sl, l, rr, rc}] {
+				total.Add(total, countElem(sl, l, k, rr, rc))
 			}
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
-	res := countSym(gStart, 0, r.n)
+	res := countSym(gStart, 0, r.n, 0)
 	if infinite {
 		return big.NewInt(-1)
 	}
@@ -739,71 +758,71 @@ func (r *Result) Ambiguous() bool {
 		return false
 	}
 	visited := map[nodeID]bool{}
-	var symAmb func(nt, l, rr int) bool
-	var interAmb func(sl, l, rr int) bool
-	var elemAmb func(sl, l, k, rr int) bool
-	var symOf func(s qSym, a, b int) bool
-	symOf = func(s qSym, a, b int) bool {
+	var symAmb func(nt, l, rr, rc int) bool
+	var interAmb func(sl, l, rr, rc int) bool
+	var elemAmb func(sl, l, k, rr, rc int) bool
+	var symOf func(s qSym, a, b, rc int) bool
+	symOf = func(s qSym, a, b, rc int) bool {
 		if s.kind == kNT {
-			return symAmb(s.nt, a, b)
+			return symAmb(s.nt, a, b, rc)
 		}
 		return false
 	}
-	elemAmb = func(sl, l, k, rr int) bool {
+	elemAmb = func(sl, l, k, rr, rc int) bool {
 		si := slotInfo[sl]
 		prod := qNTs[si.nt].alts[si.alt]
-		if symOf(prod[si.dot-1], k, rr) {
+		if symOf(prod[si.dot-1], k, rr, childRC(prod[si.dot-1], si.nt, rc)) {
 			return true
 		}
 		switch {
 		case si.dot == 1:
 			return false
 		case si.dot == 2:
-			return symOf(prod[0], l, k)
+			return symOf(prod[0], l, k, childRC(prod[0], si.nt, rc))
 		default:
-			return interAmb(sl-1, l, k)
+			return interAmb(sl-1, l, k, rc)
 		}
 	}
-	interAmb = func(sl, l, rr int) bool {
-		id := nodeID{sl: sl, nt: -1, l: l, r: rr}
+	interAmb = func(sl, l, rr, rc int) bool {
+		id := nodeID{sl: sl, nt: -1, l: l, r: rr, rc: rc}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
-		ks := r.index[bsrKey{sl, l, rr}]
+		ks := r.index[bsrKey{sl, l, rr, rc}]
 		if len(ks) > 1 {
 			return true
 		}
 		for _, k := range ks {
-			if elemAmb(sl, l, k, rr) {
+			if elemAmb(sl, l, k, rr, rc) {
 				return true
 			}
 		}
 		return false
 	}
-	symAmb = func(nt, l, rr int) bool {
-		id := nodeID{sl: -1, nt: nt, l: l, r: rr}
+	symAmb = func(nt, l, rr, rc int) bool {
+		id := nodeID{sl: -1, nt: nt, l: l, r: rr, rc: rc}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
 		packs := 0
 		for _, sl := range ntComplete[nt] {
-			packs += len(r.index[bsrKey{sl, l, rr}])
+			packs += len(r.index[bsrKey{sl, l, rr, rc}])
 		}
 		if packs > 1 {
 			return true
 		}
 		for _, sl := range ntComplete[nt] {
-			for _, k := range r.index[bsrKey{sl, l, rr}] {
-				if elemAmb(sl, l, k, rr) {
+			for _, k := range r.index[bsrKey{sl, l, rr, rc}] {
+				if elemAmb(sl, l, k, rr, rc) {
 					return true
 				}
 			}
 		}
 		return false
 	}
-	return symAmb(gStart, 0, r.n)
+	return symAmb(gStart, 0, r.n, 0)
 }
 
 // Tree extracts a single parse tree (first element at each extent), or nil if
@@ -813,31 +832,31 @@ func (r *Result) Tree() *ParseTree {
 		return nil
 	}
 	for _, sl := range ntComplete[gStart] {
-		if ks := r.index[bsrKey{sl, 0, r.n}]; len(ks) > 0 {
+		if ks := r.index[bsrKey{sl, 0, r.n, 0}]; len(ks) > 0 {
 			var kids []*ParseTree
-			r.collectElem(sl, 0, ks[0], r.n, &kids, map[nodeID]bool{})
+			r.collectElem(sl, 0, ks[0], r.n, 0, &kids, map[nodeID]bool{})
 			return &ParseTree{Rule: qNTs[gStart].ruleName, Start: 0, End: r.n, Children: kids}
 		}
 	}
 	return nil
 }
 
-func (r *Result) collectElem(sl, l, k, rr int, out *[]*ParseTree, visited map[nodeID]bool) {
+func (r *Result) collectElem(sl, l, k, rr, rc int, out *[]*ParseTree, visited map[nodeID]bool) {
 	si := slotInfo[sl]
 	prod := qNTs[si.nt].alts[si.alt]
 	switch {
 	case si.dot == 1:
 	case si.dot == 2:
-		r.collectChild(prod[0], l, k, out, visited)
+		r.collectChild(prod[0], l, k, childRC(prod[0], si.nt, rc), out, visited)
 	default:
-		if ks := r.index[bsrKey{sl - 1, l, k}]; len(ks) > 0 {
-			r.collectElem(sl-1, l, ks[0], k, out, visited)
+		if ks := r.index[bsrKey{sl - 1, l, k, rc}]; len(ks) > 0 {
+			r.collectElem(sl-1, l, ks[0], k, rc, out, visited)
 		}
 	}
-	r.collectChild(prod[si.dot-1], k, rr, out, visited)
+	r.collectChild(prod[si.dot-1], k, rr, childRC(prod[si.dot-1], si.nt, rc), out, visited)
 }
 
-func (r *Result) collectChild(s qSym, a, b int, out *[]*ParseTree, visited map[nodeID]bool) {
+func (r *Result) collectChild(s qSym, a, b, rc int, out *[]*ParseTree, visited map[nodeID]bool) {
 	if s.kind != kNT {
 		if s.kind == kEps {
 			return
@@ -845,19 +864,19 @@ func (r *Result) collectChild(s qSym, a, b int, out *[]*ParseTree, visited map[n
 		*out = append(*out, &ParseTree{Start: a, End: b})
 		return
 	}
-	id := nodeID{sl: -1, nt: s.nt, l: a, r: b}
+	id := nodeID{sl: -1, nt: s.nt, l: a, r: b, rc: rc}
 	if visited[id] {
 		return
 	}
 	visited[id] = true
 	for _, sl := range ntComplete[s.nt] {
-		if ks := r.index[bsrKey{sl, a, b}]; len(ks) > 0 {
+		if ks := r.index[bsrKey{sl, a, b, rc}]; len(ks) > 0 {
 			if qNTs[s.nt].isRule {
 				var kids []*ParseTree
-				r.collectElem(sl, a, ks[0], b, &kids, visited)
+				r.collectElem(sl, a, ks[0], b, rc, &kids, visited)
 				*out = append(*out, &ParseTree{Rule: qNTs[s.nt].ruleName, Start: a, End: b, Children: kids})
 			} else {
-				r.collectElem(sl, a, ks[0], b, out, visited)
+				r.collectElem(sl, a, ks[0], b, rc, out, visited)
 			}
 			visited[id] = false
 			return
diff --git a/sppf.go b/sppf.go
index bf1ee9a..9373d29 100644
--- a/sppf.go
+++ b/sppf.go
@@ -323,13 +323,16 @@ type gllParser struct {
 }
 
 // nodeKey interns SPPF nodes without allocating strings. Distinct kinds never
-// collide: symbol nodes key on (kind,nt,start,end); intermediate nodes on
-// (kind,L,start,end); terminal nodes on (kind,start,end).
+// collide: symbol nodes key on (kind,nt,start,end,rc); intermediate nodes on
+// (kind,L,start,end); terminal nodes on (kind,start,end). The repetition count
+// keeps apart derivations of a counted repetition that may stop or continue
+// differently.
 type nodeKey struct {
 	kind       gnodeKind
 	nt         int
 	L          slot
 	start, end int
+	rc         int
 }
 
 type gssKey struct {
@@ -364,7 +367,7 @@ func (p *gllParser) create(L slot, u *gssNode, i int, w *gnode, rc int) *gssNode
 		v.edgeSet[e] = true
 		v.edges = append(v.edges, e)
 		for z := range p.popped[v] {
-			y := p.getNodeP(L, w, z)
+			y := p.getNodeP(L, w, z, rc)
 			p.add(L, u, z.End, y, rc)
 		}
 	}
@@ -380,7 +383,7 @@ func (p *gllParser) pop(u *gssNode, i int, z *gnode) {
 	}
 	p.popped[u][z] = true
 	for _, e := range u.edges {
-		y := p.getNodeP(u.ret, e.w, z)
+		y := p.getNodeP(u.ret, e.w, z, u.rc)
 		p.add(u.ret, e.to, i, y, u.rc)
 	}
 }
@@ -401,8 +404,9 @@ func (p *gllParser) getNodeT(start, end int) *gnode {
 	return p.findNode(nodeKey{kind: gTerm, nt: -1, start: start, end: end})
 }
 
-// getNodeP combines left node w (may be nil == $) and right node z under slot L.
-func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
+// getNodeP combines left node w (may be nil == $) and right node z under slot L,
+// in a frame whose repetition count is rc.
+func (p *gllParser) getNodeP(L slot, w, z *gnode, rc int) *gnode {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	betaEmpty := L.dot == len(prod)
 	if L.dot == 1 && !betaEmpty {
@@ -414,7 +418,7 @@ func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
 	}
 	var k nodeKey
 	if betaEmpty {
-		k = nodeKey{kind: gSymbol, nt: L.nt, start: start, end: z.End}
+		k = nodeKey{kind: gSymbol, nt: L.nt, start: start, end: z.End, rc: rc}
 	} else {
 		k = nodeKey{kind: gInter, nt: -1, L: L, start: start, end: z.End}
 	}
@@ -549,7 +553,7 @@ func (p *gllParser) process(d descriptor) {
 		}
 		cR := p.getNodeT(i, j)
 		next := slot{L.nt, L.alt, L.dot + 1}
-		w = p.getNodeP(next, w, cR)
+		w = p.getNodeP(next, w, cR, rc)
 		i = j
 		L = next
 	}
-- 
2.43.0


From 295c514148a51a427ba5bdc1dec5ebae87d35d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:26 +0000
Subject: [PATCH 08/34] fix: do not modify the shared core rules when a grammar
 extends one

With WithRedefineCoreRules(true), ALPHA =/ "!" appended to the package-wide
core rule, so every later use of ALPHA, including the ABNF meta-grammar
itself, changed for the rest of the process.
---
 grammar.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index 8b3932a..e760ccd 100644
--- a/grammar.go
+++ b/grammar.go
@@ -182,9 +182,17 @@ func (e *feval) rulelist(t *ParseTree) (*Grammar, error) {
 			if !e.o.redefineCore && isCoreRule {
 				return nil, &ErrCoreRuleModify{CoreRulename: rl.Name}
 			}
-			rule := GetRule(rl.Name, mp)
+			rule := getRuleIn(rl.Name, mp)
 			if rule == nil {
-				return nil, &ErrRuleNotFound{Rulename: rl.Name}
+				core := getRuleIn(rl.Name, coreRules)
+				if core == nil {
+					return nil, &ErrRuleNotFound{Rulename: rl.Name}
+				}
+				// Extend a copy: core rules are shared by all grammars.
+				rule = &Rule{
+					Name:        core.Name,
+					Alternation: Alternation{Concatenations: slices.Clone(core.Alternation.Concatenations)},
+				}
 			}
 			rule.Alternation.Concatenations = append(rule.Alternation.Concatenations, rl.Alternation.Concatenations...)
 			mp[rule.Name] = rule
-- 
2.43.0


From 5eb38068d4226cb817e80ff93cd7ebe44161b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:26 +0000
Subject: [PATCH 09/34] fix: report a core rule redefined twice as duplicated

ALPHA = "a" followed by alpha = "b" was accepted with
WithRedefineCoreRules(true) and left two entries for the same rule, of which
a lookup picked either.
---
 grammar.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/grammar.go b/grammar.go
index e760ccd..ca7e5e2 100644
--- a/grammar.go
+++ b/grammar.go
@@ -169,11 +169,10 @@ func (e *feval) rulelist(t *ParseTree) (*Grammar, error) {
 		switch definedAs {
 		case "=":
 			isCoreRule := GetRule(rl.Name, nil) != nil
-			if isCoreRule {
-				if !e.o.redefineCore {
-					return nil, &ErrCoreRuleModify{CoreRulename: rl.Name}
-				}
-			} else if GetRule(rl.Name, mp) != nil {
+			if isCoreRule && !e.o.redefineCore {
+				return nil, &ErrCoreRuleModify{CoreRulename: rl.Name}
+			}
+			if getRuleIn(rl.Name, mp) != nil {
 				return nil, &ErrDuplicatedRule{Rulename: rl.Name}
 			}
 			mp[rl.Name] = rl
-- 
2.43.0


From cf6b2cdc6ff3bb86da6c9a858c9fbc1567ea0bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:26 +0000
Subject: [PATCH 10/34] fix: do not read =/ from a comment around defined-as

A comment containing "=/" between the rule name and its elements turned a
definition into an incremental alternative.
---
 grammar.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index ca7e5e2..030a764 100644
--- a/grammar.go
+++ b/grammar.go
@@ -207,9 +207,12 @@ func (e *feval) rule(t *ParseTree) (*Rule, string, error) {
 	if nameNode == nil || defNode == nil || elemsNode == nil {
 		return nil, "", ErrNoSolutionFound
 	}
+	// The surrounding c-wsp may hold comments, so look at the terminal itself.
 	definedAs := "="
-	if strings.Contains(e.span(defNode), "=/") {
-		definedAs = "=/"
+	for _, c := range defNode.Children {
+		if c.Rule == "" {
+			definedAs = e.span(c)
+		}
 	}
 	altNode := ptFirst(elemsNode, "alternation")
 	if altNode == nil {
-- 
2.43.0


From 18d43491adf55074f0d121c29a15bc7ba43bb2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:46 +0000
Subject: [PATCH 11/34] fix: report the furthest position reached in ParseError

Offset ignored terminals that matched, so trailing input after a complete word
was reported at the last failed terminal, often offset 0, instead of where the
input stops making sense.
---
 sppf.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sppf.go b/sppf.go
index 9373d29..072c319 100644
--- a/sppf.go
+++ b/sppf.go
@@ -551,6 +551,7 @@ func (p *gllParser) process(d descriptor) {
 			p.noteFail(i, s)
 			return
 		}
+		p.noteReach(j)
 		cR := p.getNodeT(i, j)
 		next := slot{L.nt, L.alt, L.dot + 1}
 		w = p.getNodeP(next, w, cR, rc)
@@ -559,16 +560,23 @@ func (p *gllParser) process(d descriptor) {
 	}
 }
 
-// noteFail records that a terminal match failed at input offset i. It maintains
-// the furthest such offset and, for that offset only, the set of terminals that
-// could have been consumed -- the classic "furthest-failure" position used to
-// report where parsing got stuck.
-func (p *gllParser) noteFail(i int, s ssym) {
+// noteReach records that a terminal match ended at input offset i, so that the
+// reported position is the furthest one reached even when no terminal was tried
+// there (e.g. trailing input after a complete word).
+func (p *gllParser) noteReach(i int) {
 	if i > p.maxPos {
 		p.maxPos = i
 		p.expected = p.expected[:0]
 		p.expectedSeen = nil
 	}
+}
+
+// noteFail records that a terminal match failed at input offset i. It maintains
+// the furthest such offset and, for that offset only, the set of terminals that
+// could have been consumed -- the classic "furthest-failure" position used to
+// report where parsing got stuck.
+func (p *gllParser) noteFail(i int, s ssym) {
+	p.noteReach(i)
 	if i != p.maxPos {
 		return
 	}
-- 
2.43.0


From 85b87f36be3b30992b4bc49d7721850c59e33e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:46 +0000
Subject: [PATCH 12/34] fix: a rule that references itself is a cycle for IsDAG
 too

---
 dag.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dag.go b/dag.go
index a0d7cf6..ed1c9b1 100644
--- a/dag.go
+++ b/dag.go
@@ -92,6 +92,12 @@ func (g *Grammar) IsDAG() bool {
 		if len(sccs) > 1 {
 			return false
 		}
+		// A single node is a cycle when it depends on itself.
+		for _, nd := range sccs {
+			if slices.Contains(nd.Dependencies, strings.ToLower(nd.Rulename)) {
+				return false
+			}
+		}
 	}
 	return true
 }
-- 
2.43.0


From 2883a99250afc6a0296a0ebee4f8e3e54fc53f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:30 +0000
Subject: [PATCH 13/34] fix: never generate a surrogate as U+FFFD

---
 ast.go              | 14 ++++----------
 generate.go         | 11 ++++-------
 transition_graph.go | 30 +++++++++++-------------------
 utils.go            | 43 +++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 62 insertions(+), 36 deletions(-)

diff --git a/ast.go b/ast.go
index 5b5adc6..53a952e 100644
--- a/ast.go
+++ b/ast.go
@@ -264,18 +264,12 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 			}
 		case StatRange:
 			min, max := numvalToRune(e.Elems[0], e.Base), numvalToRune(e.Elems[1], e.Base)
-			// Emit within the representable (Unicode) subset of the range.
-			if max > utf8.MaxRune {
-				max = utf8.MaxRune
-			}
-			if min > utf8.MaxRune || min > max {
+			// Emit within the representable (Unicode scalar) subset of the range.
+			span := scalarCount(min, max)
+			if span == 0 {
 				break // nothing representable to emit
 			}
-			span := int(max-min) + 1
-			if span < 1 {
-				span = 1
-			}
-			*out = append(*out, []byte(string(min+rune(src.intn(span))))...)
+			*out = append(*out, []byte(string(scalarAt(min, int32(src.intn(int(span))))))...)
 		}
 
 	case ElemProseVal:
diff --git a/generate.go b/generate.go
index 179db93..3e93934 100644
--- a/generate.go
+++ b/generate.go
@@ -71,14 +71,11 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 				switch elem.Status {
 				case StatRange:
 					min, max := numvalToRune(elem.Elems[0], elem.Base), numvalToRune(elem.Elems[1], elem.Base)
-					// Generation emits UTF-8 text, so clamp to the representable
-					// (Unicode) subset; a range wholly above U+10FFFF (or with
+					// Generation emits UTF-8 text, so keep to the representable
+					// (Unicode scalar) subset; a range wholly above U+10FFFF (or with
 					// max < min) yields no character.
-					if max > utf8.MaxRune {
-						max = utf8.MaxRune
-					}
-					if min <= utf8.MaxRune && min <= max {
-						r := min + (rune(rand.Int63()&0x0F) % (max - min + 1)) // mask 0x0F to keep the 32-bit part (rune size)
+					if n := scalarCount(min, max); n > 0 {
+						r := scalarAt(min, int32(rand.Int63()&0x0F)%n) // mask 0x0F to keep the 32-bit part (rune size)
 						appendPtr(out, r)
 					}
 
diff --git a/transition_graph.go b/transition_graph.go
index 12b74d8..5ab2b1b 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -5,7 +5,6 @@ import (
 	"slices"
 	"sort"
 	"strings"
-	"unicode/utf8"
 
 	uuid "github.com/hashicorp/go-uuid"
 )
@@ -922,16 +921,13 @@ func nodeEmit(node *Node, tpos int32) (prod []byte, vtotal int32) {
 			return prod, 1
 		case StatRange:
 			min, max := numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base)
-			// The graph operates over runes; clamp to the Unicode range so an
-			// out-of-range bound cannot overflow the int32 count below.
-			if max > utf8.MaxRune {
-				max = utf8.MaxRune
-			}
-			if min > utf8.MaxRune || min > max {
+			// The graph operates over runes; keep to the Unicode scalar values so
+			// an out-of-range bound cannot overflow the int32 count.
+			total := scalarCount(min, max)
+			if total == 0 {
 				return nil, 1 // no representable character in this range
 			}
-			r := rune(min + tpos)
-			return []byte(string(r)), max - min + 1
+			return []byte(string(scalarAt(min, tpos))), total
 		}
 	}
 	return nil, 1
@@ -1358,21 +1354,17 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 			// One node is enumerated per rune; clamp to the Unicode range so an
 			// out-of-range bound cannot overflow the count (int32) and bypass the
 			// node budget, which would turn this loop into a DoS. A range wholly
-			// above U+10FFFF contributes no node (it matches nothing).
-			if max > utf8.MaxRune {
-				max = utf8.MaxRune
-			}
-			if min > utf8.MaxRune || min > max {
-				return
-			}
-			if err := m.reserve(int(max - min + 1)); err != nil {
+			// above U+10FFFF contributes no node (it matches nothing), and so do
+			// surrogates.
+			count := scalarCount(min, max)
+			if err := m.reserve(int(count)); err != nil {
 				return nil, nil, err
 			}
-			for i := min; i <= max; i++ {
+			for i := range count {
 				n := newNode(ElemNumVal{
 					Base:   v.Base,
 					Status: StatSeries,
-					Elems:  []string{int32ToNumval(i, v.Base)},
+					Elems:  []string{int32ToNumval(scalarAt(min, i), v.Base)},
 				})
 				entrypoints = append(entrypoints, n)
 				endpoints = append(endpoints, n)
diff --git a/utils.go b/utils.go
index dcc9e6d..e51f25a 100644
--- a/utils.go
+++ b/utils.go
@@ -4,6 +4,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // int32ToNumval converts an integer value into its numeric-string representation
@@ -75,6 +76,48 @@ func numvalToRune(str, base string) rune {
 	return rune(numvalToInt32(str, base))
 }
 
+// scalarCount returns how many Unicode scalar values lie in [min, max], i.e. how
+// many distinct characters UTF-8 text can hold for this num-val range. It is 0
+// for a reversed range and for one made of surrogates or of values above
+// U+10FFFF only, as those match no input.
+func scalarCount(min, max rune) int32 {
+	if max > utf8.MaxRune {
+		max = utf8.MaxRune
+	}
+	if min >= surrogateMin && min <= surrogateMax {
+		min = surrogateMax + 1
+	}
+	if max >= surrogateMin && max <= surrogateMax {
+		max = surrogateMin - 1
+	}
+	if min > max {
+		return 0
+	}
+	n := max - min + 1
+	if min < surrogateMin && max > surrogateMax {
+		n -= surrogateMax - surrogateMin + 1
+	}
+	return n
+}
+
+// scalarAt returns the i-th Unicode scalar value from min upwards.
+func scalarAt(min rune, i int32) rune {
+	if min >= surrogateMin && min <= surrogateMax {
+		min = surrogateMax + 1
+	}
+	r := min + i
+	if min < surrogateMin && r >= surrogateMin {
+		r += surrogateMax - surrogateMin + 1
+	}
+	return r
+}
+
+// The surrogate range is not made of characters: UTF-8 can't encode it.
+const (
+	surrogateMin = 0xD800
+	surrogateMax = 0xDFFF
+)
+
 // checkBounds enforces the Unicode-range invariant (value <= U+10FFFF). It is
 // the strict-validation path used by SemvalABNF: with validation enabled (the
 // default, and the common textual case) a num-val outside the Unicode range is
-- 
2.43.0


From a607efa939a45f9e751144420b87bfbb410d2859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:50 +0000
Subject: [PATCH 14/34] fix: chain the values of a deflated num-val series

---
 transition_graph.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/transition_graph.go b/transition_graph.go
index 5ab2b1b..56eba46 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -1374,15 +1374,22 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 			if err := m.reserve(len(v.Elems)); err != nil {
 				return nil, nil, err
 			}
+			// A series is a concatenation: its values follow each other.
+			var prev *Node
 			for _, s := range v.Elems {
 				n := newNode(ElemNumVal{
 					Base:   v.Base,
 					Status: StatSeries,
 					Elems:  []string{s},
 				})
-				entrypoints = append(entrypoints, n)
-				endpoints = append(endpoints, n)
+				if prev == nil {
+					entrypoints = append(entrypoints, n)
+				} else {
+					prev.Nexts = append(prev.Nexts, n)
+				}
+				prev = n
 			}
+			endpoints = append(endpoints, prev)
 		}
 		return
 
-- 
2.43.0


From 24bf576fb5736e2ec929fffd41491c4a51fec53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:01 +0000
Subject: [PATCH 15/34] fix: a num-val no character can match has no node in
 the transition graph

---
 fuzz.go             |  3 +++
 transition_graph.go |  8 +++++---
 utils.go            | 14 ++++++++++++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/fuzz.go b/fuzz.go
index e8d79ff..e72554b 100644
--- a/fuzz.go
+++ b/fuzz.go
@@ -253,6 +253,9 @@ func NewGenerator(tg *TransitionGraph, opts ...GenOption) (*Generator, error) {
 			g.entries = append(g.entries, e)
 		}
 	}
+	if len(g.entries) == 0 {
+		return nil, fmt.Errorf("rule %q admits no production", tg.rulename)
+	}
 	return g, nil
 }
 
diff --git a/transition_graph.go b/transition_graph.go
index 56eba46..1630eed 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -1339,6 +1339,10 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 		return
 
 	case ElemNumVal:
+		// A num-val no character can match contributes no node, deflated or not.
+		if !numvalMatchable(v) {
+			return
+		}
 		if !m.options.deflateNumVals {
 			if err := m.reserve(1); err != nil {
 				return nil, nil, err
@@ -1353,9 +1357,7 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 			min, max := numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base)
 			// One node is enumerated per rune; clamp to the Unicode range so an
 			// out-of-range bound cannot overflow the count (int32) and bypass the
-			// node budget, which would turn this loop into a DoS. A range wholly
-			// above U+10FFFF contributes no node (it matches nothing), and so do
-			// surrogates.
+			// node budget, which would turn this loop into a DoS.
 			count := scalarCount(min, max)
 			if err := m.reserve(int(count)); err != nil {
 				return nil, nil, err
diff --git a/utils.go b/utils.go
index e51f25a..92a6719 100644
--- a/utils.go
+++ b/utils.go
@@ -112,6 +112,20 @@ func scalarAt(min rune, i int32) rune {
 	return r
 }
 
+// numvalMatchable reports whether some input matches the num-val, i.e. whether
+// it denotes at least one Unicode scalar value (range) or only such (series).
+func numvalMatchable(v ElemNumVal) bool {
+	if v.Status == StatRange {
+		return scalarCount(numvalToRune(v.Elems[0], v.Base), numvalToRune(v.Elems[1], v.Base)) > 0
+	}
+	for _, e := range v.Elems {
+		if !utf8.ValidRune(numvalToRune(e, v.Base)) {
+			return false
+		}
+	}
+	return true
+}
+
 // The surrogate range is not made of characters: UTF-8 can't encode it.
 const (
 	surrogateMin = 0xD800
-- 
2.43.0


From d11adbb6ccec19c2d3ebc56074ed24f541046011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:48 +0000
Subject: [PATCH 16/34] fix: ASTGenerator never picks an alternative nothing
 can be emitted for

---
 ast.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/ast.go b/ast.go
index 53a952e..528285d 100644
--- a/ast.go
+++ b/ast.go
@@ -190,7 +190,7 @@ func (ag *ASTGenerator) over(out *[]byte, depth int) bool {
 }
 
 func (ag *ASTGenerator) genAlt(src source, out *[]byte, alt Alternation, depth int) {
-	cs := alt.Concatenations
+	cs := ag.productive(alt.Concatenations)
 	if len(cs) == 0 {
 		return
 	}
@@ -203,6 +203,24 @@ func (ag *ASTGenerator) genAlt(src source, out *[]byte, alt Alternation, depth i
 	ag.genConcat(src, out, cs[idx], depth)
 }
 
+// productive filters out the concatenations no production can come from, e.g.
+// one with a prose-val or with a num-val that matches no character.
+func (ag *ASTGenerator) productive(cs []Concatenation) []Concatenation {
+	for i, c := range cs {
+		if ag.costConcat(c) < astUnbounded {
+			continue
+		}
+		out := append([]Concatenation(nil), cs[:i]...)
+		for _, c := range cs[i+1:] {
+			if ag.costConcat(c) < astUnbounded {
+				out = append(out, c)
+			}
+		}
+		return out
+	}
+	return cs
+}
+
 func (ag *ASTGenerator) genConcat(src source, out *[]byte, concat Concatenation, depth int) {
 	for _, rep := range concat.Repetitions {
 		ag.genRep(src, out, rep, depth)
@@ -212,11 +230,11 @@ func (ag *ASTGenerator) genConcat(src source, out *[]byte, concat Concatenation,
 func (ag *ASTGenerator) genRep(src source, out *[]byte, rep Repetition, depth int) {
 	lo := rep.Min
 	hi := rep.Max
-	if hi == inf || hi < lo { // unbounded: cap the optional unrolling
+	if hi == inf { // unbounded: cap the optional unrolling
 		hi = lo + ag.maxRepeat
 	}
 	n := lo
-	if !ag.over(out, depth) && hi > lo {
+	if !ag.over(out, depth) && hi > lo && ag.costElem(rep.Element) < astUnbounded {
 		n = lo + src.intn(hi-lo+1)
 	}
 	for i := 0; i < n; i++ {
@@ -239,7 +257,7 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 		ag.genAlt(src, out, e.Alternation, depth)
 
 	case ElemOption:
-		if !ag.over(out, depth) && src.intn(2) == 1 {
+		if !ag.over(out, depth) && ag.costAlt(e.Alternation) < astUnbounded && src.intn(2) == 1 {
 			ag.genAlt(src, out, e.Alternation, depth)
 		}
 
@@ -272,8 +290,6 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 			*out = append(*out, []byte(string(scalarAt(min, int32(src.intn(int(span))))))...)
 		}
 
-	case ElemProseVal:
-		// prose-val is informal text; nothing mechanical to emit.
 	}
 }
 
@@ -307,6 +323,9 @@ func (ag *ASTGenerator) costAlt(alt Alternation) int {
 func (ag *ASTGenerator) costConcat(concat Concatenation) int {
 	total := 0
 	for _, rep := range concat.Repetitions {
+		if rep.Max != inf && rep.Max < rep.Min {
+			return astUnbounded // no number of repetitions satisfies it
+		}
 		total = addClamp(total, mulClamp(rep.Min, ag.costElem(rep.Element)))
 	}
 	return total
@@ -334,6 +353,9 @@ func (ag *ASTGenerator) costElem(elem ElemItf) int {
 	case ElemCharVal:
 		return len(string(e.Values))
 	case ElemNumVal:
+		if !numvalMatchable(e) {
+			return astUnbounded // no character to emit
+		}
 		switch e.Status {
 		case StatSeries:
 			n := 0
@@ -345,7 +367,7 @@ func (ag *ASTGenerator) costElem(elem ElemItf) int {
 			return len(string(numvalToRune(e.Elems[0], e.Base)))
 		}
 	case ElemProseVal:
-		return 0
+		return astUnbounded // informal text, nothing mechanical to emit
 	}
 	return 0
 }
-- 
2.43.0


From 5fd3601fe9b66e230b64a0305cb527eece0f6cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:05 +0000
Subject: [PATCH 17/34] fix: bound the expansions of an ASTGenerator walk

A rule that references itself twice and may emit nothing (a = a a / "")
doubled the walk at each of the 32 levels: Generate(nil) never returned.
---
 ast.go | 121 +++++++++++++++++++++++++++++++++------------------------
 1 file changed, 70 insertions(+), 51 deletions(-)

diff --git a/ast.go b/ast.go
index 528285d..26a8de5 100644
--- a/ast.go
+++ b/ast.go
@@ -91,35 +91,7 @@ func NewASTGenerator(g *Grammar, rule string, opts ...ASTGenOption) (*ASTGenerat
 		o.apply(ag)
 	}
 
-	// Least-fixpoint of minimum expansion cost over every rule reachable in
-	// principle -- user rules and the built-in core rules (ALPHA, DIGIT, ...),
-	// which GetRule resolves as a fallback but which are absent from Rulemap.
-	// Keyed by canonical rule name (GetRule is case-insensitive and honors user
-	// overrides of core rules). A rule stuck at the sentinel is non-productive.
-	effective := map[string]*Rule{}
-	for n := range g.Rulemap {
-		if r := GetRule(n, g.Rulemap); r != nil {
-			effective[r.Name] = r
-		}
-	}
-	for n := range coreRules {
-		if r := GetRule(n, g.Rulemap); r != nil {
-			effective[r.Name] = r
-		}
-	}
-	ag.minCost = make(map[string]int, len(effective))
-	for name := range effective {
-		ag.minCost[name] = astUnbounded
-	}
-	for changed := true; changed; {
-		changed = false
-		for name, r := range effective {
-			if c := ag.costAlt(r.Alternation); c < ag.minCost[name] {
-				ag.minCost[name] = c
-				changed = true
-			}
-		}
-	}
+	ag.computeMinCost()
 
 	// Every rule reachable from start must be defined and productive.
 	seen := map[string]bool{start.Name: true}
@@ -165,6 +137,41 @@ func NewASTGenerator(g *Grammar, rule string, opts ...ASTGenOption) (*ASTGenerat
 	return ag, nil
 }
 
+// computeMinCost computes the minimum expansion cost of every rule.
+func (ag *ASTGenerator) computeMinCost() {
+	g := ag.g
+
+	// Least-fixpoint of minimum expansion cost over every rule reachable in
+	// principle -- user rules and the built-in core rules (ALPHA, DIGIT, ...),
+	// which GetRule resolves as a fallback but which are absent from Rulemap.
+	// Keyed by canonical rule name (GetRule is case-insensitive and honors user
+	// overrides of core rules). A rule stuck at the sentinel is non-productive.
+	effective := map[string]*Rule{}
+	for n := range g.Rulemap {
+		if r := GetRule(n, g.Rulemap); r != nil {
+			effective[r.Name] = r
+		}
+	}
+	for n := range coreRules {
+		if r := GetRule(n, g.Rulemap); r != nil {
+			effective[r.Name] = r
+		}
+	}
+	ag.minCost = make(map[string]int, len(effective))
+	for name := range effective {
+		ag.minCost[name] = astUnbounded
+	}
+	for changed := true; changed; {
+		changed = false
+		for name, r := range effective {
+			if c := ag.costAlt(r.Alternation); c < ag.minCost[name] {
+				ag.minCost[name] = c
+				changed = true
+			}
+		}
+	}
+}
+
 // Generate maps the tape to a production the grammar admits. Total and
 // deterministic: any tape (including nil) yields a valid production; an
 // exhausted tape biases toward the shortest one.
@@ -177,30 +184,42 @@ func (ag *ASTGenerator) GenerateRand(r *rand.Rand) []byte {
 	return ag.walk(randSource{r: r})
 }
 
+// astMaxExpansions bounds the expansions of a walk before it steers toward the
+// nearest terminal string. The depth alone does not: a rule that references
+// itself twice and may emit nothing doubles the walk at each level.
+const astMaxExpansions = 1 << 14
+
+// astWalk is the state of a generation.
+type astWalk struct {
+	out        []byte
+	expansions int
+}
+
 func (ag *ASTGenerator) walk(src source) []byte {
-	out := []byte{}
-	ag.genAlt(src, &out, ag.start.Alternation, 0)
-	return out
+	w := &astWalk{out: []byte{}}
+	ag.genAlt(src, w, ag.start.Alternation, 0)
+	return w.out
 }
 
 // over reports whether we should stop taking expansions for their own sake and
 // steer toward the nearest terminal string.
-func (ag *ASTGenerator) over(out *[]byte, depth int) bool {
-	return depth >= ag.maxDepth || len(*out) >= ag.maxLen
+func (ag *ASTGenerator) over(w *astWalk, depth int) bool {
+	return depth >= ag.maxDepth || len(w.out) >= ag.maxLen || w.expansions >= astMaxExpansions
 }
 
-func (ag *ASTGenerator) genAlt(src source, out *[]byte, alt Alternation, depth int) {
+func (ag *ASTGenerator) genAlt(src source, w *astWalk, alt Alternation, depth int) {
 	cs := ag.productive(alt.Concatenations)
 	if len(cs) == 0 {
 		return
 	}
+	w.expansions++
 	idx := 0
-	if ag.over(out, depth) {
+	if ag.over(w, depth) {
 		idx = ag.cheapestConcat(cs) // steer: pick the cheapest-to-finish branch
 	} else if len(cs) > 1 {
 		idx = src.intn(len(cs))
 	}
-	ag.genConcat(src, out, cs[idx], depth)
+	ag.genConcat(src, w, cs[idx], depth)
 }
 
 // productive filters out the concatenations no production can come from, e.g.
@@ -221,44 +240,44 @@ func (ag *ASTGenerator) productive(cs []Concatenation) []Concatenation {
 	return cs
 }
 
-func (ag *ASTGenerator) genConcat(src source, out *[]byte, concat Concatenation, depth int) {
+func (ag *ASTGenerator) genConcat(src source, w *astWalk, concat Concatenation, depth int) {
 	for _, rep := range concat.Repetitions {
-		ag.genRep(src, out, rep, depth)
+		ag.genRep(src, w, rep, depth)
 	}
 }
 
-func (ag *ASTGenerator) genRep(src source, out *[]byte, rep Repetition, depth int) {
+func (ag *ASTGenerator) genRep(src source, w *astWalk, rep Repetition, depth int) {
 	lo := rep.Min
 	hi := rep.Max
 	if hi == inf { // unbounded: cap the optional unrolling
 		hi = lo + ag.maxRepeat
 	}
 	n := lo
-	if !ag.over(out, depth) && hi > lo && ag.costElem(rep.Element) < astUnbounded {
+	if !ag.over(w, depth) && hi > lo && ag.costElem(rep.Element) < astUnbounded {
 		n = lo + src.intn(hi-lo+1)
 	}
 	for i := 0; i < n; i++ {
-		ag.genElem(src, out, rep.Element, depth)
+		ag.genElem(src, w, rep.Element, depth)
 		// Stop optional extras once over length, but always emit the mandatory lo.
-		if i+1 >= lo && len(*out) >= ag.maxLen {
+		if i+1 >= lo && (len(w.out) >= ag.maxLen || w.expansions >= astMaxExpansions) {
 			break
 		}
 	}
 }
 
-func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int) {
+func (ag *ASTGenerator) genElem(src source, w *astWalk, elem ElemItf, depth int) {
 	switch e := elem.(type) {
 	case ElemRulename:
 		// Guaranteed defined+productive by NewASTGenerator.
 		r := GetRule(e.Name, ag.g.Rulemap)
-		ag.genAlt(src, out, r.Alternation, depth+1)
+		ag.genAlt(src, w, r.Alternation, depth+1)
 
 	case ElemGroup:
-		ag.genAlt(src, out, e.Alternation, depth)
+		ag.genAlt(src, w, e.Alternation, depth)
 
 	case ElemOption:
-		if !ag.over(out, depth) && ag.costAlt(e.Alternation) < astUnbounded && src.intn(2) == 1 {
-			ag.genAlt(src, out, e.Alternation, depth)
+		if !ag.over(w, depth) && ag.costAlt(e.Alternation) < astUnbounded && src.intn(2) == 1 {
+			ag.genAlt(src, w, e.Alternation, depth)
 		}
 
 	case ElemCharVal:
@@ -266,7 +285,7 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 			if !e.Sensitive && isASCIILetter(r) && src.intn(2) == 1 {
 				r = flipASCIICase(r)
 			}
-			*out = append(*out, []byte(string(r))...)
+			w.out = append(w.out, []byte(string(r))...)
 		}
 
 	case ElemNumVal:
@@ -277,7 +296,7 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 				// Emit only real characters; an out-of-range value cannot appear
 				// in UTF-8 input, so the series would never match anyway.
 				if utf8.ValidRune(r) {
-					*out = append(*out, []byte(string(r))...)
+					w.out = append(w.out, []byte(string(r))...)
 				}
 			}
 		case StatRange:
@@ -287,7 +306,7 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 			if span == 0 {
 				break // nothing representable to emit
 			}
-			*out = append(*out, []byte(string(scalarAt(min, int32(src.intn(int(span))))))...)
+			w.out = append(w.out, []byte(string(scalarAt(min, int32(src.intn(int(span))))))...)
 		}
 
 	}
-- 
2.43.0


From 5638a5e88f7b7453c4e24b8a8c76f4cab88837e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:05 +0000
Subject: [PATCH 18/34] fix: Generate only emits what the rule admits, and
 finishes

Alternatives with a prose-val, an undefined rule or a num-val that matches no
character were picked, 17*"x" divided by zero, and recursive grammars could
expand forever.
---
 generate.go | 61 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/generate.go b/generate.go
index 3e93934..3129ea3 100644
--- a/generate.go
+++ b/generate.go
@@ -19,8 +19,18 @@ import (
 // It is a good capability for testing and fuzzing parsers during
 // testing, compliance, fuzzing or optimization.
 func (g *Grammar) Generate(seed int64, rulename string, opts ...GenerateOption) ([]byte, error) {
-	if err := checkCanGenerateSafely(g, rulename); err != nil {
-		return nil, err
+	rule := GetRule(rulename, g.Rulemap)
+	if rule == nil {
+		return nil, &ErrRuleNotFound{Rulename: rulename}
+	}
+	// The minimum expansion costs tell what can be generated, and how to finish.
+	costs := &ASTGenerator{g: g}
+	costs.computeMinCost()
+	if costs.costAlt(rule.Alternation) >= astUnbounded {
+		if err := checkCanGenerateSafely(g, rulename); err != nil {
+			return nil, err
+		}
+		return nil, &ErrCyclicRule{Rulename: rulename}
 	}
 
 	// Use a pseudo-random number generator
@@ -36,36 +46,58 @@ func (g *Grammar) Generate(seed int64, rulename string, opts ...GenerateOption)
 	}
 
 	// Generate actual content (rule exists, checked first)
-	rule := GetRule(rulename, g.Rulemap)
 	out := []byte{}
-	generateAlt(rand, g, &out, rule.Alternation, options)
+	generateAlt(rand, g, &out, rule.Alternation, options, costs, 0)
 	return out, nil
 }
 
-func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, options *genOpts) {
+const (
+	// generateMaxDepth and generateMaxExpansions bound how far a recursive
+	// grammar is freely expanded: past them, only what is needed to finish is.
+	generateMaxDepth      = 1 << 10
+	generateMaxExpansions = 1 << 14
+)
+
+func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, options *genOpts, costs *ASTGenerator, depth int) {
+	options.expansions++
+	finish := depth >= generateMaxDepth || options.expansions >= generateMaxExpansions
+
 	// Select any possible path in the alternation
-	cnt := alt.Concatenations[int(rand.Int63())%len(alt.Concatenations)]
+	concats := costs.productive(alt.Concatenations)
+	if len(concats) == 0 {
+		return
+	}
+	cnt := concats[int(rand.Int63()%int64(len(concats)))]
+	if finish {
+		cnt = concats[costs.cheapestConcat(concats)]
+	}
 
 	// Travel through all the repetitions
 	for _, rep := range cnt.Repetitions {
 		repmax := rep.Max
 		if repmax == inf {
-			repmax = options.repMax
+			repmax = max(options.repMax, rep.Min)
+		}
+		torep := rep.Min + int(rand.Int63()%int64(repmax-rep.Min+1))
+		if finish || costs.costElem(rep.Element) >= astUnbounded {
+			torep = rep.Min
 		}
-		torep := rep.Min + int(rand.Int63())%(repmax-rep.Min+1)
 		for i := 0; generateKeepGoing(i, torep, rep.Min, len(*out), options.threshold); i++ {
+			if i >= rep.Min && options.expansions >= generateMaxExpansions {
+				break
+			}
 			switch elem := rep.Element.(type) {
 			case ElemRulename:
 				rule := GetRule(elem.Name, g.Rulemap)
-				generateAlt(rand, g, out, rule.Alternation, options)
+				generateAlt(rand, g, out, rule.Alternation, options, costs, depth+1)
 
 			case ElemOption:
-				if (rand.Int63() % 2) == 0 {
-					generateAlt(rand, g, out, elem.Alternation, options)
+				if (rand.Int63()%2) == 0 && !finish && costs.costAlt(elem.Alternation) < astUnbounded {
+					generateAlt(rand, g, out, elem.Alternation, options, costs, depth+1)
 				}
 
 			case ElemGroup:
-				generateAlt(rand, g, out, elem.Alternation, options)
+				generateAlt(rand, g, out, elem.Alternation, options, costs, depth+1)
 
 			case ElemNumVal:
 				switch elem.Status {
@@ -126,6 +158,8 @@ type GenerateOption interface {
 type genOpts struct {
 	repMax    int
 	threshold int
+
+	expansions int // so far
 }
 
 type repMaxOption int
@@ -217,6 +251,9 @@ func checkCanGenerateSafelyConcat(g *Grammar, knownRules map[string]struct{}, co
 				}
 			}
 			rule := GetRule(elem.Name, g.Rulemap)
+			if rule == nil {
+				return &ErrRuleNotFound{Rulename: elem.Name}
+			}
 			scopeRules[elem.Name] = struct{}{}
 			if err := checkCanGenerateSafelyAlt(g, scopeRules, rule.Alternation); err != nil {
 				if err, ok := err.(*ErrCyclicRule); ok {
-- 
2.43.0


From a6cc09cbe2ca6ed84cb2cc8a3c27e3fd4f9c2407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:50 +0000
Subject: [PATCH 19/34] fix: ExpectedNext names exactly the octets that can
 follow

A multi-byte num-val range was approximated by independent octet sets, wider
ranges were declined, and alternatives that cannot be completed counted.
---
 fuzz.go | 75 +++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 51 insertions(+), 24 deletions(-)

diff --git a/fuzz.go b/fuzz.go
index e72554b..46dbf9e 100644
--- a/fuzz.go
+++ b/fuzz.go
@@ -1,6 +1,7 @@
 package goabnf
 
 import (
+	"bytes"
 	"fmt"
 	"math/rand"
 	"unicode/utf8"
@@ -560,16 +561,11 @@ func (s octetSet) bytes() []byte {
 
 // emission is one fixed-length alternative of a node's output: pos[j] is the set
 // of octets the node may emit at byte offset j. A node usually has exactly one
-// emission; a num-val range that spans several UTF-8 lengths has one per length.
+// emission; a multi-byte num-val range has one per sequence of octet ranges.
 type emission struct {
 	pos []octetSet
 }
 
-// expectedNextRangeCap bounds how many runes a multi-byte num-val range is
-// expanded into for analysis; beyond it ExpectedNext reports ok=false rather
-// than doing unbounded work. ASCII ranges are always handled (<=128 octets).
-const expectedNextRangeCap = 1 << 16
-
 func (g *Generator) emissions(n *Node) ([]emission, bool) {
 	id := tgNodeID(n)
 	if g.emitCache == nil {
@@ -648,24 +644,20 @@ func nodeEmissions(n *Node) ([]emission, bool) {
 				}
 				return []emission{{pos: []octetSet{s}}}, true
 			}
-			if max-min+1 > expectedNextRangeCap {
-				return nil, false
-			}
-			byLen := map[int]*emission{}
-			for r := min; r <= max; r++ {
-				bs := []byte(string(rune(r)))
-				e := byLen[len(bs)]
-				if e == nil {
-					e = &emission{pos: make([]octetSet, len(bs))}
-					byLen[len(bs)] = e
+			// Positions are independent octet sets, so a multi-byte range is split
+			// into the sequences of octet ranges that encode exactly its values.
+			var out []emission
+			for _, c := range [...][2]int32{{0, 0x7f}, {0x80, 0x7ff}, {0x800, 0xd7ff}, {0xe000, 0xffff}, {0x10000, utf8.MaxRune}} {
+				lo, hi := min, max
+				if lo < c[0] {
+					lo = c[0]
 				}
-				for j, b := range bs {
-					e.pos[j].add(b)
+				if hi > c[1] {
+					hi = c[1]
+				}
+				if lo <= hi {
+					out = utf8Emissions(out, nil, []byte(string(lo)), []byte(string(hi)))
 				}
-			}
-			out := make([]emission, 0, len(byLen))
-			for _, e := range byLen {
-				out = append(out, *e)
 			}
 			return out, true
 		}
@@ -673,10 +665,42 @@ func nodeEmissions(n *Node) ([]emission, bool) {
 	return nil, false
 }
 
+// utf8Emissions appends the emissions for the encodings between lo and hi, of
+// equal length, each preceded by the octet sets of prefix.
+func utf8Emissions(out []emission, prefix []octetSet, lo, hi []byte) []emission {
+	with := func(from, to byte) []octetSet {
+		var s octetSet
+		for b := int(from); b <= int(to); b++ {
+			s.add(byte(b))
+		}
+		return append(append([]octetSet(nil), prefix...), s)
+	}
+	if len(lo) == 1 {
+		return append(out, emission{pos: with(lo[0], hi[0])})
+	}
+	if lo[0] == hi[0] {
+		return utf8Emissions(out, with(lo[0], lo[0]), lo[1:], hi[1:])
+	}
+	least, most := bytes.Repeat([]byte{0x80}, len(lo)-1), bytes.Repeat([]byte{0xbf}, len(lo)-1)
+	first, last := int(lo[0]), int(hi[0])
+	if !bytes.Equal(lo[1:], least) {
+		out = utf8Emissions(out, with(lo[0], lo[0]), lo[1:], most)
+		first++
+	}
+	if !bytes.Equal(hi[1:], most) {
+		out = utf8Emissions(out, with(hi[0], hi[0]), least, hi[1:])
+		last--
+	}
+	if first <= last {
+		out = utf8Emissions(out, with(byte(first), byte(last)), least, most)
+	}
+	return out
+}
+
 // ExpectedNext simulates the automaton over prefix and reports the octets that
 // may legally follow it, whether prefix is itself a complete word, and whether
 // the analysis succeeded (ok is false only when the graph uses a feature this
-// analyzer declines to expand, e.g. an enormous multi-byte num-val range). When
+// analyzer declines to expand). When
 // prefix is not a viable prefix of any word, next is empty and accepts is false.
 func (g *Generator) ExpectedNext(prefix []byte) (next []byte, accepts bool, ok bool) {
 	type state struct {
@@ -692,6 +716,9 @@ func (g *Generator) ExpectedNext(prefix []byte) (next []byte, accepts bool, ok b
 		}
 	}
 	start := func(n *Node) bool {
+		if !g.canReach[tgNodeID(n)] {
+			return true // no word goes through n
+		}
 		ems, o := g.emissions(n)
 		if !o {
 			return false
@@ -735,7 +762,7 @@ func (g *Generator) ExpectedNext(prefix []byte) (next []byte, accepts bool, ok b
 					lastCompletedEndpoint = true
 				}
 				for _, m := range s.n.Nexts {
-					if m == emptyNode {
+					if m == emptyNode || !g.canReach[tgNodeID(m)] {
 						continue
 					}
 					ems2, o := g.emissions(m)
-- 
2.43.0


From 5cfffcb581941df7d692e0c29df8ac53e1fb1b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:01 +0000
Subject: [PATCH 20/34] fix: Generator.ExpectedNext does not modify the
 Generator

The emissions were cached on first use, so concurrent calls raced on the maps.
---
 fuzz.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/fuzz.go b/fuzz.go
index 46dbf9e..50ff9dd 100644
--- a/fuzz.go
+++ b/fuzz.go
@@ -124,7 +124,7 @@ type Generator struct {
 	distToEnd map[string]int  // node ID -> fewest steps to an endpoint
 	entries   []*Node         // entrypoints that can reach an endpoint
 
-	emitCache map[string][]emission // node ID -> octet emissions (lazy, for ExpectedNext)
+	emitCache map[string][]emission // node ID -> octet emissions (for ExpectedNext)
 	emitOK    map[string]bool       // node ID -> emissions analyzable
 }
 
@@ -221,6 +221,14 @@ func NewGenerator(tg *TransitionGraph, opts ...GenOption) (*Generator, error) {
 		}
 	}
 
+	// Analyze the nodes now rather than on first use, so that a Generator is not
+	// modified once built and can be shared.
+	g.emitCache = make(map[string][]emission, len(nodes))
+	g.emitOK = make(map[string]bool, len(nodes))
+	for id, n := range nodes {
+		g.emitCache[id], g.emitOK[id] = nodeEmissions(n)
+	}
+
 	// endSet, then backward BFS from endpoints for canReach + distToEnd.
 	g.endSet = map[string]bool{}
 	g.canReach = map[string]bool{}
@@ -568,17 +576,7 @@ type emission struct {
 
 func (g *Generator) emissions(n *Node) ([]emission, bool) {
 	id := tgNodeID(n)
-	if g.emitCache == nil {
-		g.emitCache = map[string][]emission{}
-		g.emitOK = map[string]bool{}
-	}
-	if e, seen := g.emitCache[id]; seen {
-		return e, g.emitOK[id]
-	}
-	e, ok := nodeEmissions(n)
-	g.emitCache[id] = e
-	g.emitOK[id] = ok
-	return e, ok
+	return g.emitCache[id], g.emitOK[id]
 }
 
 func nodeEmissions(n *Node) ([]emission, bool) {
-- 
2.43.0


From d6e5248737240a152e5b9b00a4b00dfaa72f37fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:49 +0000
Subject: [PATCH 21/34] fix: a concatenation with a part nothing matches has no
 endpoint

Its endpoints were not reachable, and cloning the graph turned them into the
empty node, so the empty word was accepted.
---
 transition_graph.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transition_graph.go b/transition_graph.go
index 1630eed..037b241 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -985,6 +985,11 @@ func (m *tgmachine) concatGraph(concat Concatenation) (entrypoints []*Node, endp
 }
 
 func concatTransitionGraphs(prevI, prevO, currI, currO []*Node) (entrypoints []*Node, endpoints []*Node) {
+	// Nothing goes through a part that cannot be entered.
+	if len(prevI) == 0 || len(currI) == 0 {
+		return nil, nil
+	}
+
 	// If prevI contains the emptyNode it means currI (possibly with
 	// the emptyNode) is also part of the entrypoints (without prevI's
 	// emptyNode).
-- 
2.43.0


From 94902404ce846675438f00345ce06d05dc22b8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:33 +0000
Subject: [PATCH 22/34] fix: Regex refuses a rule that references an undefined
 one

The reference was taken for the empty string.
---
 regex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/regex.go b/regex.go
index b3d49b2..7f0cf80 100644
--- a/regex.go
+++ b/regex.go
@@ -134,7 +134,10 @@ func (b *reBuilder) rule(name string) reNode {
 	}
 	r := GetRule(name, b.g.Rulemap)
 	if r == nil {
-		return reEmptyV
+		if b.err == nil {
+			b.err = &ErrRuleNotFound{Rulename: name}
+		}
+		return reNeverV
 	}
 	n := b.alt(r.Alternation)
 	b.memo[key] = n
-- 
2.43.0


From cfa7d82a305122062dfa5b6796747cbdd0357ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:43 +0000
Subject: [PATCH 23/34] fix: Regex of a lone surrogate matches nothing

It was rendered as U+FFFD, which it then matched.
---
 regex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regex.go b/regex.go
index 7f0cf80..cd06adc 100644
--- a/regex.go
+++ b/regex.go
@@ -177,7 +177,7 @@ func (b *reBuilder) elem(e ElemItf) reNode {
 				// ceiling is clamped to its representable subset; one wholly above it
 				// matches nothing -- mirroring the recognizer.
 				numvalToRune(v.Elems[1], v.Base), utf8.MaxRune)
-			if lo > utf8.MaxRune || lo > hi {
+			if scalarCount(lo, hi) == 0 {
 				return reNeverV
 			}
 			return &reClass{ranges: []reRange{{lo, hi}}}
-- 
2.43.0


From 8ad342ab830f1c3357ae212090624bd6d0714675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:28 +0000
Subject: [PATCH 24/34] fix: recording a known BSR element never exceeds the
 budget

A budget that is just enough failed or not depending on map iteration order.
---
 bsr.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bsr.go b/bsr.go
index 8141d96..0eda9f8 100644
--- a/bsr.go
+++ b/bsr.go
@@ -96,11 +96,12 @@ func (p *bsrParser) gssNodeFor(ret slot, pos, rc int) *bsrGNode {
 func (p *bsrParser) record(L slot, l, k, r, rc int) {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	if L.dot >= 2 || L.dot == len(prod) {
-		if p.maxElems > 0 && len(p.set) >= p.maxElems {
+		e := bsrElem{L, l, k, r, rc}
+		if p.maxElems > 0 && len(p.set) >= p.maxElems && !p.set[e] {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r, rc}] = true
+		p.set[e] = true
 	}
 }
 
-- 
2.43.0


From 4925ea2d6f778339fe8315654a13fa821f695bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:37 +0000
Subject: [PATCH 25/34] fix: a generated parser never returns a truncated
 result

The budget was not checked after the last step, and recording a known element
exceeded it.
---
 codegen.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codegen.go b/codegen.go
index 1cb4f40..a8fc414 100644
--- a/codegen.go
+++ b/codegen.go
@@ -566,11 +566,12 @@ func (p *parser) gssNodeFor(ret, pos, rc int) *gnode {
 func (p *parser) record(L, l, k, r, rc int) {
 	si := slotInfo[L]
 	if si.dot >= 2 || si.dot == si.plen {
-		if MaxElements > 0 && len(p.set) >= MaxElements {
+		e := bsrElem{L, l, k, r, rc}
+		if MaxElements > 0 && len(p.set) >= MaxElements && !p.set[e] {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r, rc}] = true
+		p.set[e] = true
 	}
 }
 
@@ -904,6 +905,9 @@ func Parse(input []byte) (*Result, error) {
 		p.work = p.work[:len(p.work)-1]
 		p.process(d)
 	}
+	if p.aborted {
+		return nil, ErrTooLarge
+	}
 	return &Result{input: input, set: p.set, n: len(input)}, nil
 }
 `
-- 
2.43.0


From 9d99b45f497a8d4bbc47ca5e3d587a300e0d1302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:20 +0000
Subject: [PATCH 26/34] fix: WithMaxRegexLen bounds the simplification too

Flattening a diamond-shaped grammar took exponential memory before the length
was looked at.
---
 regex.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/regex.go b/regex.go
index cd06adc..2dfacf3 100644
--- a/regex.go
+++ b/regex.go
@@ -42,7 +42,7 @@ func (g *Grammar) Regex(rulename string, opts ...RegexOption) (string, error) {
 	if b.err != nil {
 		return "", b.err
 	}
-	node = simplify(node, map[reNode]reNode{})
+	node = simplify(node, map[reNode]reNode{}, o.maxLen)
 
 	r := &reRenderer{max: o.maxLen}
 	var sb strings.Builder
@@ -228,7 +228,12 @@ func charClass(c rune, sensitive bool) reNode {
 
 // ---- simplification (pointer-memoised => linear over the DAG) ----
 
-func simplify(n reNode, memo map[reNode]reNode) reNode {
+// Nested nodes are not flattened beyond max (if positive) parts, each of which
+// renders as a byte at least: the output is too large then, and the parts of a
+// diamond-shaped grammar are exponentially many.
+func simplify(n reNode, memo map[reNode]reNode, max int) reNode {
+	fits := func(n int) bool { return max <= 0 || n <= max }
+
 	if n == nil {
 		return reEmptyV
 	}
@@ -247,12 +252,16 @@ func simplify(n reNode, memo map[reNode]reNode) reNode {
 		parts := make([]reNode, 0, len(v.parts))
 		never := false
 		for _, p := range v.parts {
-			sp := simplify(p, memo)
+			sp := simplify(p, memo, max)
 			switch x := sp.(type) {
 			case *reEmpty: // drop: empty in a concatenation contributes nothing
 			case *reNever: // one un-matchable part makes the whole sequence un-matchable
 				never = true
 			case *reConcat:
+				if !fits(len(parts) + len(x.parts)) {
+					parts = append(parts, sp)
+					continue
+				}
 				parts = append(parts, x.parts...) // flatten
 			default:
 				parts = append(parts, sp)
@@ -270,12 +279,14 @@ func simplify(n reNode, memo map[reNode]reNode) reNode {
 		}
 	case *reAlt:
 		opts := make([]reNode, 0, len(v.opts))
+		nonclass := 0 // at least that many options remain once classes are merged
 		for _, o := range v.opts {
-			so := simplify(o, memo)
+			so := simplify(o, memo, max)
 			if isNever(so) { // a never-matching branch is dead; drop it
 				continue
 			}
-			if x, ok := so.(*reAlt); ok {
+			if x, ok := so.(*reAlt); ok && fits(nonclass+len(x.opts)-1) {
+				nonclass += len(x.opts) - 1
 				opts = append(opts, x.opts...) // flatten
 			} else {
 				opts = append(opts, so)
@@ -309,7 +320,7 @@ func simplify(n reNode, memo map[reNode]reNode) reNode {
 			res = &reAlt{opts: merged}
 		}
 	case *reRepeat:
-		sub := simplify(v.sub, memo)
+		sub := simplify(v.sub, memo, max)
 		switch {
 		case isNever(sub):
 			// Zero occurrences are allowed iff min == 0 (then it matches empty);
-- 
2.43.0


From e58255e05377dcec7f8586164aefa221454f3878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:39 +0000
Subject: [PATCH 27/34] fix: Generate refuses a rule in polynomial time

The search for an unavoidable cycle visited the same rules once per path.
---
 generate.go | 108 ----------------------------------------------------
 1 file changed, 108 deletions(-)

diff --git a/generate.go b/generate.go
index 3129ea3..fc86445 100644
--- a/generate.go
+++ b/generate.go
@@ -1,10 +1,7 @@
 package goabnf
 
 import (
-	"errors"
-	"maps"
 	"math/rand"
-	"strings"
 	"unicode/utf8"
 )
 
@@ -27,9 +24,6 @@ func (g *Grammar) Generate(seed int64, rulename string, opts ...GenerateOption)
 	costs := &ASTGenerator{g: g}
 	costs.computeMinCost()
 	if costs.costAlt(rule.Alternation) >= astUnbounded {
-		if err := checkCanGenerateSafely(g, rulename); err != nil {
-			return nil, err
-		}
 		return nil, &ErrCyclicRule{Rulename: rulename}
 	}
 
@@ -183,105 +177,3 @@ func WithThreshold(threshold int) thresholdOption {
 func (opt thresholdOption) apply(opts *genOpts) {
 	opts.threshold = int(opt)
 }
-
-// checkCanGenerateSafely returns no error if the rule can be generated
-// safely i.e. if the rule can exist without infinite recursion, AND if it
-// does not contain a prose-val as it could not generate from it.
-// Factually, it checks if all involved rules have no path v such that it
-// produces a cycle (v:rule-*->rule) AND that this path is mandatory
-// (no option, no repetition with a minimum of zero).
-func checkCanGenerateSafely(g *Grammar, rulename string) error {
-	rule := GetRule(rulename, g.Rulemap)
-	if rule == nil {
-		return &ErrRuleNotFound{
-			Rulename: rulename,
-		}
-	}
-	knownRules := map[string]struct{}{
-		rulename: {},
-	}
-	if err := checkCanGenerateSafelyAlt(g, knownRules, rule.Alternation); err != nil {
-		if err, ok := err.(*ErrCyclicRule); ok {
-			return err
-		}
-		return &ErrCyclicRule{
-			Rulename: rulename,
-		}
-	}
-	return nil
-}
-
-func checkCanGenerateSafelyAlt(g *Grammar, knownRules map[string]struct{}, alt Alternation) error {
-	errs := make([]error, len(alt.Concatenations))
-	for alti, concat := range alt.Concatenations {
-		errs[alti] = checkCanGenerateSafelyConcat(g, knownRules, concat)
-	}
-	allErrors := true
-	for i := 0; i < len(errs) && allErrors; i++ {
-		if errs[i] == nil {
-			allErrors = false
-		}
-	}
-	if allErrors {
-		return errors.Join(errs...)
-	}
-	return nil
-}
-
-func checkCanGenerateSafelyConcat(g *Grammar, knownRules map[string]struct{}, concat Concatenation) error {
-	for _, rep := range concat.Repetitions {
-		// If the repetition is not mandatory, we can escape so can
-		// generate safely.
-		if rep.Min == 0 {
-			continue
-		}
-
-		// Deal with the repetition itself then.
-		switch elem := rep.Element.(type) {
-		case ElemRulename:
-			// Copy rules to only focus on rules that made use come here.
-			// If shared with others, the dependency graph can lead to the same rule
-			// from another path without it being a cycle, thus must be handled.
-			scopeRules := duplicateMap(knownRules)
-			for known := range scopeRules {
-				if strings.EqualFold(elem.Name, known) {
-					return &ErrCyclicRule{
-						Rulename: elem.Name,
-					}
-				}
-			}
-			rule := GetRule(elem.Name, g.Rulemap)
-			if rule == nil {
-				return &ErrRuleNotFound{Rulename: elem.Name}
-			}
-			scopeRules[elem.Name] = struct{}{}
-			if err := checkCanGenerateSafelyAlt(g, scopeRules, rule.Alternation); err != nil {
-				if err, ok := err.(*ErrCyclicRule); ok {
-					return err
-				}
-				return &ErrCyclicRule{
-					Rulename: elem.Name,
-				}
-			}
-
-		case ElemGroup:
-			if err := checkCanGenerateSafelyAlt(g, knownRules, elem.Alternation); err != nil {
-				return err
-			}
-
-		case ElemProseVal:
-			return ErrHandlingProseVal
-
-			// Other types are not considered for the following reasons:
-			// - option: equivalent to rep.min==0, escapable path even if could be cyclic
-			// - num-val, char-val: termination paths, can't be cyclic
-		}
-	}
-	return nil
-}
-
-func duplicateMap[T comparable, V any](m map[T]V) map[T]V {
-	n := make(map[T]V, len(m))
-	maps.Copy(n, m)
-	return n
-}
-- 
2.43.0


From b115db18a0bc4687d5aa1c57ccf1f21344fac397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:50 +0000
Subject: [PATCH 28/34] fix: extending a core rule copies it down to its
 elements

The copy of an extended core rule shared its repetitions and elements with the
package-wide one: editing the grammar ParseABNF returned edited the core rule.
---
 grammar.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/grammar.go b/grammar.go
index 030a764..4a0365a 100644
--- a/grammar.go
+++ b/grammar.go
@@ -188,10 +188,7 @@ func (e *feval) rulelist(t *ParseTree) (*Grammar, error) {
 					return nil, &ErrRuleNotFound{Rulename: rl.Name}
 				}
 				// Extend a copy: core rules are shared by all grammars.
-				rule = &Rule{
-					Name:        core.Name,
-					Alternation: Alternation{Concatenations: slices.Clone(core.Alternation.Concatenations)},
-				}
+				rule = &Rule{Name: core.Name, Alternation: cloneAlternation(core.Alternation)}
 			}
 			rule.Alternation.Concatenations = append(rule.Alternation.Concatenations, rl.Alternation.Concatenations...)
 			mp[rule.Name] = rule
@@ -200,6 +197,34 @@ func (e *feval) rulelist(t *ParseTree) (*Grammar, error) {
 	return &Grammar{Rulemap: mp}, nil
 }
 
+// cloneAlternation copies an alternation down to its elements, such that the
+// copy shares no memory with the original.
+func cloneAlternation(alt Alternation) Alternation {
+	concs := slices.Clone(alt.Concatenations)
+	for i, conc := range concs {
+		reps := slices.Clone(conc.Repetitions)
+		for j, rep := range reps {
+			switch v := rep.Element.(type) {
+			case ElemGroup:
+				reps[j].Element = ElemGroup{Alternation: cloneAlternation(v.Alternation)}
+			case ElemOption:
+				reps[j].Element = ElemOption{Alternation: cloneAlternation(v.Alternation)}
+			case ElemCharVal:
+				v.Values = slices.Clone(v.Values)
+				reps[j].Element = v
+			case ElemNumVal:
+				v.Elems = slices.Clone(v.Elems)
+				reps[j].Element = v
+			case ElemProseVal:
+				v.values = slices.Clone(v.values)
+				reps[j].Element = v
+			}
+		}
+		concs[i].Repetitions = reps
+	}
+	return Alternation{Concatenations: concs}
+}
+
 func (e *feval) rule(t *ParseTree) (*Rule, string, error) {
 	nameNode := ptFirst(t, "rulename")
 	defNode := ptFirst(t, "defined-as")
-- 
2.43.0


From 8c4e2f37ee76e082775a231fe162042fe241327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:48 +0000
Subject: [PATCH 29/34] fix: pap fails when its output cannot be written

The commands ignored the error of writing to stdout: on a full disk or a closed
pipe pap exited 0 with a truncated or empty result.
---
 cmd/pap/commands/generate.go         | 4 ++--
 cmd/pap/commands/regex.go            | 4 ++--
 cmd/pap/commands/transition_graph.go | 4 ++--
 cmd/pap/commands/validate.go         | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmd/pap/commands/generate.go b/cmd/pap/commands/generate.go
index ce24480..e88e34d 100644
--- a/cmd/pap/commands/generate.go
+++ b/cmd/pap/commands/generate.go
@@ -64,6 +64,6 @@ func generate(ctx *cli.Context) error {
 		return err
 	}
 
-	fmt.Printf("%s\n", out)
-	return nil
+	_, err = fmt.Printf("%s\n", out)
+	return err
 }
diff --git a/cmd/pap/commands/regex.go b/cmd/pap/commands/regex.go
index f50075a..387c5fa 100644
--- a/cmd/pap/commands/regex.go
+++ b/cmd/pap/commands/regex.go
@@ -44,6 +44,6 @@ func regex(ctx *cli.Context) error {
 		return err
 	}
 
-	fmt.Printf("%s\n", out)
-	return nil
+	_, err = fmt.Printf("%s\n", out)
+	return err
 }
diff --git a/cmd/pap/commands/transition_graph.go b/cmd/pap/commands/transition_graph.go
index 616d229..cd3e9cd 100644
--- a/cmd/pap/commands/transition_graph.go
+++ b/cmd/pap/commands/transition_graph.go
@@ -71,6 +71,6 @@ func transitionGraph(ctx *cli.Context) error {
 		return err
 	}
 
-	fmt.Printf("%s\n", tg.ToMermaid())
-	return nil
+	_, err = fmt.Printf("%s\n", tg.ToMermaid())
+	return err
 }
diff --git a/cmd/pap/commands/validate.go b/cmd/pap/commands/validate.go
index de788e8..fc1c3ea 100644
--- a/cmd/pap/commands/validate.go
+++ b/cmd/pap/commands/validate.go
@@ -42,7 +42,7 @@ func validate(ctx *cli.Context) error {
 	if err != nil {
 		return err
 	}
-	fmt.Println(g.PrettyPrint())
+	_, err = fmt.Println(g.PrettyPrint())
 
 	return err
 }
-- 
2.43.0


From 7d33c597ce6f16dde07043f9dd554abf939739cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:12 +0000
Subject: [PATCH 30/34] fix: a generated parser with a terminal nothing matches
 compiles

---
 codegen.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/codegen.go b/codegen.go
index a8fc414..3038873 100644
--- a/codegen.go
+++ b/codegen.go
@@ -208,14 +208,16 @@ func (c *codegen) emitTerminal(b *strings.Builder, sym ssym, nextID int) {
 		fmt.Fprintf(b, "\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 		return
 	}
-	c.emitMatch(b, sym) // sets j or returns on failure
+	if !c.emitMatch(b, sym) { // sets j or returns on failure
+		return // nothing matches: no code follows
+	}
 	fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, j, rc)\n", nextID)
 	fmt.Fprintf(b, "\t\t\ti = j\n\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 }
 
 // emitMatch emits inline code setting j to the end index on success or return on
-// failure.
-func (c *codegen) emitMatch(b *strings.Builder, s ssym) {
+// failure. It reports false when nothing can match, the code then always returns.
+func (c *codegen) emitMatch(b *strings.Builder, s ssym) bool {
 	switch v := s.term.(type) {
 	case ElemCharVal:
 		c.emitCharVal(b, v)
@@ -230,13 +232,16 @@ func (c *codegen) emitMatch(b *strings.Builder, s ssym) {
 			fmt.Fprintf(b, "\t\t\tif rv < %d || rv > %d {\n\t\t\t\treturn\n\t\t\t}\n", lo, hi)
 			b.WriteString("\t\t\tj := i + rs\n")
 		case StatSeries:
-			c.emitSeries(b, v)
+			return c.emitSeries(b, v)
 		default:
 			b.WriteString("\t\t\treturn\n")
+			return false
 		}
 	default: // prose-val: never matches
 		b.WriteString("\t\t\treturn\n")
+		return false
 	}
+	return true
 }
 
 func (c *codegen) emitCharVal(b *strings.Builder, v ElemCharVal) {
@@ -276,19 +281,20 @@ func (c *codegen) emitCharVal(b *strings.Builder, v ElemCharVal) {
 	}
 }
 
-func (c *codegen) emitSeries(b *strings.Builder, v ElemNumVal) {
+func (c *codegen) emitSeries(b *strings.Builder, v ElemNumVal) bool {
 	var sb strings.Builder
 	for _, e := range v.Elems {
 		r := numvalToRune(e, v.Base)
 		if !utf8.ValidRune(r) {
 			b.WriteString("\t\t\treturn // series contains a non-Unicode value\n")
-			return
+			return false
 		}
 		sb.WriteRune(r)
 	}
 	idx := c.seriesVar([]byte(sb.String()))
 	fmt.Fprintf(b, "\t\t\tif i+len(series%d) > len(p.input) || !bytesEqual(p.input[i:i+len(series%d)], series%d) {\n\t\t\t\treturn\n\t\t\t}\n", idx, idx, idx)
 	fmt.Fprintf(b, "\t\t\tj := i + len(series%d)\n", idx)
+	return true
 }
 
 func (c *codegen) seriesVar(bs []byte) int {
-- 
2.43.0


From 74e57750a05563f87f761ea98cc16c8944f2fbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:39 +0000
Subject: [PATCH 31/34] fix: a generated parser that calls an undefined rule
 compiles

---
 codegen.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index 3038873..897af07 100644
--- a/codegen.go
+++ b/codegen.go
@@ -169,8 +169,13 @@ func (c *codegen) emitProcess(b *strings.Builder) {
 }
 
 func (c *codegen) emitCall(b *strings.Builder, s sInfo, callee, retID int) {
-	fmt.Fprintf(b, "\t\t\tv := p.create(%d, u, i, rc)\n", retID)
 	ci := c.sg.nts[callee]
+	if len(ci.alts) == 0 || ci.isRep && ci.repMin > 0 && ci.repMax == 0 {
+		// undefined rule or empty bounds: nothing to start.
+		b.WriteString("\t\t\treturn\n")
+		return
+	}
+	fmt.Fprintf(b, "\t\t\tv := p.create(%d, u, i, rc)\n", retID)
 	if ci.isRep {
 		if callee == s.nt {
 			// self-recursion inside the rep's own loop: continue the chain.
-- 
2.43.0


From 211467837fcde173fb3f9f065f28f12ab4d7b1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:17 +0000
Subject: [PATCH 32/34] fix: pap honours --deflate-*=false

The transition-graph command tested whether a deflate flag was set, not its
value, so --deflate-rules=false deflated the rules.
---
 cmd/pap/commands/transition_graph.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/cmd/pap/commands/transition_graph.go b/cmd/pap/commands/transition_graph.go
index cd3e9cd..e571832 100644
--- a/cmd/pap/commands/transition_graph.go
+++ b/cmd/pap/commands/transition_graph.go
@@ -51,15 +51,10 @@ func transitionGraph(ctx *cli.Context) error {
 	}
 
 	// Build options
-	opts := []goabnf.TGOption{}
-	if ctx.IsSet("deflate-rules") {
-		opts = append(opts, goabnf.WithDeflateRules(true))
-	}
-	if ctx.IsSet("deflate-charvals") {
-		opts = append(opts, goabnf.WithDeflateCharVals(true))
-	}
-	if ctx.IsSet("deflate-numvals") {
-		opts = append(opts, goabnf.WithDeflateNumVals(true))
+	opts := []goabnf.TGOption{
+		goabnf.WithDeflateRules(ctx.Bool("deflate-rules")),
+		goabnf.WithDeflateCharVals(ctx.Bool("deflate-charvals")),
+		goabnf.WithDeflateNumVals(ctx.Bool("deflate-numvals")),
 	}
 	if ctx.IsSet("repetition-threshold") {
 		opts = append(opts, goabnf.WithRepetitionThreshold(ctx.Int("repetition-threshold")))
-- 
2.43.0


From a530279990d828c483b21608bae528464f711208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:46 +0000
Subject: [PATCH 33/34] fix: generators stop at their limits on repetitions
 with huge bounds

Generate ignored WithThreshold inside a bounded repetition, so that one
repetition could emit far more than the threshold allows, and Generate and
ASTGenerator went through every occurrence of an element that emits nothing.
---
 ast.go      |  7 +++++++
 generate.go | 17 +++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/ast.go b/ast.go
index 26a8de5..355cdb1 100644
--- a/ast.go
+++ b/ast.go
@@ -257,11 +257,18 @@ func (ag *ASTGenerator) genRep(src source, w *astWalk, rep Repetition, depth int
 		n = lo + src.intn(hi-lo+1)
 	}
 	for i := 0; i < n; i++ {
+		w.expansions++
+		steering, lenout := ag.over(w, depth), len(w.out)
 		ag.genElem(src, w, rep.Element, depth)
 		// Stop optional extras once over length, but always emit the mandatory lo.
 		if i+1 >= lo && (len(w.out) >= ag.maxLen || w.expansions >= astMaxExpansions) {
 			break
 		}
+		// An occurrence that emits nothing when steering is what all the remaining
+		// ones would be.
+		if steering && len(w.out) == lenout {
+			break
+		}
 	}
 }
 
diff --git a/generate.go b/generate.go
index fc86445..a84deb9 100644
--- a/generate.go
+++ b/generate.go
@@ -77,16 +77,19 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 			torep = rep.Min
 		}
 		for i := 0; generateKeepGoing(i, torep, rep.Min, len(*out), options.threshold); i++ {
-			if i >= rep.Min && options.expansions >= generateMaxExpansions {
+			options.expansions++
+			over := finish || options.expansions >= generateMaxExpansions
+			if i >= rep.Min && over {
 				break
 			}
+			lenout := len(*out)
 			switch elem := rep.Element.(type) {
 			case ElemRulename:
 				rule := GetRule(elem.Name, g.Rulemap)
 				generateAlt(rand, g, out, rule.Alternation, options, costs, depth+1)
 
 			case ElemOption:
-				if (rand.Int63()%2) == 0 && !finish && costs.costAlt(elem.Alternation) < astUnbounded {
+				if (rand.Int63()%2) == 0 && !over && costs.costAlt(elem.Alternation) < astUnbounded {
 					generateAlt(rand, g, out, elem.Alternation, options, costs, depth+1)
 				}
 
@@ -126,6 +129,12 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 			}
 
 			// Prose-val is not covered, checked before to avoid generation
+
+			// An occurrence that emits nothing when only finishing is what all
+			// the remaining ones would be.
+			if over && len(*out) == lenout {
+				break
+			}
 		}
 	}
 }
@@ -137,8 +146,8 @@ func appendPtr(slc *[]byte, v ...rune) {
 }
 
 func generateKeepGoing(i, torep, minrep, lenout, threshold int) bool {
-	// If can do no run and reached threshold, skip
-	if i == 0 && minrep == 0 && lenout >= threshold {
+	// Once the threshold is reached, only do the mandatory repetitions
+	if i >= minrep && lenout >= threshold {
 		return false
 	}
 	return i < torep
-- 
2.43.0


From ec0b7eef714d345131ecd7587720d4be6aa9c4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:11 +0000
Subject: [PATCH 34/34] fix: a node budget holds for repetitions whose node
 count overflows

---
 transition_graph.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/transition_graph.go b/transition_graph.go
index 037b241..3c187dd 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -226,7 +226,11 @@ func (m *tgmachine) reserveClones(reps int, entries []*Node) error {
 	if m.options.maxNodes <= 0 {
 		return nil
 	}
-	return m.reserve(reps * countReachable(entries))
+	n := countReachable(entries)
+	if n != 0 && reps > m.options.maxNodes/n {
+		return &ErrMaxNodesExceeded{Max: m.options.maxNodes} // reps * n may overflow
+	}
+	return m.reserve(reps * n)
 }
 
 // countReachable counts the distinct non-empty nodes reachable from entries,
@@ -1171,6 +1175,10 @@ func chainTransitionGraph(i, o []*Node, n int) (tgs []TransitionGraph, entrypoin
 	if n == 0 {
 		return
 	}
+	// Without a node, once is as good as n times (which no node budget bounds).
+	if !slices.ContainsFunc(i, func(n *Node) bool { return n != emptyNode }) {
+		n = 1
+	}
 	tgs = make([]TransitionGraph, n)
 
 	// Init chaining
-- 
2.43.0

