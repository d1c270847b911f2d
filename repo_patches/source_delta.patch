From 3cc41bbc986a4233df516f21a2823b69e3a72df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:58 +0000
Subject: [PATCH 01/46] fix: IsValid rejected words of counted repetitions

A repetition whose minimum exceeds the input length over a nullable element
(5["a"] on the empty input) was cut by the iteration cap, and the closure test
stopped at positions reached with fewer than the minimum number of occurrences
(3*("a" / "aaa") rejected "aaaa").
---
 recognize.go | 51 +++++++++++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/recognize.go b/recognize.go
index 2f18570..15758c9 100644
--- a/recognize.go
+++ b/recognize.go
@@ -70,26 +70,24 @@ func (r *recognizer) reachConcat(c Concatenation, index int) map[int]bool {
 
 func (r *recognizer) reachRep(rep Repetition, index int) map[int]bool {
 	ends := map[int]bool{}
+	if rep.Max != inf && rep.Min > rep.Max {
+		return ends
+	}
 	if rep.Min == 0 {
 		ends[index] = true
 	}
 
 	// level = positions reachable after exactly c occurrences.
 	level := map[int]bool{index: true}
-	// seen = every position reached at any count so far. reachElem only moves
-	// forward (an end position is >= its start), so once a step introduces no
-	// position outside seen, the reachable set has closed and no later
-	// repetition can add a new end position. Breaking there keeps an unbounded
-	// repetition over an element with large reach-sets (e.g. *(1*ALPHA)) at
-	// O(n^2); the previous len(next)==len(level) test never tripped because
-	// level shrank by one each step ({1..n}, {2..n}, ...), giving O(n^3).
-	seen := map[int]bool{index: true}
-
-	cap := len(r.input) + 2
-	for c := 1; c <= cap; c++ {
-		if rep.Max != inf && c > rep.Max {
-			break
-		}
+	// Positions live in [0, len(input)], so a run of more than len(input)
+	// occurrences contains an empty one, which can be repeated at will: the set
+	// reached after exactly c occurrences no longer changes once c exceeds
+	// len(input). A larger minimum is therefore equivalent to len(input)+1.
+	min := rep.Min
+	if min > len(r.input)+1 {
+		min = len(r.input) + 1
+	}
+	for c := 1; rep.Max == inf || c <= rep.Max; c++ {
 		next := map[int]bool{}
 		for p := range level {
 			for e := range r.reachElem(rep.Element, p) {
@@ -99,23 +97,24 @@ func (r *recognizer) reachRep(rep Repetition, index int) map[int]bool {
 		if len(next) == 0 {
 			break
 		}
-		if c >= rep.Min {
+		if c >= min {
+			grew := false
 			for e := range next {
-				ends[e] = true
+				if !ends[e] {
+					ends[e] = true
+					grew = true
+				}
 			}
-		}
-		grew := false
-		for e := range next {
-			if !seen[e] {
-				seen[e] = true
-				grew = true
+			// Every position of this level is already the end of a shorter
+			// admissible run, so the set has closed and no later repetition can
+			// add a new end position. Breaking there keeps an unbounded
+			// repetition over an element with large reach-sets (e.g. *(1*ALPHA))
+			// at O(n^2).
+			if !grew {
+				break
 			}
 		}
 		level = next
-		// Reachable set closed and the minimum-count requirement met.
-		if !grew && c >= rep.Min {
-			break
-		}
 	}
 	return ends
 }
-- 
2.43.0


From 8308383e4b29c99c3d8e1cec503746760c3e2332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:28 +0000
Subject: [PATCH 02/46] fix: IsValid memoised groups and options over an
 unfinished left recursion

A group or option evaluated while a left-recursive rule was being grown at the
same position was cached with that rule's partial seed, so a = (a "x") / "y"
rejected "yx".
---
 grammar.go   |  2 ++
 recognize.go | 27 +++++++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/grammar.go b/grammar.go
index 8b3932a..22400d5 100644
--- a/grammar.go
+++ b/grammar.go
@@ -34,6 +34,8 @@ func (g *Grammar) IsValid(rulename string, input []byte) (bool, error) {
 		inProgress: map[string]bool{},
 		leftRec:    g.leftRecursiveSCCs(),
 		growing:    map[string]map[int]bool{},
+		growingAt:  map[int]int{},
+		volatile:   map[string]map[int]bool{},
 	}
 	ends := r.reachElem(ElemRulename{Name: rulename}, 0)
 	return ends[len(input)], nil
diff --git a/recognize.go b/recognize.go
index 15758c9..e4d06d7 100644
--- a/recognize.go
+++ b/recognize.go
@@ -31,6 +31,12 @@ type recognizer struct {
 	// returns the seed instead of recursing.
 	leftRec map[string][]string
 	growing map[string]map[int]bool
+
+	// growingAt counts the rules being grown per index. A group or option
+	// evaluated there may depend on their seeds, so its result goes to volatile,
+	// which is dropped whenever a seed moves, and not to memo.
+	growingAt map[int]int
+	volatile  map[string]map[int]bool
 }
 
 func cloneSet(s map[int]bool) map[int]bool {
@@ -133,6 +139,22 @@ func (r *recognizer) reachElem(elem ElemItf, index int) map[int]bool {
 	if cached, ok := r.memo[key]; ok {
 		return cached
 	}
+	switch elem.(type) {
+	case ElemGroup, ElemOption:
+		// Not a rule, hence no recursion of its own: re-entry only happens
+		// through a rule, which carries its own guard.
+		if r.growingAt[index] == 0 {
+			out := r.computeElem(elem, index)
+			r.memo[key] = cloneSet(out)
+			return out
+		}
+		if cached, ok := r.volatile[key]; ok {
+			return cached
+		}
+		out := r.computeElem(elem, index)
+		r.volatile[key] = cloneSet(out)
+		return out
+	}
 	if r.inProgress[key] {
 		// Re-entry at the same position == non-progressing recursion in a rule
 		// not flagged left-recursive. Return empty (defense-in-depth) instead of
@@ -172,6 +194,8 @@ func (r *recognizer) reachLeftRec(name string, scc []string, index int) map[int]
 		keys[i] = x + sidx
 		r.growing[keys[i]] = map[int]bool{}
 	}
+	r.growingAt[index] += len(scc)
+	clear(r.volatile)
 	for changed := true; changed; {
 		changed = false
 		for i, x := range scc {
@@ -185,6 +209,7 @@ func (r *recognizer) reachLeftRec(name string, scc []string, index int) map[int]
 				if !cur[e] {
 					cur[e] = true
 					changed = true
+					clear(r.volatile)
 				}
 			}
 		}
@@ -194,6 +219,8 @@ func (r *recognizer) reachLeftRec(name string, scc []string, index int) map[int]
 	// outer growing seed (the SCC only re-references its own members, held in
 	// r.growing, and strictly lower SCCs, which cannot reference it back), so
 	// they can be memoized unconditionally.
+	r.growingAt[index] -= len(scc)
+	clear(r.volatile)
 	var result map[int]bool
 	for i, x := range scc {
 		v := r.growing[keys[i]]
-- 
2.43.0


From dd30cfe85d8db9bb2d27a15c86eeb70638a68d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:11 +0000
Subject: [PATCH 03/46] fix: a case-sensitive string printed as a
 case-insensitive one

ElemCharVal.String dropped RFC 7405's %s, so a printed grammar was re-read with a
different language, and the engines, which key their tables by that text, merged
"a" with %s"a".
---
 abnf.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/abnf.go b/abnf.go
index 5173714..038cf94 100644
--- a/abnf.go
+++ b/abnf.go
@@ -151,7 +151,12 @@ func (ecvl ElemCharVal) String() string {
 	for _, val := range ecvl.Values {
 		str += string(val)
 	}
-	return `"` + str + `"`
+	str = `"` + str + `"`
+	if ecvl.Sensitive {
+		// RFC 7405: a bare quoted string is case-insensitive.
+		str = "%s" + str
+	}
+	return str
 }
 
 var _ ElemItf = (*ElemCharVal)(nil)
-- 
2.43.0


From eab6a71ca7b27e0055047f3b4a7422daf79f94bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:02 +0000
Subject: [PATCH 04/46] fix: cycle detection visited the first rule twice

Tarjan's index 0 doubled as 'not visited', so the first rule could be reported in
two overlapping components depending on map order; IsValid then panicked while
growing a = "a" / b, b = *b / a.
---
 dag.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dag.go b/dag.go
index 4d004e4..be5061b 100644
--- a/dag.go
+++ b/dag.go
@@ -194,10 +194,11 @@ func (c *cycle) find() {
 }
 
 func (c *cycle) strongconnect(v *node) {
-	// Set the depth index for v to the smallest unused index
+	// Set the depth index for v to the smallest unused index (0 marks a node
+	// that has not been visited yet)
+	c.index++
 	v.index = c.index
 	v.lowlink = c.index
-	c.index++
 	c.stack = append(c.stack, v)
 	v.onStack = true
 
-- 
2.43.0


From 7ea565823a2a9644f9da0580531ab19a04325699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:11 +0000
Subject: [PATCH 05/46] fix: IsDAG ignored rules that directly depend on
 themselves

---
 dag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dag.go b/dag.go
index be5061b..11dfe6f 100644
--- a/dag.go
+++ b/dag.go
@@ -92,6 +92,10 @@ func (g *Grammar) IsDAG() bool {
 		if len(sccs) > 1 {
 			return false
 		}
+		// A rule that directly depends on itself is a cycle of its own.
+		if slices.Contains(sccs[0].Dependencies, strings.ToLower(sccs[0].Rulename)) {
+			return false
+		}
 	}
 	return true
 }
-- 
2.43.0


From de0bef28e201f61495c8cbeec28e29ba55e57c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:22 +0000
Subject: [PATCH 06/46] fix: the forest merged derivations through different
 alternatives

Two alternatives covering the same text (a = "x" / %x78) were packed as one, so
NumTrees and Ambiguous disagreed with the BSR engine and reported an ambiguous
input as unambiguous.
---
 sppf.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sppf.go b/sppf.go
index 9c4d507..0c3e518 100644
--- a/sppf.go
+++ b/sppf.go
@@ -247,11 +247,12 @@ type gnode struct {
 	nt         int // symbol nonterminal id, for gSymbol
 	Start, End int
 	packs      [][]*gnode // each pack has 1 or 2 children; >1 pack == ambiguity
+	packAlts   []int      // alternate each pack derives from, parallel to packs
 }
 
-func (n *gnode) addPack(children []*gnode) {
-	for _, p := range n.packs {
-		if len(p) != len(children) {
+func (n *gnode) addPack(alt int, children []*gnode) {
+	for pi, p := range n.packs {
+		if n.packAlts[pi] != alt || len(p) != len(children) {
 			continue
 		}
 		same := true
@@ -266,6 +267,7 @@ func (n *gnode) addPack(children []*gnode) {
 		}
 	}
 	n.packs = append(n.packs, children)
+	n.packAlts = append(n.packAlts, alt)
 }
 
 // ---------------------------------------------------------------------------
@@ -416,9 +418,9 @@ func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
 	}
 	y := p.findNode(k)
 	if w != nil {
-		y.addPack([]*gnode{w, z})
+		y.addPack(L.alt, []*gnode{w, z})
 	} else {
-		y.addPack([]*gnode{z})
+		y.addPack(L.alt, []*gnode{z})
 	}
 	return y
 }
-- 
2.43.0


From 734e05b34e3ed81426da79cc67151b51ec274b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:18 +0000
Subject: [PATCH 07/46] fix: tree queries ignored the repetition count

Forest and BSR nodes of a counted repetition were shared between different
numbers of occurrences already consumed, so NumTrees over-counted (2*3("a" /
"aa")), reported infinitely many trees for finite bounds (0*3("")), and Tree
could return a tree outside the bounds.
---
 bsr.go  | 135 +++++++++++++++++++++++++++++++-------------------------
 sppf.go |  20 +++++----
 2 files changed, 88 insertions(+), 67 deletions(-)

diff --git a/bsr.go b/bsr.go
index 75f3309..6cbf73a 100644
--- a/bsr.go
+++ b/bsr.go
@@ -27,8 +27,12 @@ import (
 // bsrElem is one binary subtree element. The slot's dot is "just past" the most
 // recently consumed symbol; that symbol spans [k,r] and the earlier prefix spans
 // [l,k]. A complete production (dot == len) records the nonterminal's extent.
+// rc is the number of occurrences already committed when the slot belongs to a
+// counted repetition (0 otherwise): what remains derivable depends on it, so
+// elements of different counts are kept apart.
 type bsrElem struct {
 	slot    slot
+	rc      int
 	l, k, r int
 }
 
@@ -89,14 +93,14 @@ func (p *bsrParser) gssNodeFor(ret slot, pos, rc int) *bsrGNode {
 // when the consumed prefix has length >= 2 (an intermediate extent) or the
 // production is complete (dot == len). A length-1 prefix is degenerate (l == k)
 // and is reconstructed directly from the single symbol, so it is not stored.
-func (p *bsrParser) record(L slot, l, k, r int) {
+func (p *bsrParser) record(L slot, rc, l, k, r int) {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	if L.dot >= 2 || L.dot == len(prod) {
 		if p.maxElems > 0 && len(p.set) >= p.maxElems {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r}] = true
+		p.set[bsrElem{L, rc, l, k, r}] = true
 	}
 }
 
@@ -106,7 +110,7 @@ func (p *bsrParser) create(ret slot, u *bsrGNode, i, rc int) *bsrGNode {
 		v.edgeSet[u] = true
 		v.edges = append(v.edges, u)
 		for j := range p.popped[v] {
-			p.record(ret, u.pos, i, j)
+			p.record(ret, rc, u.pos, i, j)
 			p.add(ret, u, j, rc)
 		}
 	}
@@ -122,7 +126,7 @@ func (p *bsrParser) pop(u *bsrGNode, j int) {
 	}
 	p.popped[u][j] = true
 	for _, v := range u.edges {
-		p.record(u.ret, v.pos, u.pos, j)
+		p.record(u.ret, u.rc, v.pos, u.pos, j)
 		p.add(u.ret, v, j, u.rc)
 	}
 }
@@ -240,7 +244,7 @@ func (p *bsrParser) process(d bsrDesc) {
 			return
 		}
 		next := slot{L.nt, L.alt, L.dot + 1}
-		p.record(next, u.pos, i, j)
+		p.record(next, rc, u.pos, i, j)
 		i = j
 		L = next
 	}
@@ -257,20 +261,31 @@ type BSRForest struct {
 	input    []byte
 	rulename string
 	set      map[bsrElem]bool
-	index    map[bsrKey][]int // (slot,l,r) -> pivots k
+	index    map[bsrKey][]int // (slot,rc,l,r) -> pivots k
 	start    int
 	n        int
 }
 
 type bsrKey struct {
 	slot slot
+	rc   int
 	l, r int
 }
 
+// childRC returns the repetition count nonterminal child starts from when it is
+// referenced by a production of parent whose own count is rc, as the parser does:
+// a repetition's reference to itself continues its chain, anything else is fresh.
+func (f *BSRForest) childRC(parent, child, rc int) int {
+	if nt := f.sg.nts[child]; nt.isRep && parent == child {
+		return capRC(rc, nt)
+	}
+	return 0
+}
+
 func (f *BSRForest) buildIndex() {
 	f.index = make(map[bsrKey][]int, len(f.set))
 	for e := range f.set {
-		k := bsrKey{e.slot, e.l, e.r}
+		k := bsrKey{e.slot, e.rc, e.l, e.r}
 		f.index[k] = append(f.index[k], e.k)
 	}
 }
@@ -280,7 +295,7 @@ func (f *BSRForest) buildIndex() {
 func (f *BSRForest) startElems() (slot, []int, bool) {
 	for ai, prod := range f.sg.nts[f.start].alts {
 		s := slot{f.start, ai, len(prod)}
-		if ks := f.index[bsrKey{s, 0, f.n}]; len(ks) > 0 {
+		if ks := f.index[bsrKey{s, 0, 0, f.n}]; len(ks) > 0 {
 			return s, ks, true
 		}
 	}
@@ -291,7 +306,7 @@ func (f *BSRForest) startElems() (slot, []int, bool) {
 func (f *BSRForest) Valid() bool {
 	for ai, prod := range f.sg.nts[f.start].alts {
 		s := slot{f.start, ai, len(prod)}
-		if len(f.index[bsrKey{s, 0, f.n}]) > 0 {
+		if len(f.index[bsrKey{s, 0, 0, f.n}]) > 0 {
 			return true
 		}
 	}
@@ -306,6 +321,7 @@ type bsrNodeID struct {
 	inter bool
 	slot  slot // for intermediate nodes
 	nt    int  // for symbol nodes
+	rc    int  // repetition count of the frame
 	l, r  int
 }
 
@@ -320,35 +336,35 @@ func (f *BSRForest) NumTrees() *big.Int {
 	onStack := map[bsrNodeID]bool{}
 	infinite := false
 
-	var symWays func(s ssym, a, b int) *big.Int
-	var countSym func(nt, l, r int) *big.Int
-	var countInter func(sl slot, l, r int) *big.Int
-	var countElem func(sl slot, l, k, r int) *big.Int
+	var symWays func(sl slot, s ssym, rc, a, b int) *big.Int
+	var countSym func(nt, rc, l, r int) *big.Int
+	var countInter func(sl slot, rc, l, r int) *big.Int
+	var countElem func(sl slot, rc, l, k, r int) *big.Int
 
-	symWays = func(s ssym, a, b int) *big.Int {
+	symWays = func(sl slot, s ssym, rc, a, b int) *big.Int {
 		if s.kind == symNonterm {
-			return countSym(s.nt, a, b)
+			return countSym(s.nt, f.childRC(sl.nt, s.nt, rc), a, b)
 		}
 		return big.NewInt(1) // terminal / eps leaf
 	}
 
-	countElem = func(sl slot, l, k, r int) *big.Int {
+	countElem = func(sl slot, rc, l, k, r int) *big.Int {
 		prod := f.sg.nts[sl.nt].alts[sl.alt]
-		last := symWays(prod[sl.dot-1], k, r)
+		last := symWays(sl, prod[sl.dot-1], rc, k, r)
 		var pre *big.Int
 		switch sl.dot {
 		case 1: // empty prefix (l == k)
 			pre = big.NewInt(1)
 		case 2: // single-symbol prefix
-			pre = symWays(prod[0], l, k)
+			pre = symWays(sl, prod[0], rc, l, k)
 		default: // intermediate prefix
-			pre = countInter(slot{sl.nt, sl.alt, sl.dot - 1}, l, k)
+			pre = countInter(slot{sl.nt, sl.alt, sl.dot - 1}, rc, l, k)
 		}
 		return new(big.Int).Mul(pre, last)
 	}
 
-	countInter = func(sl slot, l, r int) *big.Int {
-		id := bsrNodeID{inter: true, slot: sl, l: l, r: r}
+	countInter = func(sl slot, rc, l, r int) *big.Int {
+		id := bsrNodeID{inter: true, slot: sl, rc: rc, l: l, r: r}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -358,16 +374,16 @@ func (f *BSRForest) NumTrees() *big.Int {
 		}
 		onStack[id] = true
 		total := big.NewInt(0)
-		for _, k := range f.index[bsrKey{sl, l, r}] {
-			total.Add(total, countElem(sl, l, k, r))
+		for _, k := range f.index[bsrKey{sl, rc, l, r}] {
+			total.Add(total, countElem(sl, rc, l, k, r))
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
 
-	countSym = func(nt, l, r int) *big.Int {
-		id := bsrNodeID{nt: nt, l: l, r: r}
+	countSym = func(nt, rc, l, r int) *big.Int {
+		id := bsrNodeID{nt: nt, rc: rc, l: l, r: r}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -379,8 +395,8 @@ func (f *BSRForest) NumTrees() *big.Int {
 		total := big.NewInt(0)
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			for _, k := range f.index[bsrKey{sl, l, r}] {
-				total.Add(total, countElem(sl, l, k, r))
+			for _, k := range f.index[bsrKey{sl, rc, l, r}] {
+				total.Add(total, countElem(sl, rc, l, k, r))
 			}
 		}
 		onStack[id] = false
@@ -388,7 +404,7 @@ func (f *BSRForest) NumTrees() *big.Int {
 		return total
 	}
 
-	res := countSym(f.start, 0, f.n)
+	res := countSym(f.start, 0, 0, f.n)
 	if infinite {
 		return big.NewInt(-1)
 	}
@@ -402,49 +418,49 @@ func (f *BSRForest) Ambiguous() bool {
 	}
 	visited := map[bsrNodeID]bool{}
 
-	var symAmb func(nt, l, r int) bool
-	var interAmb func(sl slot, l, r int) bool
-	var elemAmb func(sl slot, l, k, r int) bool
+	var symAmb func(nt, rc, l, r int) bool
+	var interAmb func(sl slot, rc, l, r int) bool
+	var elemAmb func(sl slot, rc, l, k, r int) bool
 
-	symOf := func(s ssym, a, b int) bool {
+	symOf := func(sl slot, s ssym, rc, a, b int) bool {
 		if s.kind == symNonterm {
-			return symAmb(s.nt, a, b)
+			return symAmb(s.nt, f.childRC(sl.nt, s.nt, rc), a, b)
 		}
 		return false
 	}
-	elemAmb = func(sl slot, l, k, r int) bool {
+	elemAmb = func(sl slot, rc, l, k, r int) bool {
 		prod := f.sg.nts[sl.nt].alts[sl.alt]
-		if symOf(prod[sl.dot-1], k, r) {
+		if symOf(sl, prod[sl.dot-1], rc, k, r) {
 			return true
 		}
 		switch sl.dot {
 		case 1:
 			return false
 		case 2:
-			return symOf(prod[0], l, k)
+			return symOf(sl, prod[0], rc, l, k)
 		default:
-			return interAmb(slot{sl.nt, sl.alt, sl.dot - 1}, l, k)
+			return interAmb(slot{sl.nt, sl.alt, sl.dot - 1}, rc, l, k)
 		}
 	}
-	interAmb = func(sl slot, l, r int) bool {
-		id := bsrNodeID{inter: true, slot: sl, l: l, r: r}
+	interAmb = func(sl slot, rc, l, r int) bool {
+		id := bsrNodeID{inter: true, slot: sl, rc: rc, l: l, r: r}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
-		ks := f.index[bsrKey{sl, l, r}]
+		ks := f.index[bsrKey{sl, rc, l, r}]
 		if len(ks) > 1 {
 			return true
 		}
 		for _, k := range ks {
-			if elemAmb(sl, l, k, r) {
+			if elemAmb(sl, rc, l, k, r) {
 				return true
 			}
 		}
 		return false
 	}
-	symAmb = func(nt, l, r int) bool {
-		id := bsrNodeID{nt: nt, l: l, r: r}
+	symAmb = func(nt, rc, l, r int) bool {
+		id := bsrNodeID{nt: nt, rc: rc, l: l, r: r}
 		if visited[id] {
 			return false
 		}
@@ -452,7 +468,7 @@ func (f *BSRForest) Ambiguous() bool {
 		packs := 0
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			ks := f.index[bsrKey{sl, l, r}]
+			ks := f.index[bsrKey{sl, rc, l, r}]
 			packs += len(ks)
 		}
 		if packs > 1 {
@@ -460,15 +476,15 @@ func (f *BSRForest) Ambiguous() bool {
 		}
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			for _, k := range f.index[bsrKey{sl, l, r}] {
-				if elemAmb(sl, l, k, r) {
+			for _, k := range f.index[bsrKey{sl, rc, l, r}] {
+				if elemAmb(sl, rc, l, k, r) {
 					return true
 				}
 			}
 		}
 		return false
 	}
-	return symAmb(f.start, 0, f.n)
+	return symAmb(f.start, 0, 0, f.n)
 }
 
 // Tree extracts a single parse tree (first element at each extent), or nil if
@@ -490,7 +506,7 @@ func (f *BSRForest) Tree() *ParseTree {
 // complete-production slot sl with pivot k.
 func (f *BSRForest) emitSym(nt int, sl slot, k, l, r int, visited map[bsrNodeID]bool) *ParseTree {
 	var kids []*ParseTree
-	f.collectElem(sl, l, k, r, &kids, visited)
+	f.collectElem(sl, 0, l, k, r, &kids, visited)
 	info := f.sg.nts[nt]
 	if !info.isRule {
 		// synthetic (group/option/rep): splice children into the parent
@@ -499,27 +515,27 @@ func (f *BSRForest) emitSym(nt int, sl slot, k, l, r int, visited map[bsrNodeID]
 	return &ParseTree{Rule: info.ruleName, Start: l, End: r, Children: kids}
 }
 
-// collectElem appends the children of element (sl,l,k,r) into out, flattening
+// collectElem appends the children of element (sl,rc,l,k,r) into out, flattening
 // intermediate extents and synthetic nonterminals.
-func (f *BSRForest) collectElem(sl slot, l, k, r int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
+func (f *BSRForest) collectElem(sl slot, rc, l, k, r int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
 	prod := f.sg.nts[sl.nt].alts[sl.alt]
 	// prefix x_1..x_{dot-1} over [l,k]
 	switch sl.dot {
 	case 1:
 		// empty
 	case 2:
-		f.collectChild(prod[0], l, k, out, visited)
+		f.collectChild(sl, prod[0], rc, l, k, out, visited)
 	default:
 		isl := slot{sl.nt, sl.alt, sl.dot - 1}
-		if ks := f.index[bsrKey{isl, l, k}]; len(ks) > 0 {
-			f.collectElem(isl, l, ks[0], k, out, visited)
+		if ks := f.index[bsrKey{isl, rc, l, k}]; len(ks) > 0 {
+			f.collectElem(isl, rc, l, ks[0], k, out, visited)
 		}
 	}
 	// last symbol x_{dot} over [k,r]
-	f.collectChild(prod[sl.dot-1], k, r, out, visited)
+	f.collectChild(sl, prod[sl.dot-1], rc, k, r, out, visited)
 }
 
-func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
+func (f *BSRForest) collectChild(sl slot, s ssym, rc, a, b int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
 	if s.kind != symNonterm {
 		if s.kind == symEps {
 			return // epsilon contributes no leaf
@@ -527,7 +543,8 @@ func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited ma
 		*out = append(*out, &ParseTree{Start: a, End: b})
 		return
 	}
-	id := bsrNodeID{nt: s.nt, l: a, r: b}
+	rc = f.childRC(sl.nt, s.nt, rc)
+	id := bsrNodeID{nt: s.nt, rc: rc, l: a, r: b}
 	if visited[id] {
 		return
 	}
@@ -535,15 +552,15 @@ func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited ma
 	// pick the first complete-production element for this nonterminal extent
 	for ai, prod := range f.sg.nts[s.nt].alts {
 		csl := slot{s.nt, ai, len(prod)}
-		if ks := f.index[bsrKey{csl, a, b}]; len(ks) > 0 {
+		if ks := f.index[bsrKey{csl, rc, a, b}]; len(ks) > 0 {
 			info := f.sg.nts[s.nt]
 			if info.isRule {
 				var kids []*ParseTree
-				f.collectElem(csl, a, ks[0], b, &kids, visited)
+				f.collectElem(csl, rc, a, ks[0], b, &kids, visited)
 				*out = append(*out, &ParseTree{Rule: info.ruleName, Start: a, End: b, Children: kids})
 			} else {
 				// synthetic: splice its children directly into the parent
-				f.collectElem(csl, a, ks[0], b, out, visited)
+				f.collectElem(csl, rc, a, ks[0], b, out, visited)
 			}
 			visited[id] = false
 			return
diff --git a/sppf.go b/sppf.go
index 0c3e518..a743e4b 100644
--- a/sppf.go
+++ b/sppf.go
@@ -321,11 +321,14 @@ type gllParser struct {
 }
 
 // nodeKey interns SPPF nodes without allocating strings. Distinct kinds never
-// collide: symbol nodes key on (kind,nt,start,end); intermediate nodes on
-// (kind,L,start,end); terminal nodes on (kind,start,end).
+// collide: symbol nodes key on (kind,nt,rc,start,end); intermediate nodes on
+// (kind,L,start,end); terminal nodes on (kind,start,end). rc is the number of
+// occurrences already committed when the symbol is a repetition (0 otherwise):
+// what remains derivable depends on it, so two counts never share a node.
 type nodeKey struct {
 	kind       gnodeKind
 	nt         int
+	rc         int
 	L          slot
 	start, end int
 }
@@ -362,7 +365,7 @@ func (p *gllParser) create(L slot, u *gssNode, i int, w *gnode, rc int) *gssNode
 		v.edgeSet[e] = true
 		v.edges = append(v.edges, e)
 		for z := range p.popped[v] {
-			y := p.getNodeP(L, w, z)
+			y := p.getNodeP(L, w, z, rc)
 			p.add(L, u, z.End, y, rc)
 		}
 	}
@@ -378,7 +381,7 @@ func (p *gllParser) pop(u *gssNode, i int, z *gnode) {
 	}
 	p.popped[u][z] = true
 	for _, e := range u.edges {
-		y := p.getNodeP(u.ret, e.w, z)
+		y := p.getNodeP(u.ret, e.w, z, u.rc)
 		p.add(u.ret, e.to, i, y, u.rc)
 	}
 }
@@ -399,8 +402,9 @@ func (p *gllParser) getNodeT(start, end int) *gnode {
 	return p.findNode(nodeKey{kind: gTerm, nt: -1, start: start, end: end})
 }
 
-// getNodeP combines left node w (may be nil == $) and right node z under slot L.
-func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
+// getNodeP combines left node w (may be nil == $) and right node z under slot L,
+// rc being the repetition count of the frame L belongs to.
+func (p *gllParser) getNodeP(L slot, w, z *gnode, rc int) *gnode {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	betaEmpty := L.dot == len(prod)
 	if L.dot == 1 && !betaEmpty {
@@ -412,7 +416,7 @@ func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
 	}
 	var k nodeKey
 	if betaEmpty {
-		k = nodeKey{kind: gSymbol, nt: L.nt, start: start, end: z.End}
+		k = nodeKey{kind: gSymbol, nt: L.nt, rc: rc, start: start, end: z.End}
 	} else {
 		k = nodeKey{kind: gInter, nt: -1, L: L, start: start, end: z.End}
 	}
@@ -547,7 +551,7 @@ func (p *gllParser) process(d descriptor) {
 		}
 		cR := p.getNodeT(i, j)
 		next := slot{L.nt, L.alt, L.dot + 1}
-		w = p.getNodeP(next, w, cR)
+		w = p.getNodeP(next, w, cR, rc)
 		i = j
 		L = next
 	}
-- 
2.43.0


From 796ea5547092c0d80c1c9d7850614d5a4ef13cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:47 +0000
Subject: [PATCH 08/46] fix: generated parsers ignored the repetition count in
 tree queries

The emitted NumTrees/Ambiguous/Tree shared elements between different numbers of
occurrences of a counted repetition, as the BSR engine did.
---
 codegen.go | 148 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 88 insertions(+), 60 deletions(-)

diff --git a/codegen.go b/codegen.go
index 39129e9..f984c2c 100644
--- a/codegen.go
+++ b/codegen.go
@@ -204,12 +204,12 @@ func (c *codegen) emitCall(b *strings.Builder, s sInfo, callee, retID int) {
 
 func (c *codegen) emitTerminal(b *strings.Builder, sym ssym, nextID int) {
 	if sym.kind == symEps {
-		fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, i)\n", nextID)
+		fmt.Fprintf(b, "\t\t\tp.record(%d, rc, u.pos, i, i)\n", nextID)
 		fmt.Fprintf(b, "\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 		return
 	}
 	c.emitMatch(b, sym) // sets j or returns on failure
-	fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, j)\n", nextID)
+	fmt.Fprintf(b, "\t\t\tp.record(%d, rc, u.pos, i, j)\n", nextID)
 	fmt.Fprintf(b, "\t\t\ti = j\n\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 }
 
@@ -340,7 +340,11 @@ func (c *codegen) emitMetadata(b *strings.Builder) {
 
 	b.WriteString("var qNTs = []qNT{\n")
 	for _, nt := range c.sg.nts {
-		fmt.Fprintf(b, "\t{isRule: %v, ruleName: %q, alts: ", nt.isRule, nt.ruleName)
+		fmt.Fprintf(b, "\t{isRule: %v, ruleName: %q, ", nt.isRule, nt.ruleName)
+		if nt.isRep {
+			fmt.Fprintf(b, "isRep: true, repMin: %d, repMax: %d, ", nt.repMin, nt.repMax)
+		}
+		b.WriteString("alts: ")
 		if len(nt.alts) == 0 {
 			b.WriteString("nil},\n")
 			continue
@@ -474,11 +478,17 @@ type qSym struct{ kind, nt int }
 type qNT struct {
 	isRule   bool
 	ruleName string
+	isRep    bool
+	repMin   int
+	repMax   int
 	alts     [][]qSym
 }
 
+// bsrElem is one BSR element; rc is the number of occurrences already committed
+// when the slot belongs to a counted repetition (0 otherwise).
 type bsrElem struct {
 	sl      int
+	rc      int
 	l, k, r int
 }
 
@@ -559,14 +569,14 @@ func (p *parser) gssNodeFor(ret, pos, rc int) *gnode {
 
 // record inserts a BSR element, keeping only intermediate (prefix length >= 2)
 // or complete (dot == len) extents.
-func (p *parser) record(L, l, k, r int) {
+func (p *parser) record(L, rc, l, k, r int) {
 	si := slotInfo[L]
 	if si.dot >= 2 || si.dot == si.plen {
 		if MaxElements > 0 && len(p.set) >= MaxElements {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r}] = true
+		p.set[bsrElem{L, rc, l, k, r}] = true
 	}
 }
 
@@ -576,7 +586,7 @@ func (p *parser) create(ret int, u *gnode, i, rc int) *gnode {
 		v.edgeSet[u] = true
 		v.edges = append(v.edges, u)
 		for j := range p.popped[v] {
-			p.record(ret, u.pos, i, j)
+			p.record(ret, rc, u.pos, i, j)
 			p.add(ret, u, j, rc)
 		}
 	}
@@ -592,7 +602,7 @@ func (p *parser) pop(u *gnode, j int) {
 	}
 	p.popped[u][j] = true
 	for _, v := range u.edges {
-		p.record(u.ret, v.pos, u.pos, j)
+		p.record(u.ret, u.rc, v.pos, u.pos, j)
 		p.add(u.ret, v, j, u.rc)
 	}
 }
@@ -611,15 +621,32 @@ type ParseTree struct {
 
 type bsrKey struct {
 	sl   int
+	rc   int
 	l, r int
 }
 
 type nodeID struct {
 	sl   int // slot id for intermediate nodes; -1 for symbol nodes
 	nt   int // nonterminal id for symbol nodes
+	rc   int // repetition count of the frame
 	l, r int
 }
 
+// childRC returns the repetition count nonterminal child starts from when it is
+// referenced by a production of parent whose own count is rc: a repetition's
+// reference to itself continues its chain, anything else is fresh.
+func childRC(parent, child, rc int) int {
+	nt := qNTs[child]
+	if !nt.isRep || parent != child {
+		return 0
+	}
+	rc++
+	if nt.repMax == inf && rc > nt.repMin {
+		rc = nt.repMin
+	}
+	return rc
+}
+
 // Result holds the BSR set for a parse and answers queries over it.
 type Result struct {
 	input []byte
@@ -634,7 +661,7 @@ func (r *Result) buildIndex() {
 	}
 	r.index = make(map[bsrKey][]int, len(r.set))
 	for e := range r.set {
-		bk := bsrKey{e.sl, e.l, e.r}
+		bk := bsrKey{e.sl, e.rc, e.l, e.r}
 		r.index[bk] = append(r.index[bk], e.k)
 	}
 }
@@ -643,7 +670,7 @@ func (r *Result) buildIndex() {
 func (r *Result) Valid() bool {
 	r.buildIndex()
 	for _, sl := range ntComplete[gStart] {
-		if len(r.index[bsrKey{sl, 0, r.n}]) > 0 {
+		if len(r.index[bsrKey{sl, 0, 0, r.n}]) > 0 {
 			return true
 		}
 	}
@@ -662,34 +689,34 @@ func (r *Result) NumTrees() *big.Int {
 	onStack := map[nodeID]bool{}
 	infinite := false
 
-	var symWays func(s qSym, a, b int) *big.Int
-	var countSym func(nt, l, rr int) *big.Int
-	var countInter func(sl, l, rr int) *big.Int
-	var countElem func(sl, l, k, rr int) *big.Int
+	var symWays func(nt int, s qSym, rc, a, b int) *big.Int
+	var countSym func(nt, rc, l, rr int) *big.Int
+	var countInter func(sl, rc, l, rr int) *big.Int
+	var countElem func(sl, rc, l, k, rr int) *big.Int
 
-	symWays = func(s qSym, a, b int) *big.Int {
+	symWays = func(nt int, s qSym, rc, a, b int) *big.Int {
 		if s.kind == kNT {
-			return countSym(s.nt, a, b)
+			return countSym(s.nt, childRC(nt, s.nt, rc), a, b)
 		}
 		return big.NewInt(1)
 	}
-	countElem = func(sl, l, k, rr int) *big.Int {
+	countElem = func(sl, rc, l, k, rr int) *big.Int {
 		si := slotInfo[sl]
 		prod := qNTs[si.nt].alts[si.alt]
-		last := symWays(prod[si.dot-1], k, rr)
+		last := symWays(si.nt, prod[si.dot-1], rc, k, rr)
 		var pre *big.Int
 		switch {
 		case si.dot == 1:
 			pre = big.NewInt(1)
 		case si.dot == 2:
-			pre = symWays(prod[0], l, k)
+			pre = symWays(si.nt, prod[0], rc, l, k)
 		default:
-			pre = countInter(sl-1, l, k)
+			pre = countInter(sl-1, rc, l, k)
 		}
 		return new(big.Int).Mul(pre, last)
 	}
-	countInter = func(sl, l, rr int) *big.Int {
-		id := nodeID{sl: sl, nt: -1, l: l, r: rr}
+	countInter = func(sl, rc, l, rr int) *big.Int {
+		id := nodeID{sl: sl, nt: -1, rc: rc, l: l, r: rr}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -699,15 +726,15 @@ func (r *Result) NumTrees() *big.Int {
 		}
 		onStack[id] = true
 		total := big.NewInt(0)
-		for _, k := range r.index[bsrKey{sl, l, rr}] {
-			total.Add(total, countElem(sl, l, k, rr))
+		for _, k := range r.index[bsrKey{sl, rc, l, rr}] {
+			total.Add(total, countElem(sl, rc, l, k, rr))
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
-	countSym = func(nt, l, rr int) *big.Int {
-		id := nodeID{sl: -1, nt: nt, l: l, r: rr}
+	countSym = func(nt, rc, l, rr int) *big.Int {
+		id := nodeID{sl: -1, nt: nt, rc: rc, l: l, r: rr}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -718,15 +745,15 @@ func (r *Result) NumTrees() *big.Int {
 		onStack[id] = true
 		total := big.NewInt(0)
 		for _, sl := range ntComplete[nt] {
-			for _, k := range r.index[bsrKey{sl, l, rr}] {
-				total.Add(total, countElem(sl, l, k, rr))
+			for _, k := range r.index[bsrKey{sl, rc, l, rr}] {
+				total.Add(total, countElem(sl, rc, l, k, rr))
 			}
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
-	res := countSym(gStart, 0, r.n)
+	res := countSym(gStart, 0, 0, r.n)
 	if infinite {
 		return big.NewInt(-1)
 	}
@@ -739,71 +766,71 @@ func (r *Result) Ambiguous() bool {
 		return false
 	}
 	visited := map[nodeID]bool{}
-	var symAmb func(nt, l, rr int) bool
-	var interAmb func(sl, l, rr int) bool
-	var elemAmb func(sl, l, k, rr int) bool
-	var symOf func(s qSym, a, b int) bool
-	symOf = func(s qSym, a, b int) bool {
+	var symAmb func(nt, rc, l, rr int) bool
+	var interAmb func(sl, rc, l, rr int) bool
+	var elemAmb func(sl, rc, l, k, rr int) bool
+	var symOf func(nt int, s qSym, rc, a, b int) bool
+	symOf = func(nt int, s qSym, rc, a, b int) bool {
 		if s.kind == kNT {
-			return symAmb(s.nt, a, b)
+			return symAmb(s.nt, childRC(nt, s.nt, rc), a, b)
 		}
 		return false
 	}
-	elemAmb = func(sl, l, k, rr int) bool {
+	elemAmb = func(sl, rc, l, k, rr int) bool {
 		si := slotInfo[sl]
 		prod := qNTs[si.nt].alts[si.alt]
-		if symOf(prod[si.dot-1], k, rr) {
+		if symOf(si.nt, prod[si.dot-1], rc, k, rr) {
 			return true
 		}
 		switch {
 		case si.dot == 1:
 			return false
 		case si.dot == 2:
-			return symOf(prod[0], l, k)
+			return symOf(si.nt, prod[0], rc, l, k)
 		default:
-			return interAmb(sl-1, l, k)
+			return interAmb(sl-1, rc, l, k)
 		}
 	}
-	interAmb = func(sl, l, rr int) bool {
-		id := nodeID{sl: sl, nt: -1, l: l, r: rr}
+	interAmb = func(sl, rc, l, rr int) bool {
+		id := nodeID{sl: sl, nt: -1, rc: rc, l: l, r: rr}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
-		ks := r.index[bsrKey{sl, l, rr}]
+		ks := r.index[bsrKey{sl, rc, l, rr}]
 		if len(ks) > 1 {
 			return true
 		}
 		for _, k := range ks {
-			if elemAmb(sl, l, k, rr) {
+			if elemAmb(sl, rc, l, k, rr) {
 				return true
 			}
 		}
 		return false
 	}
-	symAmb = func(nt, l, rr int) bool {
-		id := nodeID{sl: -1, nt: nt, l: l, r: rr}
+	symAmb = func(nt, rc, l, rr int) bool {
+		id := nodeID{sl: -1, nt: nt, rc: rc, l: l, r: rr}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
 		packs := 0
 		for _, sl := range ntComplete[nt] {
-			packs += len(r.index[bsrKey{sl, l, rr}])
+			packs += len(r.index[bsrKey{sl, rc, l, rr}])
 		}
 		if packs > 1 {
 			return true
 		}
 		for _, sl := range ntComplete[nt] {
-			for _, k := range r.index[bsrKey{sl, l, rr}] {
-				if elemAmb(sl, l, k, rr) {
+			for _, k := range r.index[bsrKey{sl, rc, l, rr}] {
+				if elemAmb(sl, rc, l, k, rr) {
 					return true
 				}
 			}
 		}
 		return false
 	}
-	return symAmb(gStart, 0, r.n)
+	return symAmb(gStart, 0, 0, r.n)
 }
 
 // Tree extracts a single parse tree (first element at each extent), or nil if
@@ -813,31 +840,31 @@ func (r *Result) Tree() *ParseTree {
 		return nil
 	}
 	for _, sl := range ntComplete[gStart] {
-		if ks := r.index[bsrKey{sl, 0, r.n}]; len(ks) > 0 {
+		if ks := r.index[bsrKey{sl, 0, 0, r.n}]; len(ks) > 0 {
 			var kids []*ParseTree
-			r.collectElem(sl, 0, ks[0], r.n, &kids, map[nodeID]bool{})
+			r.collectElem(sl, 0, 0, ks[0], r.n, &kids, map[nodeID]bool{})
 			return &ParseTree{Rule: qNTs[gStart].ruleName, Start: 0, End: r.n, Children: kids}
 		}
 	}
 	return nil
 }
 
-func (r *Result) collectElem(sl, l, k, rr int, out *[]*ParseTree, visited map[nodeID]bool) {
+func (r *Result) collectElem(sl, rc, l, k, rr int, out *[]*ParseTree, visited map[nodeID]bool) {
 	si := slotInfo[sl]
 	prod := qNTs[si.nt].alts[si.alt]
 	switch {
 	case si.dot == 1:
 	case si.dot == 2:
-		r.collectChild(prod[0], l, k, out, visited)
+		r.collectChild(si.nt, prod[0], rc, l, k, out, visited)
 	default:
-		if ks := r.index[bsrKey{sl - 1, l, k}]; len(ks) > 0 {
-			r.collectElem(sl-1, l, ks[0], k, out, visited)
+		if ks := r.index[bsrKey{sl - 1, rc, l, k}]; len(ks) > 0 {
+			r.collectElem(sl-1, rc, l, ks[0], k, out, visited)
 		}
 	}
-	r.collectChild(prod[si.dot-1], k, rr, out, visited)
+	r.collectChild(si.nt, prod[si.dot-1], rc, k, rr, out, visited)
 }
 
-func (r *Result) collectChild(s qSym, a, b int, out *[]*ParseTree, visited map[nodeID]bool) {
+func (r *Result) collectChild(parent int, s qSym, rc, a, b int, out *[]*ParseTree, visited map[nodeID]bool) {
 	if s.kind != kNT {
 		if s.kind == kEps {
 			return
@@ -845,19 +872,20 @@ func (r *Result) collectChild(s qSym, a, b int, out *[]*ParseTree, visited map[n
 		*out = append(*out, &ParseTree{Start: a, End: b})
 		return
 	}
-	id := nodeID{sl: -1, nt: s.nt, l: a, r: b}
+	rc = childRC(parent, s.nt, rc)
+	id := nodeID{sl: -1, nt: s.nt, rc: rc, l: a, r: b}
 	if visited[id] {
 		return
 	}
 	visited[id] = true
 	for _, sl := range ntComplete[s.nt] {
-		if ks := r.index[bsrKey{sl, a, b}]; len(ks) > 0 {
+		if ks := r.index[bsrKey{sl, rc, a, b}]; len(ks) > 0 {
 			if qNTs[s.nt].isRule {
 				var kids []*ParseTree
-				r.collectElem(sl, a, ks[0], b, &kids, visited)
+				r.collectElem(sl, rc, a, ks[0], b, &kids, visited)
 				*out = append(*out, &ParseTree{Rule: qNTs[s.nt].ruleName, Start: a, End: b, Children: kids})
 			} else {
-				r.collectElem(sl, a, ks[0], b, out, visited)
+				r.collectElem(sl, rc, a, ks[0], b, out, visited)
 			}
 			visited[id] = false
 			return
-- 
2.43.0


From 11447bee29da8a4a75aad9561216447d88710314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:56 +0000
Subject: [PATCH 09/46] fix: generated parsers did not compile for symbols that
 match nothing

A prose-val or a num-val series outside Unicode left j undefined, and a reference
to a rule that derives nothing left v unused.
---
 codegen.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/codegen.go b/codegen.go
index f984c2c..816125f 100644
--- a/codegen.go
+++ b/codegen.go
@@ -169,8 +169,12 @@ func (c *codegen) emitProcess(b *strings.Builder) {
 }
 
 func (c *codegen) emitCall(b *strings.Builder, s sInfo, callee, retID int) {
-	fmt.Fprintf(b, "\t\t\tv := p.create(%d, u, i, rc)\n", retID)
 	ci := c.sg.nts[callee]
+	if len(ci.alts) == 0 {
+		b.WriteString("\t\t\treturn // derives nothing\n")
+		return
+	}
+	fmt.Fprintf(b, "\t\t\tv := p.create(%d, u, i, rc)\n", retID)
 	if ci.isRep {
 		if callee == s.nt {
 			// self-recursion inside the rep's own loop: continue the chain.
@@ -208,17 +212,21 @@ func (c *codegen) emitTerminal(b *strings.Builder, sym ssym, nextID int) {
 		fmt.Fprintf(b, "\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 		return
 	}
-	c.emitMatch(b, sym) // sets j or returns on failure
+	if !c.emitMatch(b, sym) { // sets j or returns on failure
+		b.WriteString("\t\t\treturn // matches no input\n")
+		return
+	}
 	fmt.Fprintf(b, "\t\t\tp.record(%d, rc, u.pos, i, j)\n", nextID)
 	fmt.Fprintf(b, "\t\t\ti = j\n\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 }
 
 // emitMatch emits inline code setting j to the end index on success or return on
-// failure.
-func (c *codegen) emitMatch(b *strings.Builder, s ssym) {
+// failure. It emits nothing and reports false for a terminal that can never match.
+func (c *codegen) emitMatch(b *strings.Builder, s ssym) bool {
 	switch v := s.term.(type) {
 	case ElemCharVal:
 		c.emitCharVal(b, v)
+		return true
 	case ElemNumVal:
 		switch v.Status {
 		case StatRange:
@@ -229,14 +237,12 @@ func (c *codegen) emitMatch(b *strings.Builder, s ssym) {
 			b.WriteString("\t\t\tif rv == utf8.RuneError && rs == 1 {\n\t\t\t\treturn\n\t\t\t}\n")
 			fmt.Fprintf(b, "\t\t\tif rv < %d || rv > %d {\n\t\t\t\treturn\n\t\t\t}\n", lo, hi)
 			b.WriteString("\t\t\tj := i + rs\n")
+			return true
 		case StatSeries:
-			c.emitSeries(b, v)
-		default:
-			b.WriteString("\t\t\treturn\n")
+			return c.emitSeries(b, v)
 		}
-	default: // prose-val: never matches
-		b.WriteString("\t\t\treturn\n")
 	}
+	return false // prose-val and anything else never matches
 }
 
 func (c *codegen) emitCharVal(b *strings.Builder, v ElemCharVal) {
@@ -276,19 +282,19 @@ func (c *codegen) emitCharVal(b *strings.Builder, v ElemCharVal) {
 	}
 }
 
-func (c *codegen) emitSeries(b *strings.Builder, v ElemNumVal) {
+func (c *codegen) emitSeries(b *strings.Builder, v ElemNumVal) bool {
 	var sb strings.Builder
 	for _, e := range v.Elems {
 		r := numvalToRune(e, v.Base)
 		if !utf8.ValidRune(r) {
-			b.WriteString("\t\t\treturn // series contains a non-Unicode value\n")
-			return
+			return false // non-Unicode value
 		}
 		sb.WriteRune(r)
 	}
 	idx := c.seriesVar([]byte(sb.String()))
 	fmt.Fprintf(b, "\t\t\tif i+len(series%d) > len(p.input) || !bytesEqual(p.input[i:i+len(series%d)], series%d) {\n\t\t\t\treturn\n\t\t\t}\n", idx, idx, idx)
 	fmt.Fprintf(b, "\t\t\tj := i + len(series%d)\n", idx)
+	return true
 }
 
 func (c *codegen) seriesVar(bs []byte) int {
-- 
2.43.0


From f21c4cb139bdf2111949caef461e2b420f8e741b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:06 +0000
Subject: [PATCH 10/46] fix: BSR and generated trees held a leaf for the empty
 string

Tree is documented to match Forest.Tree, which has none.
---
 bsr.go     | 4 ++--
 codegen.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bsr.go b/bsr.go
index 6cbf73a..724435a 100644
--- a/bsr.go
+++ b/bsr.go
@@ -537,8 +537,8 @@ func (f *BSRForest) collectElem(sl slot, rc, l, k, r int, out *[]*ParseTree, vis
 
 func (f *BSRForest) collectChild(sl slot, s ssym, rc, a, b int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
 	if s.kind != symNonterm {
-		if s.kind == symEps {
-			return // epsilon contributes no leaf
+		if s.kind == symEps || a == b {
+			return // what consumes nothing contributes no leaf
 		}
 		*out = append(*out, &ParseTree{Start: a, End: b})
 		return
diff --git a/codegen.go b/codegen.go
index 816125f..c32a880 100644
--- a/codegen.go
+++ b/codegen.go
@@ -872,7 +872,7 @@ func (r *Result) collectElem(sl, rc, l, k, rr int, out *[]*ParseTree, visited ma
 
 func (r *Result) collectChild(parent int, s qSym, rc, a, b int, out *[]*ParseTree, visited map[nodeID]bool) {
 	if s.kind != kNT {
-		if s.kind == kEps {
+		if s.kind == kEps || a == b {
 			return
 		}
 		*out = append(*out, &ParseTree{Start: a, End: b})
-- 
2.43.0


From 2db88b4945e39aaa0fbb78d03f6b880a6de1bc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:00 +0000
Subject: [PATCH 11/46] fix: generated parsers did not compile for strings with
 control characters

---
 codegen.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/codegen.go b/codegen.go
index c32a880..1362200 100644
--- a/codegen.go
+++ b/codegen.go
@@ -5,6 +5,7 @@ import (
 	"go/format"
 	"strconv"
 	"strings"
+	"unicode"
 	"unicode/utf8"
 )
 
@@ -408,7 +409,7 @@ func (c *codegen) slotComment(s sInfo) string {
 	if s.dot == len(prod) {
 		parts = append(parts, ".")
 	}
-	return strings.TrimSpace(name+" ::= "+strings.Join(parts, " ")) +
+	return sanitizeComment(strings.TrimSpace(name+" ::= "+strings.Join(parts, " "))) +
 		fmt.Sprintf("  (%d,%d,%d)", s.nt, s.alt, s.dot)
 }
 
@@ -427,7 +428,7 @@ func symStr(sg *slotGrammar, s ssym) string {
 		return "eps"
 	default:
 		if s.term != nil {
-			return sanitizeComment(s.term.String())
+			return s.term.String()
 		}
 		return "?"
 	}
@@ -435,9 +436,12 @@ func symStr(sg *slotGrammar, s ssym) string {
 
 func sanitizeComment(s string) string {
 	s = strings.ReplaceAll(s, "*/", "* /")
-	s = strings.ReplaceAll(s, "\r", " ")
-	s = strings.ReplaceAll(s, "\n", " ")
-	return s
+	return strings.Map(func(r rune) rune {
+		if !unicode.IsPrint(r) {
+			return ' '
+		}
+		return r
+	}, s)
 }
 
 func foldByte(b byte) byte {
-- 
2.43.0


From 8e809f11deb4854533c5c11a8e9e7cef98141786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:01 +0000
Subject: [PATCH 12/46] fix: generated parsers lost an ErrTooLarge raised by
 the last step

---
 codegen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codegen.go b/codegen.go
index 1362200..5850928 100644
--- a/codegen.go
+++ b/codegen.go
@@ -923,6 +923,9 @@ func Parse(input []byte) (*Result, error) {
 		p.work = p.work[:len(p.work)-1]
 		p.process(d)
 	}
+	if p.aborted {
+		return nil, ErrTooLarge
+	}
 	return &Result{input: input, set: p.set, n: len(input)}, nil
 }
 `
-- 
2.43.0


From 078f5df7119c82b228314d19b86714279702feff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:00 +0000
Subject: [PATCH 13/46] fix: a comment holding "=/" turned a definition into an
 incremental one

---
 grammar.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index 22400d5..3c594fd 100644
--- a/grammar.go
+++ b/grammar.go
@@ -202,9 +202,11 @@ func (e *feval) rule(t *ParseTree) (*Rule, string, error) {
 	if nameNode == nil || defNode == nil || elemsNode == nil {
 		return nil, "", ErrNoSolutionFound
 	}
+	// The operator is the only terminal of defined-as that is not part of a
+	// (possibly commented) c-wsp.
 	definedAs := "="
-	if strings.Contains(e.span(defNode), "=/") {
-		definedAs = "=/"
+	if op := ptFirst(defNode, ""); op != nil {
+		definedAs = e.span(op)
 	}
 	altNode := ptFirst(elemsNode, "alternation")
 	if altNode == nil {
-- 
2.43.0


From 0236c16efcd35427ed97cc27782dd064ea44113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:11 +0000
Subject: [PATCH 14/46] fix: a core rule could be redefined twice

---
 grammar.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index 3c594fd..eee88bf 100644
--- a/grammar.go
+++ b/grammar.go
@@ -175,7 +175,8 @@ func (e *feval) rulelist(t *ParseTree) (*Grammar, error) {
 				if !e.o.redefineCore {
 					return nil, &ErrCoreRuleModify{CoreRulename: rl.Name}
 				}
-			} else if GetRule(rl.Name, mp) != nil {
+			}
+			if getRuleIn(rl.Name, mp) != nil {
 				return nil, &ErrDuplicatedRule{Rulename: rl.Name}
 			}
 			mp[rl.Name] = rl
-- 
2.43.0


From 7ef3ad8d218e33acecc47cf4eb8e16ad7135fdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:21 +0000
Subject: [PATCH 15/46] fix: extending a core rule changed it for every grammar

---
 grammar.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/grammar.go b/grammar.go
index eee88bf..772f8a0 100644
--- a/grammar.go
+++ b/grammar.go
@@ -189,6 +189,12 @@ func (e *feval) rulelist(t *ParseTree) (*Grammar, error) {
 			if rule == nil {
 				return nil, &ErrRuleNotFound{Rulename: rl.Name}
 			}
+			if getRuleIn(rl.Name, mp) == nil {
+				// Extend a copy: the core rules are shared by every grammar.
+				rule = &Rule{Name: rule.Name, Alternation: Alternation{
+					Concatenations: slices.Clone(rule.Alternation.Concatenations),
+				}}
+			}
 			rule.Alternation.Concatenations = append(rule.Alternation.Concatenations, rl.Alternation.Concatenations...)
 			mp[rule.Name] = rule
 		}
-- 
2.43.0


From bdee23d952e733a358094e60ef1a671fa1e84479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:24 +0000
Subject: [PATCH 16/46] fix: ParseError pointed before text that had been
 matched

---
 sppf.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/sppf.go b/sppf.go
index a743e4b..7e57775 100644
--- a/sppf.go
+++ b/sppf.go
@@ -311,9 +311,9 @@ type gllParser struct {
 	maxNodes int
 	aborted  bool
 
-	// Furthest-failure diagnostics: maxPos is the deepest input offset at which
-	// a terminal match was attempted and failed; expected collects the terminals
-	// that could have been consumed there (deduplicated via expectedSeen). They
+	// Furthest-failure diagnostics: maxPos is the deepest input offset the
+	// parse reached; expected collects the terminals that were tried there and
+	// failed (deduplicated via expectedSeen). They
 	// drive ParseError when the parse has no solution.
 	maxPos       int
 	expected     []string
@@ -549,6 +549,7 @@ func (p *gllParser) process(d descriptor) {
 			p.noteFail(i, s)
 			return
 		}
+		p.reach(j)
 		cR := p.getNodeT(i, j)
 		next := slot{L.nt, L.alt, L.dot + 1}
 		w = p.getNodeP(next, w, cR, rc)
@@ -557,16 +558,22 @@ func (p *gllParser) process(d descriptor) {
 	}
 }
 
-// noteFail records that a terminal match failed at input offset i. It maintains
-// the furthest such offset and, for that offset only, the set of terminals that
-// could have been consumed -- the classic "furthest-failure" position used to
-// report where parsing got stuck.
-func (p *gllParser) noteFail(i int, s ssym) {
+// reach records that the parse got to input offset i. Expected terminals are
+// only kept for the furthest offset.
+func (p *gllParser) reach(i int) {
 	if i > p.maxPos {
 		p.maxPos = i
 		p.expected = p.expected[:0]
 		p.expectedSeen = nil
 	}
+}
+
+// noteFail records that a terminal match failed at input offset i. For the
+// furthest offset reached it collects the set of terminals that could have been
+// consumed -- the classic "furthest-failure" position used to report where
+// parsing got stuck.
+func (p *gllParser) noteFail(i int, s ssym) {
+	p.reach(i)
 	if i != p.maxPos {
 		return
 	}
-- 
2.43.0


From 508f667dcd6610a0bc7a8494880fc2b5e1ca3b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:54 +0000
Subject: [PATCH 17/46] fix: Regex let a range of surrogates match U+FFFD

---
 regex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/regex.go b/regex.go
index b3d49b2..b11629b 100644
--- a/regex.go
+++ b/regex.go
@@ -177,6 +177,10 @@ func (b *reBuilder) elem(e ElemItf) reNode {
 			if lo > utf8.MaxRune || lo > hi {
 				return reNeverV
 			}
+			// So does one holding surrogates only: they are no characters.
+			if lo >= 0xD800 && hi <= 0xDFFF {
+				return reNeverV
+			}
 			return &reClass{ranges: []reRange{{lo, hi}}}
 		default: // StatSeries is a CONCATENATION of values (a fixed sequence).
 			parts := make([]reNode, 0, len(v.Elems))
-- 
2.43.0


From 9d242339ce1f8ce115fa8134e733d3d0df5fef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:17 +0000
Subject: [PATCH 18/46] fix: a deflated num-val series became alternatives
 instead of a chain

---
 transition_graph.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/transition_graph.go b/transition_graph.go
index 12b74d8..a7209af 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -1382,14 +1382,19 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 			if err := m.reserve(len(v.Elems)); err != nil {
 				return nil, nil, err
 			}
-			for _, s := range v.Elems {
+			// A series is the concatenation of its values
+			for i, s := range v.Elems {
 				n := newNode(ElemNumVal{
 					Base:   v.Base,
 					Status: StatSeries,
 					Elems:  []string{s},
 				})
-				entrypoints = append(entrypoints, n)
-				endpoints = append(endpoints, n)
+				if i == 0 {
+					entrypoints = []*Node{n}
+				} else {
+					endpoints[0].Nexts = append(endpoints[0].Nexts, n)
+				}
+				endpoints = []*Node{n}
 			}
 		}
 		return
-- 
2.43.0


From 6b3afdd37ddacbedc36900d9dafc9305c7face1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:59 +0000
Subject: [PATCH 19/46] fix: ToMermaid took quadratic time in the number of
 edges

---
 transition_graph.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/transition_graph.go b/transition_graph.go
index a7209af..d841b6d 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -1474,7 +1474,8 @@ func (tg *TransitionGraph) ToMermaid() string {
 	}
 
 	// Write them all
-	str := "flowchart LR\n    classDef entrypoint fill:#479abf\n\n"
+	var str strings.Builder
+	str.WriteString("flowchart LR\n    classDef entrypoint fill:#479abf\n\n")
 	for _, node := range mp {
 		// Write down the node
 		nodeStr := "    " + node.ID
@@ -1484,25 +1485,25 @@ func (tg *TransitionGraph) ToMermaid() string {
 		} else {
 			nodeStr += "[\"" + elemStr + "\"]"
 		}
-		str += nodeStr
+		str.WriteString(nodeStr)
 		if slices.Contains(tg.Entrypoints, node) {
-			str += ":::entrypoint"
+			str.WriteString(":::entrypoint")
 		}
-		str += "\n"
+		str.WriteString("\n")
 
 		// Write down its links
 		for _, next := range node.Nexts {
-			str += fmt.Sprintf("    %s --> %s\n", node.ID, next.ID)
+			fmt.Fprintf(&str, "    %s --> %s\n", node.ID, next.ID)
 		}
-		str += "\n"
+		str.WriteString("\n")
 	}
 
 	// Don't forget the empty node
 	if slices.Contains(tg.Entrypoints, emptyNode) {
-		str += "    emptyNode(((\u2205))):::entrypoint\n"
+		str.WriteString("    emptyNode(((\u2205))):::entrypoint\n")
 	}
 
-	return str
+	return str.String()
 }
 
 func mapNodes(mp map[string]*Node, node *Node) {
-- 
2.43.0


From 05645c0336d9aa519bfa8a716d2118a750f06c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:31 +0000
Subject: [PATCH 20/46] fix: graphs and productions held num-vals that no text
 can match

---
 transition_graph.go | 45 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/transition_graph.go b/transition_graph.go
index d841b6d..23c2cb7 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -927,16 +927,50 @@ func nodeEmit(node *Node, tpos int32) (prod []byte, vtotal int32) {
 			if max > utf8.MaxRune {
 				max = utf8.MaxRune
 			}
+			// Surrogates are no characters: step over them.
+			if min >= surrogateMin && min <= surrogateMax {
+				min = surrogateMax + 1
+			}
+			if max >= surrogateMin && max <= surrogateMax {
+				max = surrogateMin - 1
+			}
 			if min > utf8.MaxRune || min > max {
 				return nil, 1 // no representable character in this range
 			}
-			r := rune(min + tpos)
-			return []byte(string(r)), max - min + 1
+			r, vtotal := rune(min+tpos), max-min+1
+			if min < surrogateMin && max > surrogateMax {
+				vtotal -= surrogateMax - surrogateMin + 1
+				if r >= surrogateMin {
+					r += surrogateMax - surrogateMin + 1
+				}
+			}
+			return []byte(string(r)), vtotal
 		}
 	}
 	return nil, 1
 }
 
+// Bounds of the UTF-16 surrogates, the code points that are no characters.
+const (
+	surrogateMin = 0xD800
+	surrogateMax = 0xDFFF
+)
+
+// representable reports whether some UTF-8 text matches the num-val. None does
+// for values above U+10FFFF, surrogates, and ranges holding nothing else.
+func representable(v ElemNumVal) bool {
+	if v.Status == StatRange {
+		min, max := numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base)
+		return min <= max && min <= utf8.MaxRune && !(min >= surrogateMin && max <= surrogateMax)
+	}
+	for _, elem := range v.Elems {
+		if !utf8.ValidRune(numvalToRune(elem, v.Base)) {
+			return false
+		}
+	}
+	return true
+}
+
 type tgmachine struct {
 	options *tgoptions
 	grammar *Grammar
@@ -1343,6 +1377,10 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 		return
 
 	case ElemNumVal:
+		// A num-val no text can match contributes no node
+		if !representable(v) {
+			return
+		}
 		if !m.options.deflateNumVals {
 			if err := m.reserve(1); err != nil {
 				return nil, nil, err
@@ -1369,6 +1407,9 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 				return nil, nil, err
 			}
 			for i := min; i <= max; i++ {
+				if !utf8.ValidRune(i) {
+					continue // surrogates are no characters
+				}
 				n := newNode(ElemNumVal{
 					Base:   v.Base,
 					Status: StatSeries,
-- 
2.43.0


From 41fb8f1ec9c5267745694c52a936a01bd7228fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:31 +0000
Subject: [PATCH 21/46] fix: cloning a graph turned unreachable endpoints into
 the empty node

---
 transition_graph.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transition_graph.go b/transition_graph.go
index 23c2cb7..3f44628 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -1259,7 +1259,10 @@ func cloneTransitionGraph(i, o []*Node) (entrypoints []*Node, endpoints []*Node)
 			endpoints = append(endpoints, emptyNode)
 			continue
 		}
-		endpoints = append(endpoints, originToNewNodes[vo.ID].cloned)
+		// An endpoint that no entrypoint reaches has not been cloned
+		if cnode, ok := originToNewNodes[vo.ID]; ok {
+			endpoints = append(endpoints, cnode.cloned)
+		}
 	}
 	return
 }
-- 
2.43.0


From 39a035e77f8ed98511b2e92a94fdca70e777c5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:38 +0000
Subject: [PATCH 22/46] fix: the compact reader returned nil, the end mark, for
 the empty production

---
 transition_graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transition_graph.go b/transition_graph.go
index 3f44628..67ab1e1 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -799,7 +799,7 @@ func (tgr *TransitionGraphReader) buildCompact() {
 		for id, c := range claimed {
 			nextVal[id] += c
 		}
-		var bs []byte
+		bs := []byte{} // not nil, which stands for the end
 		for p, n := range w {
 			b, _ := nodeEmit(n, va[p])
 			bs = append(bs, b...)
-- 
2.43.0


From 474a04e7da8ba474c65069f08995d87ae7cbbacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:53 +0000
Subject: [PATCH 23/46] fix: a generator over a graph that admits no text
 produced the empty text

---
 fuzz.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fuzz.go b/fuzz.go
index e8d79ff..b8e661b 100644
--- a/fuzz.go
+++ b/fuzz.go
@@ -178,7 +178,9 @@ func WithStableAddressing() GenOption {
 // references other rules -- because an unexpanded rule node carries no bytes and
 // could not be turned into a valid production. It returns an error naming the
 // first such node otherwise. (Recursive rules cannot be expanded at all; in that
-// case TransitionGraph itself returns ErrCyclicRule before reaching here.)
+// case TransitionGraph itself returns ErrCyclicRule before reaching here.) It
+// also returns an error for a graph that admits no text at all, as no tape could
+// then be mapped to a valid production.
 func NewGenerator(tg *TransitionGraph, opts ...GenOption) (*Generator, error) {
 	g := &Generator{
 		tg:        tg,
@@ -253,6 +255,9 @@ func NewGenerator(tg *TransitionGraph, opts ...GenOption) (*Generator, error) {
 			g.entries = append(g.entries, e)
 		}
 	}
+	if len(g.entries) == 0 {
+		return nil, fmt.Errorf("rule %s admits no text, there is nothing to generate", tg.rulename)
+	}
 	return g, nil
 }
 
-- 
2.43.0


From a079be2459178f98ec2adbcf7684a675b60107b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:02 +0000
Subject: [PATCH 24/46] fix: near misses next to the surrogates held U+FFFD
 under the label of a boundary

---
 fuzz.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fuzz.go b/fuzz.go
index b8e661b..f30acc6 100644
--- a/fuzz.go
+++ b/fuzz.go
@@ -449,7 +449,8 @@ func (g *Generator) nearMissCandidates(src source, base []byte, trace []traceSeg
 			{rune(nv.min - 1), "below"},
 			{rune(nv.max + 1), "above"},
 		} {
-			if b.r < 0 || b.r > 0x10FFFF {
+			if !utf8.ValidRune(b.r) {
+				// no text holds it, string(b.r) would be U+FFFD
 				continue
 			}
 			cand := cloneBytes(base)
-- 
2.43.0


From 4c2f300b429a285fe7fc0b49ae425e39fea0b654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:12 +0000
Subject: [PATCH 25/46] fix: ExpectedNext mixed the octets of distinct
 characters of a range

---
 fuzz.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/fuzz.go b/fuzz.go
index f30acc6..09d7f24 100644
--- a/fuzz.go
+++ b/fuzz.go
@@ -563,7 +563,7 @@ func (s octetSet) bytes() []byte {
 
 // emission is one fixed-length alternative of a node's output: pos[j] is the set
 // of octets the node may emit at byte offset j. A node usually has exactly one
-// emission; a num-val range that spans several UTF-8 lengths has one per length.
+// emission; a multi-byte num-val range has one per distinct leading octets.
 type emission struct {
 	pos []octetSet
 }
@@ -654,21 +654,26 @@ func nodeEmissions(n *Node) ([]emission, bool) {
 			if max-min+1 > expectedNextRangeCap {
 				return nil, false
 			}
-			byLen := map[int]*emission{}
+			// Only the last octet is free given the ones before it: two characters
+			// of the same length do not mix (e.g. U+00BF and U+0100 do not make
+			// U+013F), so there is one emission per leading octets.
+			var out []emission
+			lead := ""
 			for r := min; r <= max; r++ {
-				bs := []byte(string(rune(r)))
-				e := byLen[len(bs)]
-				if e == nil {
-					e = &emission{pos: make([]octetSet, len(bs))}
-					byLen[len(bs)] = e
+				if !utf8.ValidRune(rune(r)) {
+					continue // a surrogate never appears in UTF-8 input
 				}
-				for j, b := range bs {
-					e.pos[j].add(b)
+				bs := []byte(string(rune(r)))
+				last := len(bs) - 1
+				if len(out) == 0 || len(out[len(out)-1].pos) != len(bs) || string(bs[:last]) != lead {
+					lead = string(bs[:last])
+					e := emission{pos: make([]octetSet, len(bs))}
+					for j, b := range bs[:last] {
+						e.pos[j].add(b)
+					}
+					out = append(out, e)
 				}
-			}
-			out := make([]emission, 0, len(byLen))
-			for _, e := range byLen {
-				out = append(out, *e)
+				out[len(out)-1].pos[last].add(bs[last])
 			}
 			return out, true
 		}
-- 
2.43.0


From f7553661c3a5116021c42c68e8b88fc0e721b0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:23 +0000
Subject: [PATCH 26/46] fix: ExpectedNext announced octets that lead to no word

---
 fuzz.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fuzz.go b/fuzz.go
index 09d7f24..36e1820 100644
--- a/fuzz.go
+++ b/fuzz.go
@@ -712,7 +712,7 @@ func (g *Generator) ExpectedNext(prefix []byte) (next []byte, accepts bool, ok b
 		return true
 	}
 	for _, e := range g.tg.Entrypoints {
-		if e == emptyNode {
+		if e == emptyNode || !g.canReach[tgNodeID(e)] {
 			continue
 		}
 		if !start(e) {
@@ -743,7 +743,8 @@ func (g *Generator) ExpectedNext(prefix []byte) (next []byte, accepts bool, ok b
 					lastCompletedEndpoint = true
 				}
 				for _, m := range s.n.Nexts {
-					if m == emptyNode {
+					// a node from which no endpoint is reachable leads to no word
+					if m == emptyNode || !g.canReach[tgNodeID(m)] {
 						continue
 					}
 					ems2, o := g.emissions(m)
-- 
2.43.0


From 9e7cdfbb9dc3367c88667005ddd08e9acb1a1340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:28 +0000
Subject: [PATCH 27/46] fix: ASTGenerator produced texts the grammar does not
 admit out of what matches nothing

---
 ast.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/ast.go b/ast.go
index 5b5adc6..d4e1de9 100644
--- a/ast.go
+++ b/ast.go
@@ -190,7 +190,14 @@ func (ag *ASTGenerator) over(out *[]byte, depth int) bool {
 }
 
 func (ag *ASTGenerator) genAlt(src source, out *[]byte, alt Alternation, depth int) {
-	cs := alt.Concatenations
+	// Only pick among what can be generated: a productive rule may hold
+	// alternatives that are not (e.g. a prose-val).
+	cs := make([]Concatenation, 0, len(alt.Concatenations))
+	for _, c := range alt.Concatenations {
+		if ag.costConcat(c) < astUnbounded {
+			cs = append(cs, c)
+		}
+	}
 	if len(cs) == 0 {
 		return
 	}
@@ -212,7 +219,10 @@ func (ag *ASTGenerator) genConcat(src source, out *[]byte, concat Concatenation,
 func (ag *ASTGenerator) genRep(src source, out *[]byte, rep Repetition, depth int) {
 	lo := rep.Min
 	hi := rep.Max
-	if hi == inf || hi < lo { // unbounded: cap the optional unrolling
+	if ag.costElem(rep.Element) >= astUnbounded {
+		return // cannot be generated, hence is not mandatory: skip it
+	}
+	if hi == inf { // unbounded: cap the optional unrolling
 		hi = lo + ag.maxRepeat
 	}
 	n := lo
@@ -239,7 +249,7 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 		ag.genAlt(src, out, e.Alternation, depth)
 
 	case ElemOption:
-		if !ag.over(out, depth) && src.intn(2) == 1 {
+		if ag.costAlt(e.Alternation) < astUnbounded && !ag.over(out, depth) && src.intn(2) == 1 {
 			ag.genAlt(src, out, e.Alternation, depth)
 		}
 
@@ -279,7 +289,8 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 		}
 
 	case ElemProseVal:
-		// prose-val is informal text; nothing mechanical to emit.
+		// prose-val is informal text; nothing mechanical to emit, so it is never
+		// picked (see costElem).
 	}
 }
 
@@ -313,6 +324,9 @@ func (ag *ASTGenerator) costAlt(alt Alternation) int {
 func (ag *ASTGenerator) costConcat(concat Concatenation) int {
 	total := 0
 	for _, rep := range concat.Repetitions {
+		if rep.Max != inf && rep.Min > rep.Max {
+			return astUnbounded // no number of occurrences fits
+		}
 		total = addClamp(total, mulClamp(rep.Min, ag.costElem(rep.Element)))
 	}
 	return total
@@ -340,6 +354,9 @@ func (ag *ASTGenerator) costElem(elem ElemItf) int {
 	case ElemCharVal:
 		return len(string(e.Values))
 	case ElemNumVal:
+		if !representable(e) {
+			return astUnbounded // no text matches it
+		}
 		switch e.Status {
 		case StatSeries:
 			n := 0
@@ -351,7 +368,7 @@ func (ag *ASTGenerator) costElem(elem ElemItf) int {
 			return len(string(numvalToRune(e.Elems[0], e.Base)))
 		}
 	case ElemProseVal:
-		return 0
+		return astUnbounded // informal text, nothing mechanical to emit
 	}
 	return 0
 }
-- 
2.43.0


From 9e62cea0643fb9a5d17690162e1bb58984760a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:31 +0000
Subject: [PATCH 28/46] fix: ASTGenerator produced U+FFFD for the surrogates of
 a range

---
 ast.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index d4e1de9..de03555 100644
--- a/ast.go
+++ b/ast.go
@@ -285,7 +285,17 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 			if span < 1 {
 				span = 1
 			}
-			*out = append(*out, []byte(string(min+rune(src.intn(span))))...)
+			r := min + rune(src.intn(span))
+			if r >= surrogateMin && r <= surrogateMax {
+				// No text holds a surrogate, take the closest character of the
+				// range.
+				if max > surrogateMax {
+					r = surrogateMax + 1
+				} else {
+					r = surrogateMin - 1
+				}
+			}
+			*out = append(*out, []byte(string(r))...)
 		}
 
 	case ElemProseVal:
-- 
2.43.0


From 4c4bae3bb0df5af48fe4861d5f13f211b31ba580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:15 +0000
Subject: [PATCH 29/46] fix: ASTGenerator took exponential time on recursions
 that emit nothing

---
 ast.go | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/ast.go b/ast.go
index de03555..f0b4cb9 100644
--- a/ast.go
+++ b/ast.go
@@ -22,6 +22,11 @@ import (
 
 const astUnbounded = 1 << 30 // "infinite" min-length sentinel (non-productive)
 
+// astMaxExpansions bounds the elements expanded per production before
+// steering to terminate: expansions that emit nothing never exhaust the length
+// budget, and their number is exponential in the depth one (e.g. a = a a / "").
+const astMaxExpansions = 1 << 16
+
 // ASTGenerator generates strings admitted by a (possibly recursive) grammar
 // rule, directly from the AST.
 type ASTGenerator struct {
@@ -177,19 +182,25 @@ func (ag *ASTGenerator) GenerateRand(r *rand.Rand) []byte {
 	return ag.walk(randSource{r: r})
 }
 
+// astOutput is a production in progress.
+type astOutput struct {
+	text       []byte
+	expansions int // elements expanded so far
+}
+
 func (ag *ASTGenerator) walk(src source) []byte {
-	out := []byte{}
-	ag.genAlt(src, &out, ag.start.Alternation, 0)
-	return out
+	out := &astOutput{text: []byte{}}
+	ag.genAlt(src, out, ag.start.Alternation, 0)
+	return out.text
 }
 
 // over reports whether we should stop taking expansions for their own sake and
 // steer toward the nearest terminal string.
-func (ag *ASTGenerator) over(out *[]byte, depth int) bool {
-	return depth >= ag.maxDepth || len(*out) >= ag.maxLen
+func (ag *ASTGenerator) over(out *astOutput, depth int) bool {
+	return depth >= ag.maxDepth || len(out.text) >= ag.maxLen || out.expansions >= astMaxExpansions
 }
 
-func (ag *ASTGenerator) genAlt(src source, out *[]byte, alt Alternation, depth int) {
+func (ag *ASTGenerator) genAlt(src source, out *astOutput, alt Alternation, depth int) {
 	// Only pick among what can be generated: a productive rule may hold
 	// alternatives that are not (e.g. a prose-val).
 	cs := make([]Concatenation, 0, len(alt.Concatenations))
@@ -210,13 +221,13 @@ func (ag *ASTGenerator) genAlt(src source, out *[]byte, alt Alternation, depth i
 	ag.genConcat(src, out, cs[idx], depth)
 }
 
-func (ag *ASTGenerator) genConcat(src source, out *[]byte, concat Concatenation, depth int) {
+func (ag *ASTGenerator) genConcat(src source, out *astOutput, concat Concatenation, depth int) {
 	for _, rep := range concat.Repetitions {
 		ag.genRep(src, out, rep, depth)
 	}
 }
 
-func (ag *ASTGenerator) genRep(src source, out *[]byte, rep Repetition, depth int) {
+func (ag *ASTGenerator) genRep(src source, out *astOutput, rep Repetition, depth int) {
 	lo := rep.Min
 	hi := rep.Max
 	if ag.costElem(rep.Element) >= astUnbounded {
@@ -230,15 +241,16 @@ func (ag *ASTGenerator) genRep(src source, out *[]byte, rep Repetition, depth in
 		n = lo + src.intn(hi-lo+1)
 	}
 	for i := 0; i < n; i++ {
+		out.expansions++
 		ag.genElem(src, out, rep.Element, depth)
-		// Stop optional extras once over length, but always emit the mandatory lo.
-		if i+1 >= lo && len(*out) >= ag.maxLen {
+		// Stop optional extras once over budget, but always emit the mandatory lo.
+		if i+1 >= lo && ag.over(out, depth) {
 			break
 		}
 	}
 }
 
-func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int) {
+func (ag *ASTGenerator) genElem(src source, out *astOutput, elem ElemItf, depth int) {
 	switch e := elem.(type) {
 	case ElemRulename:
 		// Guaranteed defined+productive by NewASTGenerator.
@@ -258,7 +270,7 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 			if !e.Sensitive && isASCIILetter(r) && src.intn(2) == 1 {
 				r = flipASCIICase(r)
 			}
-			*out = append(*out, []byte(string(r))...)
+			out.text = append(out.text, []byte(string(r))...)
 		}
 
 	case ElemNumVal:
@@ -269,7 +281,7 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 				// Emit only real characters; an out-of-range value cannot appear
 				// in UTF-8 input, so the series would never match anyway.
 				if utf8.ValidRune(r) {
-					*out = append(*out, []byte(string(r))...)
+					out.text = append(out.text, []byte(string(r))...)
 				}
 			}
 		case StatRange:
@@ -295,7 +307,7 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 					r = surrogateMin - 1
 				}
 			}
-			*out = append(*out, []byte(string(r))...)
+			out.text = append(out.text, []byte(string(r))...)
 		}
 
 	case ElemProseVal:
-- 
2.43.0


From 6215a4e86305a3bf1c1fc067bf3818ee2069aea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:34 +0000
Subject: [PATCH 30/46] fix: Generate panicked on an unbounded repetition of a
 minimum above the maximum repetition

---
 generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate.go b/generate.go
index 179db93..9c37186 100644
--- a/generate.go
+++ b/generate.go
@@ -50,7 +50,7 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 	for _, rep := range cnt.Repetitions {
 		repmax := rep.Max
 		if repmax == inf {
-			repmax = options.repMax
+			repmax = max(options.repMax, rep.Min)
 		}
 		torep := rep.Min + int(rand.Int63())%(repmax-rep.Min+1)
 		for i := 0; generateKeepGoing(i, torep, rep.Min, len(*out), options.threshold); i++ {
-- 
2.43.0


From b2099eb79c814f52446c10a64b66897459967144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:38 +0000
Subject: [PATCH 31/46] fix: Generate crashed on, or produced texts the grammar
 does not admit out of, what can't be generated

---
 ast.go      |  63 ++++++++++++----------
 generate.go | 149 +++++++++++++++++++++++-----------------------------
 2 files changed, 101 insertions(+), 111 deletions(-)

diff --git a/ast.go b/ast.go
index f0b4cb9..0260709 100644
--- a/ast.go
+++ b/ast.go
@@ -96,35 +96,7 @@ func NewASTGenerator(g *Grammar, rule string, opts ...ASTGenOption) (*ASTGenerat
 		o.apply(ag)
 	}
 
-	// Least-fixpoint of minimum expansion cost over every rule reachable in
-	// principle -- user rules and the built-in core rules (ALPHA, DIGIT, ...),
-	// which GetRule resolves as a fallback but which are absent from Rulemap.
-	// Keyed by canonical rule name (GetRule is case-insensitive and honors user
-	// overrides of core rules). A rule stuck at the sentinel is non-productive.
-	effective := map[string]*Rule{}
-	for n := range g.Rulemap {
-		if r := GetRule(n, g.Rulemap); r != nil {
-			effective[r.Name] = r
-		}
-	}
-	for n := range coreRules {
-		if r := GetRule(n, g.Rulemap); r != nil {
-			effective[r.Name] = r
-		}
-	}
-	ag.minCost = make(map[string]int, len(effective))
-	for name := range effective {
-		ag.minCost[name] = astUnbounded
-	}
-	for changed := true; changed; {
-		changed = false
-		for name, r := range effective {
-			if c := ag.costAlt(r.Alternation); c < ag.minCost[name] {
-				ag.minCost[name] = c
-				changed = true
-			}
-		}
-	}
+	ag.setMinCosts()
 
 	// Every rule reachable from start must be defined and productive.
 	seen := map[string]bool{start.Name: true}
@@ -170,6 +142,39 @@ func NewASTGenerator(g *Grammar, rule string, opts ...ASTGenOption) (*ASTGenerat
 	return ag, nil
 }
 
+// setMinCosts computes the minimum expansion cost of every rule.
+func (ag *ASTGenerator) setMinCosts() {
+	// Least-fixpoint of minimum expansion cost over every rule reachable in
+	// principle -- user rules and the built-in core rules (ALPHA, DIGIT, ...),
+	// which GetRule resolves as a fallback but which are absent from Rulemap.
+	// Keyed by canonical rule name (GetRule is case-insensitive and honors user
+	// overrides of core rules). A rule stuck at the sentinel is non-productive.
+	effective := map[string]*Rule{}
+	for n := range ag.g.Rulemap {
+		if r := GetRule(n, ag.g.Rulemap); r != nil {
+			effective[r.Name] = r
+		}
+	}
+	for n := range coreRules {
+		if r := GetRule(n, ag.g.Rulemap); r != nil {
+			effective[r.Name] = r
+		}
+	}
+	ag.minCost = make(map[string]int, len(effective))
+	for name := range effective {
+		ag.minCost[name] = astUnbounded
+	}
+	for changed := true; changed; {
+		changed = false
+		for name, r := range effective {
+			if c := ag.costAlt(r.Alternation); c < ag.minCost[name] {
+				ag.minCost[name] = c
+				changed = true
+			}
+		}
+	}
+}
+
 // Generate maps the tape to a production the grammar admits. Total and
 // deterministic: any tape (including nil) yields a valid production; an
 // exhausted tape biases toward the shortest one.
diff --git a/generate.go b/generate.go
index 9c37186..a3b3df3 100644
--- a/generate.go
+++ b/generate.go
@@ -1,10 +1,8 @@
 package goabnf
 
 import (
-	"errors"
-	"maps"
+	"fmt"
 	"math/rand"
-	"strings"
 	"unicode/utf8"
 )
 
@@ -19,7 +17,9 @@ import (
 // It is a good capability for testing and fuzzing parsers during
 // testing, compliance, fuzzing or optimization.
 func (g *Grammar) Generate(seed int64, rulename string, opts ...GenerateOption) ([]byte, error) {
-	if err := checkCanGenerateSafely(g, rulename); err != nil {
+	costs := &ASTGenerator{g: g}
+	costs.setMinCosts()
+	if err := checkCanGenerateSafely(costs, rulename); err != nil {
 		return nil, err
 	}
 
@@ -30,6 +30,7 @@ func (g *Grammar) Generate(seed int64, rulename string, opts ...GenerateOption)
 	options := &genOpts{
 		repMax:    16,
 		threshold: 256,
+		costs:     costs,
 	}
 	for _, opt := range opts {
 		opt.apply(options)
@@ -43,11 +44,21 @@ func (g *Grammar) Generate(seed int64, rulename string, opts ...GenerateOption)
 }
 
 func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, options *genOpts) {
-	// Select any possible path in the alternation
-	cnt := alt.Concatenations[int(rand.Int63())%len(alt.Concatenations)]
+	// Select any possible path in the alternation, out of those that can be
+	// generated
+	cnts := make([]Concatenation, 0, len(alt.Concatenations))
+	for _, cnt := range alt.Concatenations {
+		if options.costs.costConcat(cnt) < astUnbounded {
+			cnts = append(cnts, cnt)
+		}
+	}
+	cnt := cnts[int(rand.Int63())%len(cnts)]
 
 	// Travel through all the repetitions
 	for _, rep := range cnt.Repetitions {
+		if options.costs.costElem(rep.Element) >= astUnbounded {
+			continue // can't be generated, thus is not mandatory
+		}
 		repmax := rep.Max
 		if repmax == inf {
 			repmax = max(options.repMax, rep.Min)
@@ -60,7 +71,7 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 				generateAlt(rand, g, out, rule.Alternation, options)
 
 			case ElemOption:
-				if (rand.Int63() % 2) == 0 {
+				if options.costs.costAlt(elem.Alternation) < astUnbounded && (rand.Int63()%2) == 0 {
 					generateAlt(rand, g, out, elem.Alternation, options)
 				}
 
@@ -102,7 +113,7 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 				}
 			}
 
-			// Prose-val is not covered, checked before to avoid generation
+			// Prose-val is not covered, never selected
 		}
 	}
 }
@@ -129,6 +140,7 @@ type GenerateOption interface {
 type genOpts struct {
 	repMax    int
 	threshold int
+	costs     *ASTGenerator
 }
 
 type repMaxOption int
@@ -155,99 +167,72 @@ func (opt thresholdOption) apply(opts *genOpts) {
 
 // checkCanGenerateSafely returns no error if the rule can be generated
 // safely i.e. if the rule can exist without infinite recursion, AND if it
-// does not contain a prose-val as it could not generate from it.
-// Factually, it checks if all involved rules have no path v such that it
-// produces a cycle (v:rule-*->rule) AND that this path is mandatory
-// (no option, no repetition with a minimum of zero).
-func checkCanGenerateSafely(g *Grammar, rulename string) error {
-	rule := GetRule(rulename, g.Rulemap)
+// does not require what can't be generated from (a prose-val, a rule that
+// does not exist, a num-val that is no character).
+func checkCanGenerateSafely(costs *ASTGenerator, rulename string) error {
+	rule := GetRule(rulename, costs.g.Rulemap)
 	if rule == nil {
 		return &ErrRuleNotFound{
 			Rulename: rulename,
 		}
 	}
-	knownRules := map[string]struct{}{
-		rulename: {},
-	}
-	if err := checkCanGenerateSafelyAlt(g, knownRules, rule.Alternation); err != nil {
-		if err, ok := err.(*ErrCyclicRule); ok {
-			return err
-		}
-		return &ErrCyclicRule{
-			Rulename: rulename,
-		}
-	}
-	return nil
-}
-
-func checkCanGenerateSafelyAlt(g *Grammar, knownRules map[string]struct{}, alt Alternation) error {
-	errs := make([]error, len(alt.Concatenations))
-	for alti, concat := range alt.Concatenations {
-		errs[alti] = checkCanGenerateSafelyConcat(g, knownRules, concat)
+	if costs.minCost[rule.Name] < astUnbounded {
+		return nil
 	}
-	allErrors := true
-	for i := 0; i < len(errs) && allErrors; i++ {
-		if errs[i] == nil {
-			allErrors = false
-		}
+	if err := costs.whyNot(map[string]struct{}{rule.Name: {}}, rule.Alternation); err != nil {
+		return err
 	}
-	if allErrors {
-		return errors.Join(errs...)
+	return &ErrCyclicRule{
+		Rulename: rulename,
 	}
-	return nil
 }
 
-func checkCanGenerateSafelyConcat(g *Grammar, knownRules map[string]struct{}, concat Concatenation) error {
-	for _, rep := range concat.Repetitions {
-		// If the repetition is not mandatory, we can escape so can
-		// generate safely.
-		if rep.Min == 0 {
-			continue
-		}
+// whyNot looks through what the alternation requires for something else than
+// a recursion that prevents generating it.
+func (ag *ASTGenerator) whyNot(knownRules map[string]struct{}, alt Alternation) error {
+	for _, concat := range alt.Concatenations {
+		for _, rep := range concat.Repetitions {
+			if rep.Max != inf && rep.Min > rep.Max {
+				return ErrRepetitionMinGtMax
+			}
+			// If the repetition is not mandatory, we can escape so can
+			// generate safely.
+			if rep.Min == 0 {
+				continue
+			}
 
-		// Deal with the repetition itself then.
-		switch elem := rep.Element.(type) {
-		case ElemRulename:
-			// Copy rules to only focus on rules that made use come here.
-			// If shared with others, the dependency graph can lead to the same rule
-			// from another path without it being a cycle, thus must be handled.
-			scopeRules := duplicateMap(knownRules)
-			for known := range scopeRules {
-				if strings.EqualFold(elem.Name, known) {
-					return &ErrCyclicRule{
-						Rulename: elem.Name,
-					}
+			switch elem := rep.Element.(type) {
+			case ElemRulename:
+				rule := GetRule(elem.Name, ag.g.Rulemap)
+				if rule == nil {
+					return &ErrDependencyNotFound{Rulename: elem.Name}
 				}
-			}
-			rule := GetRule(elem.Name, g.Rulemap)
-			scopeRules[elem.Name] = struct{}{}
-			if err := checkCanGenerateSafelyAlt(g, scopeRules, rule.Alternation); err != nil {
-				if err, ok := err.(*ErrCyclicRule); ok {
+				if _, ok := knownRules[rule.Name]; ok {
+					continue
+				}
+				knownRules[rule.Name] = struct{}{}
+				if err := ag.whyNot(knownRules, rule.Alternation); err != nil {
 					return err
 				}
-				return &ErrCyclicRule{
-					Rulename: elem.Name,
+
+			case ElemGroup:
+				if err := ag.whyNot(knownRules, elem.Alternation); err != nil {
+					return err
 				}
-			}
 
-		case ElemGroup:
-			if err := checkCanGenerateSafelyAlt(g, knownRules, elem.Alternation); err != nil {
-				return err
-			}
+			case ElemProseVal:
+				return ErrHandlingProseVal
 
-		case ElemProseVal:
-			return ErrHandlingProseVal
+			case ElemNumVal:
+				if !representable(elem) {
+					return fmt.Errorf("num-val %s matches no text", elem)
+				}
 
-			// Other types are not considered for the following reasons:
-			// - option: equivalent to rep.min==0, escapable path even if could be cyclic
-			// - num-val, char-val: termination paths, can't be cyclic
+				// Other types are not considered for the following reasons:
+				// - option: equivalent to rep.min==0, escapable path even if could be cyclic
+				// - char-val: termination path, can't be cyclic
+			}
 		}
 	}
 	return nil
 }
-
-func duplicateMap[T comparable, V any](m map[T]V) map[T]V {
-	n := make(map[T]V, len(m))
-	maps.Copy(n, m)
-	return n
-}
-- 
2.43.0


From a5fc9883b4663fb93dd1282f9a9fe6b26d3d4e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:12 +0000
Subject: [PATCH 32/46] fix: Generate overflowed the stack on recursions that
 outgrow themselves

---
 generate.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/generate.go b/generate.go
index a3b3df3..b2a6ebc 100644
--- a/generate.go
+++ b/generate.go
@@ -43,6 +43,11 @@ func (g *Grammar) Generate(seed int64, rulename string, opts ...GenerateOption)
 	return out, nil
 }
 
+// generateMaxExpansions is the number of elements expanded from which the
+// generation finishes the shortest way, as when reaching the length threshold:
+// a recursion that outgrows itself (e.g. a = a a / "") never reaches this last.
+const generateMaxExpansions = 1 << 16
+
 func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, options *genOpts) {
 	// Select any possible path in the alternation, out of those that can be
 	// generated
@@ -53,6 +58,13 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 		}
 	}
 	cnt := cnts[int(rand.Int63())%len(cnts)]
+	over := func() bool {
+		return len(*out) >= options.threshold || options.expansions >= generateMaxExpansions
+	}
+	if over() {
+		// Don't get into recursions anymore, finish the shortest way
+		cnt = cnts[options.costs.cheapestConcat(cnts)]
+	}
 
 	// Travel through all the repetitions
 	for _, rep := range cnt.Repetitions {
@@ -64,14 +76,15 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 			repmax = max(options.repMax, rep.Min)
 		}
 		torep := rep.Min + int(rand.Int63())%(repmax-rep.Min+1)
-		for i := 0; generateKeepGoing(i, torep, rep.Min, len(*out), options.threshold); i++ {
+		for i := 0; i < torep && (i < rep.Min || !over()); i++ {
+			options.expansions++
 			switch elem := rep.Element.(type) {
 			case ElemRulename:
 				rule := GetRule(elem.Name, g.Rulemap)
 				generateAlt(rand, g, out, rule.Alternation, options)
 
 			case ElemOption:
-				if options.costs.costAlt(elem.Alternation) < astUnbounded && (rand.Int63()%2) == 0 {
+				if options.costs.costAlt(elem.Alternation) < astUnbounded && (rand.Int63()%2) == 0 && !over() {
 					generateAlt(rand, g, out, elem.Alternation, options)
 				}
 
@@ -124,14 +137,6 @@ func appendPtr(slc *[]byte, v ...rune) {
 	*slc = b
 }
 
-func generateKeepGoing(i, torep, minrep, lenout, threshold int) bool {
-	// If can do no run and reached threshold, skip
-	if i == 0 && minrep == 0 && lenout >= threshold {
-		return false
-	}
-	return i < torep
-}
-
 // GenerateOption is an option for the *Grammar.Generate method.
 type GenerateOption interface {
 	apply(*genOpts)
@@ -141,6 +146,8 @@ type genOpts struct {
 	repMax    int
 	threshold int
 	costs     *ASTGenerator
+
+	expansions int // elements expanded so far
 }
 
 type repMaxOption int
-- 
2.43.0


From 9c074bf7a4689ddfdbce6efdfd5c7ed534969121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:57 +0000
Subject: [PATCH 33/46] fix: Generate produced U+FFFD for the surrogates of a
 range

---
 generate.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/generate.go b/generate.go
index b2a6ebc..7940be6 100644
--- a/generate.go
+++ b/generate.go
@@ -103,6 +103,15 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 					}
 					if min <= utf8.MaxRune && min <= max {
 						r := min + (rune(rand.Int63()&0x0F) % (max - min + 1)) // mask 0x0F to keep the 32-bit part (rune size)
+						if r >= surrogateMin && r <= surrogateMax {
+							// No text holds a surrogate, take the closest
+							// character of the range.
+							if max > surrogateMax {
+								r = surrogateMax + 1
+							} else {
+								r = surrogateMin - 1
+							}
+						}
 						appendPtr(out, r)
 					}
 
-- 
2.43.0


From 54f55737b114de04cf11186ef75d731034abccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:14 +0000
Subject: [PATCH 34/46] fix: Generate only produced the first 16 characters of
 a range

---
 generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate.go b/generate.go
index 7940be6..2787b82 100644
--- a/generate.go
+++ b/generate.go
@@ -102,7 +102,7 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 						max = utf8.MaxRune
 					}
 					if min <= utf8.MaxRune && min <= max {
-						r := min + (rune(rand.Int63()&0x0F) % (max - min + 1)) // mask 0x0F to keep the 32-bit part (rune size)
+						r := min + (rune(rand.Int63()&0x7FFFFFFF) % (max - min + 1)) // mask to keep the positive 32-bit part (rune size)
 						if r >= surrogateMin && r <= surrogateMax {
 							// No text holds a surrogate, take the closest
 							// character of the range.
-- 
2.43.0


From 51bee0c13e594901e1d4fa847eac1634f64dfcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:49 +0000
Subject: [PATCH 35/46] fix: a BSR set exactly as large as its bound was
 refused

---
 bsr.go     | 5 +++--
 codegen.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/bsr.go b/bsr.go
index 724435a..319b783 100644
--- a/bsr.go
+++ b/bsr.go
@@ -96,11 +96,12 @@ func (p *bsrParser) gssNodeFor(ret slot, pos, rc int) *bsrGNode {
 func (p *bsrParser) record(L slot, rc, l, k, r int) {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	if L.dot >= 2 || L.dot == len(prod) {
-		if p.maxElems > 0 && len(p.set) >= p.maxElems {
+		e := bsrElem{L, rc, l, k, r}
+		if p.maxElems > 0 && len(p.set) >= p.maxElems && !p.set[e] {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, rc, l, k, r}] = true
+		p.set[e] = true
 	}
 }
 
diff --git a/codegen.go b/codegen.go
index 5850928..468816c 100644
--- a/codegen.go
+++ b/codegen.go
@@ -582,11 +582,12 @@ func (p *parser) gssNodeFor(ret, pos, rc int) *gnode {
 func (p *parser) record(L, rc, l, k, r int) {
 	si := slotInfo[L]
 	if si.dot >= 2 || si.dot == si.plen {
-		if MaxElements > 0 && len(p.set) >= MaxElements {
+		e := bsrElem{L, rc, l, k, r}
+		if MaxElements > 0 && len(p.set) >= MaxElements && !p.set[e] {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, rc, l, k, r}] = true
+		p.set[e] = true
 	}
 }
 
-- 
2.43.0


From bfcdf91dbde344e7ecedc6d9fd39eb991f0f7da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:49 +0000
Subject: [PATCH 36/46] fix: WithMaxSlots refused a grammar of exactly that
 many nonterminals

---
 sppf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sppf.go b/sppf.go
index 7e57775..8283d5b 100644
--- a/sppf.go
+++ b/sppf.go
@@ -100,7 +100,7 @@ type lowerer struct {
 }
 
 func (c *lowerer) budgetExceeded() bool {
-	if c.max > 0 && len(c.sg.nts) >= c.max {
+	if c.max > 0 && len(c.sg.nts) > c.max {
 		c.over = true
 	}
 	return c.over
-- 
2.43.0


From 33339c4cb554367c17314c42841a9fb28c626a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:51 +0000
Subject: [PATCH 37/46] fix: parsing never ended under an absurd bound on a
 repetition whose element may be empty

---
 sppf.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sppf.go b/sppf.go
index 8283d5b..4c7db21 100644
--- a/sppf.go
+++ b/sppf.go
@@ -97,6 +97,7 @@ type lowerer struct {
 	err  error
 	max  int  // max nonterminals; 0 == unbounded
 	over bool // budget exceeded
+	null map[string]bool
 }
 
 func (c *lowerer) budgetExceeded() bool {
@@ -106,6 +107,13 @@ func (c *lowerer) budgetExceeded() bool {
 	return c.over
 }
 
+func (c *lowerer) nullable(e ElemItf) bool {
+	if c.null == nil {
+		c.null = c.g.nullableRules()
+	}
+	return elemNullable(c.g, c.null, e)
+}
+
 func (c *lowerer) rule(name string) int {
 	key := "rule:" + canon(name)
 	id, existed := c.sg.reserve(key, name)
@@ -160,6 +168,12 @@ func (c *lowerer) rep(rep Repetition) ssym {
 	if rep.Max != inf && rep.Max < rep.Min {
 		return ssym{kind: symNonterm, nt: id}
 	}
+	// The count lives in the parser state: an element that may be empty lets it
+	// run up to the bound whatever the input, so an absurd bound is refused.
+	if bound := max(rep.Min, rep.Max); c.max > 0 && bound > max(c.max, defaultMaxSlots) && c.nullable(rep.Element) {
+		c.over = true
+		return ssym{kind: symNonterm, nt: id}
+	}
 	// Lower to the self-recursive encoding R ::= eps | E R, a single nonterminal
 	// regardless of the bound. The [Min,Max] count is enforced at parse time
 	// (addRepAlts), so lowering is O(1) in the bound and there is no per-count
-- 
2.43.0


From be174387d18328effbf5ef15d88a91e22cfab816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:51 +0000
Subject: [PATCH 38/46] fix: ASTGenerator never ended on an absurd number of
 possibly empty elements

---
 ast.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ast.go b/ast.go
index 0260709..7579732 100644
--- a/ast.go
+++ b/ast.go
@@ -235,7 +235,8 @@ func (ag *ASTGenerator) genConcat(src source, out *astOutput, concat Concatenati
 func (ag *ASTGenerator) genRep(src source, out *astOutput, rep Repetition, depth int) {
 	lo := rep.Min
 	hi := rep.Max
-	if ag.costElem(rep.Element) >= astUnbounded {
+	cost := ag.costElem(rep.Element)
+	if cost >= astUnbounded {
 		return // cannot be generated, hence is not mandatory: skip it
 	}
 	if hi == inf { // unbounded: cap the optional unrolling
@@ -248,8 +249,9 @@ func (ag *ASTGenerator) genRep(src source, out *astOutput, rep Repetition, depth
 	for i := 0; i < n; i++ {
 		out.expansions++
 		ag.genElem(src, out, rep.Element, depth)
-		// Stop optional extras once over budget, but always emit the mandatory lo.
-		if i+1 >= lo && ag.over(out, depth) {
+		// Stop optional extras once over budget, but always emit the mandatory lo,
+		// unless what is left of it may be empty.
+		if (i+1 >= lo || cost == 0) && ag.over(out, depth) {
 			break
 		}
 	}
-- 
2.43.0


From 253ac5279f576d524ce83191705ab92cba17cde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:51 +0000
Subject: [PATCH 39/46] fix: Generate never ended on an absurd number of
 possibly empty elements

---
 generate.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generate.go b/generate.go
index 2787b82..f3dca92 100644
--- a/generate.go
+++ b/generate.go
@@ -68,7 +68,8 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 
 	// Travel through all the repetitions
 	for _, rep := range cnt.Repetitions {
-		if options.costs.costElem(rep.Element) >= astUnbounded {
+		cost := options.costs.costElem(rep.Element)
+		if cost >= astUnbounded {
 			continue // can't be generated, thus is not mandatory
 		}
 		repmax := rep.Max
@@ -76,7 +77,8 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 			repmax = max(options.repMax, rep.Min)
 		}
 		torep := rep.Min + int(rand.Int63())%(repmax-rep.Min+1)
-		for i := 0; i < torep && (i < rep.Min || !over()); i++ {
+		// Once over, finish with the mandatory elements, unless they may be empty
+		for i := 0; i < torep && (i < rep.Min && cost > 0 || !over()); i++ {
 			options.expansions++
 			switch elem := rep.Element.(type) {
 			case ElemRulename:
-- 
2.43.0


From 7ed2cd71ca15f7f3010fdd5a21261c28cfd25f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:06 +0000
Subject: [PATCH 40/46] fix: Regex flattened shared subexpressions, exhausting
 memory whatever WithMaxRegexLen

---
 regex.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/regex.go b/regex.go
index b11629b..6d73d1d 100644
--- a/regex.go
+++ b/regex.go
@@ -249,13 +249,11 @@ func simplify(n reNode, memo map[reNode]reNode) reNode {
 		never := false
 		for _, p := range v.parts {
 			sp := simplify(p, memo)
-			switch x := sp.(type) {
+			switch sp.(type) {
 			case *reEmpty: // drop: empty in a concatenation contributes nothing
 			case *reNever: // one un-matchable part makes the whole sequence un-matchable
 				never = true
-			case *reConcat:
-				parts = append(parts, x.parts...) // flatten
-			default:
+			default: // a nested concatenation renders the same as if flattened
 				parts = append(parts, sp)
 			}
 		}
@@ -277,10 +275,14 @@ func simplify(n reNode, memo map[reNode]reNode) reNode {
 				continue
 			}
 			if x, ok := so.(*reAlt); ok {
-				opts = append(opts, x.opts...) // flatten
-			} else {
-				opts = append(opts, so)
+				// Only get its class out, first if any, to merge it: the rest
+				// renders the same as if flattened, and is shared.
+				if c, ok := x.opts[0].(*reClass); ok {
+					opts = append(opts, c)
+					so = &reAlt{opts: x.opts[1:]}
+				}
 			}
+			opts = append(opts, so)
 		}
 		// Fold every class option into a single merged class: turns an
 		// alternation of single characters / ranges into one [...].
-- 
2.43.0


From faaa37d60d393d658444c00895a1805fe9873a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:26 +0000
Subject: [PATCH 41/46] fix: concurrent ExpectedNext calls raced on the
 generator's cache

---
 fuzz.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fuzz.go b/fuzz.go
index 36e1820..da23f2f 100644
--- a/fuzz.go
+++ b/fuzz.go
@@ -3,6 +3,7 @@ package goabnf
 import (
 	"fmt"
 	"math/rand"
+	"sync"
 	"unicode/utf8"
 )
 
@@ -123,6 +124,7 @@ type Generator struct {
 	distToEnd map[string]int  // node ID -> fewest steps to an endpoint
 	entries   []*Node         // entrypoints that can reach an endpoint
 
+	emitMu    sync.Mutex            // guards the following two
 	emitCache map[string][]emission // node ID -> octet emissions (lazy, for ExpectedNext)
 	emitOK    map[string]bool       // node ID -> emissions analyzable
 }
@@ -574,6 +576,8 @@ type emission struct {
 const expectedNextRangeCap = 1 << 16
 
 func (g *Generator) emissions(n *Node) ([]emission, bool) {
+	g.emitMu.Lock()
+	defer g.emitMu.Unlock()
 	id := tgNodeID(n)
 	if g.emitCache == nil {
 		g.emitCache = map[string][]emission{}
-- 
2.43.0


From b1e8e3c87cd3456dad63b8b7597f34a346d3f8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:31 +0000
Subject: [PATCH 42/46] fix: pap transition-graph expanded what
 --deflate-...=false says to keep

---
 cmd/pap/commands/transition_graph.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/pap/commands/transition_graph.go b/cmd/pap/commands/transition_graph.go
index 616d229..8b3f132 100644
--- a/cmd/pap/commands/transition_graph.go
+++ b/cmd/pap/commands/transition_graph.go
@@ -53,13 +53,13 @@ func transitionGraph(ctx *cli.Context) error {
 	// Build options
 	opts := []goabnf.TGOption{}
 	if ctx.IsSet("deflate-rules") {
-		opts = append(opts, goabnf.WithDeflateRules(true))
+		opts = append(opts, goabnf.WithDeflateRules(ctx.Bool("deflate-rules")))
 	}
 	if ctx.IsSet("deflate-charvals") {
-		opts = append(opts, goabnf.WithDeflateCharVals(true))
+		opts = append(opts, goabnf.WithDeflateCharVals(ctx.Bool("deflate-charvals")))
 	}
 	if ctx.IsSet("deflate-numvals") {
-		opts = append(opts, goabnf.WithDeflateNumVals(true))
+		opts = append(opts, goabnf.WithDeflateNumVals(ctx.Bool("deflate-numvals")))
 	}
 	if ctx.IsSet("repetition-threshold") {
 		opts = append(opts, goabnf.WithRepetitionThreshold(ctx.Int("repetition-threshold")))
-- 
2.43.0


From 8e43b680e955ef547ebdca9f061535c40a745457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:14 +0000
Subject: [PATCH 43/46] fix: BSR and generated trees of an infinitely ambiguous
 input dropped part of the derivation

---
 bsr.go     | 68 +++++++++++++++++++++++++++++-------------------------
 codegen.go | 66 +++++++++++++++++++++++++++++++---------------------
 2 files changed, 77 insertions(+), 57 deletions(-)

diff --git a/bsr.go b/bsr.go
index 319b783..b0b0465 100644
--- a/bsr.go
+++ b/bsr.go
@@ -58,7 +58,7 @@ type bsrParser struct {
 	sg    *slotGrammar
 	input []byte
 
-	set    map[bsrElem]bool
+	set    map[bsrElem]int // element -> rank in which it was recorded, from 1
 	gss    map[gssKey]*bsrGNode
 	u0     *bsrGNode
 	seen   map[bsrDesc]bool
@@ -97,11 +97,14 @@ func (p *bsrParser) record(L slot, rc, l, k, r int) {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	if L.dot >= 2 || L.dot == len(prod) {
 		e := bsrElem{L, rc, l, k, r}
-		if p.maxElems > 0 && len(p.set) >= p.maxElems && !p.set[e] {
+		if p.set[e] != 0 {
+			return
+		}
+		if p.maxElems > 0 && len(p.set) >= p.maxElems {
 			p.aborted = true
 			return
 		}
-		p.set[e] = true
+		p.set[e] = len(p.set) + 1
 	}
 }
 
@@ -261,8 +264,8 @@ type BSRForest struct {
 	sg       *slotGrammar
 	input    []byte
 	rulename string
-	set      map[bsrElem]bool
-	index    map[bsrKey][]int // (slot,rc,l,r) -> pivots k
+	set      map[bsrElem]int
+	index    map[bsrKey][]int // (slot,rc,l,r) -> pivots k, the first recorded one first
 	start    int
 	n        int
 }
@@ -287,20 +290,28 @@ func (f *BSRForest) buildIndex() {
 	f.index = make(map[bsrKey][]int, len(f.set))
 	for e := range f.set {
 		k := bsrKey{e.slot, e.rc, e.l, e.r}
-		f.index[k] = append(f.index[k], e.k)
+		ks := append(f.index[k], e.k)
+		if f.set[bsrElem{e.slot, e.rc, e.l, ks[0], e.r}] > f.set[e] {
+			ks[0], ks[len(ks)-1] = ks[len(ks)-1], ks[0]
+		}
+		f.index[k] = ks
 	}
 }
 
-// startElems returns, for each production of the start rule, the pivots of the
-// complete-production elements spanning the whole input.
-func (f *BSRForest) startElems() (slot, []int, bool) {
-	for ai, prod := range f.sg.nts[f.start].alts {
-		s := slot{f.start, ai, len(prod)}
-		if ks := f.index[bsrKey{s, 0, 0, f.n}]; len(ks) > 0 {
-			return s, ks, true
+// firstElem returns the complete-production element of nonterminal nt over [l,r]
+// that was recorded first, as its slot and pivot. An element is only recorded
+// once its parts are, so a tree of first elements never runs into a cycle.
+func (f *BSRForest) firstElem(nt, rc, l, r int) (sl slot, k int, ok bool) {
+	best := 0
+	for ai, prod := range f.sg.nts[nt].alts {
+		s := slot{nt, ai, len(prod)}
+		if ks := f.index[bsrKey{s, rc, l, r}]; len(ks) > 0 {
+			if n := f.set[bsrElem{s, rc, l, ks[0], r}]; !ok || n < best {
+				sl, k, ok, best = s, ks[0], true, n
+			}
 		}
 	}
-	return slot{}, nil, false
+	return sl, k, ok
 }
 
 // Valid reports whether the whole input is derivable by the root rule.
@@ -495,12 +506,12 @@ func (f *BSRForest) Tree() *ParseTree {
 	if !f.Valid() {
 		return nil
 	}
-	sl, ks, ok := f.startElems()
+	sl, k, ok := f.firstElem(f.start, 0, 0, f.n)
 	if !ok {
 		return nil
 	}
 	visited := map[bsrNodeID]bool{}
-	return f.emitSym(f.start, sl, ks[0], 0, f.n, visited)
+	return f.emitSym(f.start, sl, k, 0, f.n, visited)
 }
 
 // emitSym builds a ParseTree node for nonterminal nt over [l,r], chosen via the
@@ -551,20 +562,15 @@ func (f *BSRForest) collectChild(sl slot, s ssym, rc, a, b int, out *[]*ParseTre
 	}
 	visited[id] = true
 	// pick the first complete-production element for this nonterminal extent
-	for ai, prod := range f.sg.nts[s.nt].alts {
-		csl := slot{s.nt, ai, len(prod)}
-		if ks := f.index[bsrKey{csl, rc, a, b}]; len(ks) > 0 {
-			info := f.sg.nts[s.nt]
-			if info.isRule {
-				var kids []*ParseTree
-				f.collectElem(csl, rc, a, ks[0], b, &kids, visited)
-				*out = append(*out, &ParseTree{Rule: info.ruleName, Start: a, End: b, Children: kids})
-			} else {
-				// synthetic: splice its children directly into the parent
-				f.collectElem(csl, rc, a, ks[0], b, out, visited)
-			}
-			visited[id] = false
-			return
+	if csl, k, ok := f.firstElem(s.nt, rc, a, b); ok {
+		info := f.sg.nts[s.nt]
+		if info.isRule {
+			var kids []*ParseTree
+			f.collectElem(csl, rc, a, k, b, &kids, visited)
+			*out = append(*out, &ParseTree{Rule: info.ruleName, Start: a, End: b, Children: kids})
+		} else {
+			// synthetic: splice its children directly into the parent
+			f.collectElem(csl, rc, a, k, b, out, visited)
 		}
 	}
 	visited[id] = false
@@ -584,7 +590,7 @@ func ParseBSR(input []byte, grammar *Grammar, rootRulename string, opts ...Fores
 	p := &bsrParser{
 		sg:       sg,
 		input:    input,
-		set:      map[bsrElem]bool{},
+		set:      map[bsrElem]int{},
 		gss:      map[gssKey]*bsrGNode{},
 		seen:     map[bsrDesc]bool{},
 		popped:   map[*bsrGNode]map[int]bool{},
diff --git a/codegen.go b/codegen.go
index 468816c..47794d4 100644
--- a/codegen.go
+++ b/codegen.go
@@ -523,7 +523,7 @@ type desc struct {
 
 type parser struct {
 	input   []byte
-	set     map[bsrElem]bool
+	set     map[bsrElem]int // element -> rank in which it was recorded, from 1
 	gss     map[gssKey]*gnode
 	u0      *gnode
 	seen    map[desc]bool
@@ -583,11 +583,14 @@ func (p *parser) record(L, rc, l, k, r int) {
 	si := slotInfo[L]
 	if si.dot >= 2 || si.dot == si.plen {
 		e := bsrElem{L, rc, l, k, r}
-		if MaxElements > 0 && len(p.set) >= MaxElements && !p.set[e] {
+		if p.set[e] != 0 {
+			return
+		}
+		if MaxElements > 0 && len(p.set) >= MaxElements {
 			p.aborted = true
 			return
 		}
-		p.set[e] = true
+		p.set[e] = len(p.set) + 1
 	}
 }
 
@@ -661,8 +664,8 @@ func childRC(parent, child, rc int) int {
 // Result holds the BSR set for a parse and answers queries over it.
 type Result struct {
 	input []byte
-	set   map[bsrElem]bool
-	index map[bsrKey][]int
+	set   map[bsrElem]int
+	index map[bsrKey][]int // pivots, the first recorded one first
 	n     int
 }
 
@@ -673,10 +676,29 @@ func (r *Result) buildIndex() {
 	r.index = make(map[bsrKey][]int, len(r.set))
 	for e := range r.set {
 		bk := bsrKey{e.sl, e.rc, e.l, e.r}
-		r.index[bk] = append(r.index[bk], e.k)
+		ks := append(r.index[bk], e.k)
+		if r.set[bsrElem{e.sl, e.rc, e.l, ks[0], e.r}] > r.set[e] {
+			ks[0], ks[len(ks)-1] = ks[len(ks)-1], ks[0]
+		}
+		r.index[bk] = ks
 	}
 }
 
+// firstElem returns the complete production of nt over [l,rr] that was recorded
+// first, and its pivot. An element is only recorded once its parts are, so a
+// tree of first elements never runs into a cycle.
+func (r *Result) firstElem(nt, rc, l, rr int) (sl, k int, ok bool) {
+	best := 0
+	for _, s := range ntComplete[nt] {
+		if ks := r.index[bsrKey{s, rc, l, rr}]; len(ks) > 0 {
+			if n := r.set[bsrElem{s, rc, l, ks[0], rr}]; !ok || n < best {
+				sl, k, ok, best = s, ks[0], true, n
+			}
+		}
+	}
+	return sl, k, ok
+}
+
 // Valid reports whether the whole input is derivable by the root rule.
 func (r *Result) Valid() bool {
 	r.buildIndex()
@@ -850,14 +872,10 @@ func (r *Result) Tree() *ParseTree {
 	if !r.Valid() {
 		return nil
 	}
-	for _, sl := range ntComplete[gStart] {
-		if ks := r.index[bsrKey{sl, 0, 0, r.n}]; len(ks) > 0 {
-			var kids []*ParseTree
-			r.collectElem(sl, 0, 0, ks[0], r.n, &kids, map[nodeID]bool{})
-			return &ParseTree{Rule: qNTs[gStart].ruleName, Start: 0, End: r.n, Children: kids}
-		}
-	}
-	return nil
+	sl, k, _ := r.firstElem(gStart, 0, 0, r.n)
+	var kids []*ParseTree
+	r.collectElem(sl, 0, 0, k, r.n, &kids, map[nodeID]bool{})
+	return &ParseTree{Rule: qNTs[gStart].ruleName, Start: 0, End: r.n, Children: kids}
 }
 
 func (r *Result) collectElem(sl, rc, l, k, rr int, out *[]*ParseTree, visited map[nodeID]bool) {
@@ -889,17 +907,13 @@ func (r *Result) collectChild(parent int, s qSym, rc, a, b int, out *[]*ParseTre
 		return
 	}
 	visited[id] = true
-	for _, sl := range ntComplete[s.nt] {
-		if ks := r.index[bsrKey{sl, rc, a, b}]; len(ks) > 0 {
-			if qNTs[s.nt].isRule {
-				var kids []*ParseTree
-				r.collectElem(sl, rc, a, ks[0], b, &kids, visited)
-				*out = append(*out, &ParseTree{Rule: qNTs[s.nt].ruleName, Start: a, End: b, Children: kids})
-			} else {
-				r.collectElem(sl, rc, a, ks[0], b, out, visited)
-			}
-			visited[id] = false
-			return
+	if sl, k, ok := r.firstElem(s.nt, rc, a, b); ok {
+		if qNTs[s.nt].isRule {
+			var kids []*ParseTree
+			r.collectElem(sl, rc, a, k, b, &kids, visited)
+			*out = append(*out, &ParseTree{Rule: qNTs[s.nt].ruleName, Start: a, End: b, Children: kids})
+		} else {
+			r.collectElem(sl, rc, a, k, b, out, visited)
 		}
 	}
 	visited[id] = false
@@ -909,7 +923,7 @@ func (r *Result) collectChild(parent int, s qSym, rc, a, b int, out *[]*ParseTre
 func Parse(input []byte) (*Result, error) {
 	p := &parser{
 		input:  input,
-		set:    map[bsrElem]bool{},
+		set:    map[bsrElem]int{},
 		gss:    map[gssKey]*gnode{},
 		seen:   map[desc]bool{},
 		popped: map[*gnode]map[int]bool{},
-- 
2.43.0


From 4cbbd58c043fe5032b72c13d74be73c4aca423f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:49 +0000
Subject: [PATCH 44/46] fix: do not let a repetition's cost overflow

The cost of a mandatory repetition is its minimum times the cost of its
element. The product was compared with the bound after the multiplication,
so a minimum like 2^62 of a four byte string wrapped around to a small cost:
the rule was taken for one that can be generated, and generating it did not
end.
---
 ast.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ast.go b/ast.go
index 7579732..2e3e7df 100644
--- a/ast.go
+++ b/ast.go
@@ -416,13 +416,10 @@ func mulClamp(n, c int) int {
 	if n == 0 {
 		return 0
 	}
-	if c >= astUnbounded {
-		return astUnbounded
-	}
-	if p := n * c; p >= 0 && p < astUnbounded {
-		return p
+	if n < 0 || c >= astUnbounded || c > 0 && n >= (astUnbounded+c-1)/c {
+		return astUnbounded // compared by division, as the product may overflow
 	}
-	return astUnbounded
+	return n * c
 }
 
 func isASCIILetter(r rune) bool {
-- 
2.43.0


From dcfef4620caa8c70cdbead2f5888cbfa3432f05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:03 +0000
Subject: [PATCH 45/46] fix: do not let the node budget's product overflow

Under a raised repetition threshold, a repetition count like 2^62 times the
nodes of the element wrapped around, the budget of WithMaxNodes let it pass
and building the graph panicked or did not end.
---
 transition_graph.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transition_graph.go b/transition_graph.go
index 67ab1e1..2acd2b5 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -227,7 +227,12 @@ func (m *tgmachine) reserveClones(reps int, entries []*Node) error {
 	if m.options.maxNodes <= 0 {
 		return nil
 	}
-	return m.reserve(reps * countReachable(entries))
+	n := countReachable(entries)
+	if n > 0 && reps > m.options.maxNodes/n {
+		// as reserve does, without letting the product overflow
+		return &ErrMaxNodesExceeded{Max: m.options.maxNodes}
+	}
+	return m.reserve(reps * n)
 }
 
 // countReachable counts the distinct non-empty nodes reachable from entries,
-- 
2.43.0


From a06c3530dc89731e25859a7c21f14e8cc485510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:14 +0000
Subject: [PATCH 46/46] fix: chain a graph without nodes once

Under a raised repetition threshold, a repetition like 2^62 of the empty
string takes no node, hence is no matter for the node budget, but still was
chained as many times: building the graph panicked or did not end.
---
 transition_graph.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transition_graph.go b/transition_graph.go
index 2acd2b5..b755273 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -1209,6 +1209,10 @@ func chainTransitionGraph(i, o []*Node, n int) (tgs []TransitionGraph, entrypoin
 	if n == 0 {
 		return
 	}
+	// ... and to chain it once if it holds no node, whatever the repetition
+	if countReachable(i) == 0 {
+		n = 1
+	}
 	tgs = make([]TransitionGraph, n)
 
 	// Init chaining
-- 
2.43.0

