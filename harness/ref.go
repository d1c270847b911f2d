package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"strings"
	"unicode/utf8"

	goabnf "github.com/pandatix/go-abnf"
)

// ---------------------------------------------------------------------------
// Reference recogniser: denotational semantics of ABNF computed directly as a
// least fixpoint of "set of end positions" per grammar node and start position.
// No seeds, no memo on re-entry, no descriptors: start positions are processed
// from right to left, and at each one every node is recomputed until nothing
// changes.
// ---------------------------------------------------------------------------

type bitset []uint64

func newBits(n int) bitset      { return make(bitset, (n+64)/64) }
func (b bitset) has(i int) bool { return b[i>>6]&(1<<(uint(i)&63)) != 0 }
func (b bitset) set(i int)      { b[i>>6] |= 1 << (uint(i) & 63) }
func (b bitset) clear()         { clear(b) }
func (b bitset) empty() bool {
	for _, w := range b {
		if w != 0 {
			return false
		}
	}
	return true
}
func (b bitset) or(o bitset) bool {
	ch := false
	for i, w := range o {
		if b[i]|w != b[i] {
			b[i] |= w
			ch = true
		}
	}
	return ch
}
func (b bitset) each(f func(int)) {
	for k, w := range b {
		for w != 0 {
			f(k<<6 + bits.TrailingZeros64(w))
			w &= w - 1
		}
	}
}

type rop int

const (
	opTerm rop = iota
	opRef
	opOpt
	opRep
	opCat
	opAlt
)

type rnode struct {
	op       rop
	kids     []int
	min, max int
	e        *Elem
}

type Ref struct {
	g     *G
	nodes []rnode
	root  int
	in    []byte
	n     int
	m     [][]bitset // node, start -> ends
	altOf map[*Rule]int
	order []int
}

// termMatch returns the length of the text of e at in[i:], or -1.
// Text is UTF-8: a character is one well-formed encoded scalar value, and an
// ill-formed byte is matched by nothing.
func termMatch(e *Elem, in []byte) int {
	pos := 0
	next := func() (rune, bool) {
		if pos >= len(in) {
			return 0, false
		}
		r, sz := utf8.DecodeRune(in[pos:])
		if r == utf8.RuneError && sz <= 1 {
			return 0, false
		}
		pos += sz
		return r, true
	}
	switch e.K {
	case KStr:
		for _, w := range e.Runes {
			r, ok := next()
			if !ok {
				return -1
			}
			if r == w {
				continue
			}
			if e.Sens || lower(r) != lower(w) {
				return -1
			}
		}
		return pos
	case KNum:
		if e.Range {
			r, ok := next()
			if !ok || uint64(r) < e.Vals[0] || uint64(r) > e.Vals[1] {
				return -1
			}
			return pos
		}
		for _, v := range e.Vals {
			r, ok := next()
			if !ok || uint64(r) != v {
				return -1
			}
		}
		return pos
	}
	return -1 // prose: no mechanical meaning
}

func lower(r rune) rune {
	if r >= 'A' && r <= 'Z' {
		return r + 32
	}
	return r
}

// newRef compiles the rules reachable from root and runs the fixpoint on input.
func newRef(g *G, root string, in []byte) *Ref {
	r := &Ref{g: g, in: in, n: len(in), altOf: map[*Rule]int{}}
	rules, _ := g.reach(root)
	for _, rl := range rules {
		r.nodes = append(r.nodes, rnode{op: opAlt})
		r.altOf[rl] = len(r.nodes) - 1
	}
	for _, rl := range rules {
		kids := r.compAlts(rl.Alts)
		r.nodes[r.altOf[rl]].kids = kids
	}
	// children have larger indexes than their parents, except rule nodes;
	// process in decreasing order so that inner nodes go first
	r.root = r.altOf[g.lookup(root)]
	r.solve()
	return r
}

func (r *Ref) add(n rnode) int {
	r.nodes = append(r.nodes, n)
	return len(r.nodes) - 1
}

func (r *Ref) compAlts(a []Cat) []int {
	var out []int
	for _, c := range a {
		id := r.add(rnode{op: opCat})
		var kids []int
		for _, rp := range c {
			kids = append(kids, r.compRep(rp))
		}
		r.nodes[id].kids = kids
		out = append(out, id)
	}
	return out
}

func (r *Ref) compRep(rp Rep) int {
	if rp.Min == 1 && rp.Max == 1 {
		return r.compElem(rp.E)
	}
	id := r.add(rnode{op: opRep, min: rp.Min, max: rp.Max})
	k := r.compElem(rp.E)
	r.nodes[id].kids = []int{k}
	return id
}

func (r *Ref) compElem(e *Elem) int {
	switch e.K {
	case KRef:
		rl := r.g.lookup(e.Name)
		if rl == nil {
			return r.add(rnode{op: opTerm, e: &Elem{K: KProse}})
		}
		return r.add(rnode{op: opRef, kids: []int{r.altOf[rl]}})
	case KGroup, KOpt:
		id := r.add(rnode{op: opAlt})
		if e.K == KOpt {
			r.nodes[id].op = opOpt
		}
		kids := r.compAlts(e.Alts)
		r.nodes[id].kids = kids
		return id
	}
	return r.add(rnode{op: opTerm, e: e})
}

func (r *Ref) solve() {
	n := r.n
	r.m = make([][]bitset, len(r.nodes))
	for i := range r.nodes {
		r.m[i] = make([]bitset, n+1)
		for p := 0; p <= n; p++ {
			r.m[i][p] = newBits(n)
		}
	}
	tmp := newBits(n)
	for p := n; p >= 0; p-- {
		for i, nd := range r.nodes {
			if nd.op == opTerm {
				if l := termMatch(nd.e, r.in[p:]); l >= 0 {
					r.m[i][p].set(p + l)
				}
			}
		}
		for ch := true; ch; {
			ch = false
			for i := len(r.nodes) - 1; i >= 0; i-- {
				nd := &r.nodes[i]
				switch nd.op {
				case opTerm:
				case opRef, opAlt, opOpt:
					if nd.op == opOpt && !r.m[i][p].has(p) {
						r.m[i][p].set(p)
						ch = true
					}
					for _, k := range nd.kids {
						if r.m[i][p].or(r.m[k][p]) {
							ch = true
						}
					}
				case opCat:
					tmp = r.catEnds(nd.kids, p)
					if r.m[i][p].or(tmp) {
						ch = true
					}
				case opRep:
					if r.m[i][p].or(r.repEnds(nd.kids[0], p, nd.min, nd.max)) {
						ch = true
					}
				}
			}
		}
	}
}

func (r *Ref) catEnds(kids []int, p int) bitset {
	cur := newBits(r.n)
	cur.set(p)
	for _, k := range kids {
		nx := newBits(r.n)
		cur.each(func(q int) { nx.or(r.m[k][q]) })
		cur = nx
		if cur.empty() {
			break
		}
	}
	return cur
}

// repEnds: ends of lo..hi consecutive copies of kid. Beyond n-p+1 copies at
// least one copy is empty, so the set no longer depends on the exact count: both
// bounds are capped there.
func (r *Ref) repEnds(kid, p, lo, hi int) bitset {
	out := newBits(r.n)
	if hi != Inf && (lo > hi || hi < 0) {
		return out
	}
	c := r.n + 1
	lo = max(0, min(lo, c))
	if hi == Inf || hi > c {
		hi = c
	}
	cur := newBits(r.n)
	cur.set(p)
	for k := 0; ; k++ {
		if k >= lo {
			out.or(cur)
		}
		if k >= hi {
			break
		}
		nx := newBits(r.n)
		cur.each(func(q int) { nx.or(r.m[kid][q]) })
		cur = nx
		if cur.empty() {
			break
		}
	}
	return out
}

func (r *Ref) Accepts() bool { return r.m[r.root][0].has(r.n) }

// AcceptsRule reports whether the named reachable rule derives in[i:j].
func (r *Ref) spanOf(rl *Rule, i, j int) bool {
	k, ok := r.altOf[rl]
	return ok && r.m[k][i].has(j)
}

func refAccepts(g *G, root string, in []byte) bool { return newRef(g, root, in).Accepts() }

// ---------------------------------------------------------------------------
// Reference derivation count
// ---------------------------------------------------------------------------

type citem struct{ node, idx, i, j int }

type infinite struct{}
type tooBig struct{}

type counter struct {
	r     *Ref
	memo  map[citem]*big.Int
	stack map[citem]bool
	ecach map[citem]bitset
	steps int
}

// Count returns the number of derivation trees of the whole input: 0 when it is
// not a word, -1 for infinitely many. ok=false: too much work, no answer.
func (r *Ref) Count(limit int) (n *big.Int, ok bool) {
	if !r.Accepts() {
		return big.NewInt(0), true
	}
	c := &counter{r: r, memo: map[citem]*big.Int{}, stack: map[citem]bool{}, ecach: map[citem]bitset{}, steps: limit}
	defer func() {
		switch v := recover().(type) {
		case nil:
		case infinite:
			n, ok = big.NewInt(-1), true
		case tooBig:
			n, ok = nil, false
		default:
			panic(v)
		}
	}()
	return c.node(r.root, 0, r.n), true
}

func (c *counter) enter(it citem, f func() *big.Int) *big.Int {
	if v := c.memo[it]; v != nil {
		return v
	}
	if c.stack[it] {
		panic(infinite{})
	}
	if c.steps--; c.steps < 0 {
		panic(tooBig{})
	}
	c.stack[it] = true
	v := f()
	delete(c.stack, it)
	c.memo[it] = v
	return v
}

// node counts trees of a derivable (node, i, j).
func (c *counter) node(k, i, j int) *big.Int {
	nd := &c.r.nodes[k]
	switch nd.op {
	case opTerm:
		return big.NewInt(1)
	case opRef:
		return c.node(nd.kids[0], i, j)
	case opCat:
		return c.cat(k, 0, i, j)
	case opRep:
		return c.rep(k, 0, i, j)
	}
	return c.enter(citem{k, -1, i, j}, func() *big.Int {
		s := new(big.Int)
		if nd.op == opOpt && i == j {
			s.SetInt64(1)
		}
		for _, q := range nd.kids {
			if c.r.m[q][i].has(j) {
				s.Add(s, c.node(q, i, j))
			}
		}
		return s
	})
}

func (c *counter) catSuffix(k, idx, i int) bitset {
	it := citem{k, idx, i, -1}
	if b, ok := c.ecach[it]; ok {
		return b
	}
	b := c.r.catEnds(c.r.nodes[k].kids[idx:], i)
	c.ecach[it] = b
	return b
}

func (c *counter) cat(k, idx, i, j int) *big.Int {
	kids := c.r.nodes[k].kids
	if idx == len(kids) {
		return big.NewInt(1)
	}
	if idx == len(kids)-1 {
		return c.node(kids[idx], i, j)
	}
	return c.enter(citem{k, idx, i, j}, func() *big.Int {
		s := new(big.Int)
		c.r.m[kids[idx]][i].each(func(m int) {
			if m <= j && c.catSuffix(k, idx+1, m).has(j) {
				a := c.node(kids[idx], i, m)
				b := c.cat(k, idx+1, m, j)
				s.Add(s, new(big.Int).Mul(a, b))
			}
		})
		return s
	})
}

func (c *counter) repSuffix(k, done, i int) bitset {
	it := citem{k, done, i, -2}
	if b, ok := c.ecach[it]; ok {
		return b
	}
	nd := c.r.nodes[k]
	hi := nd.max
	if hi != Inf {
		hi -= done
	}
	b := c.r.repEnds(nd.kids[0], i, max(0, nd.min-done), hi)
	c.ecach[it] = b
	return b
}

func (c *counter) rep(k, done, i, j int) *big.Int {
	nd := &c.r.nodes[k]
	if nd.max == Inf && done > nd.min {
		done = nd.min
	}
	return c.enter(citem{k, done, i, j}, func() *big.Int {
		s := new(big.Int)
		if done >= nd.min && i == j {
			s.SetInt64(1)
		}
		if nd.max == Inf || done < nd.max {
			c.r.m[nd.kids[0]][i].each(func(m int) {
				if m <= j && c.repSuffix(k, done+1, m).has(j) {
					a := c.node(nd.kids[0], i, m)
					b := c.rep(k, done+1, m, j)
					s.Add(s, new(big.Int).Mul(a, b))
				}
			})
		}
		return s
	})
}

// ---------------------------------------------------------------------------
// Tree checking
// ---------------------------------------------------------------------------

// PTree is the neutral parse tree (library trees and generated parsers' trees
// are converted to it).
type PTree struct {
	Rule       string
	Start, End int
	Kids       []*PTree
}

func fromLibTree(t *goabnf.ParseTree) *PTree {
	if t == nil {
		return nil
	}
	p := &PTree{Rule: t.Rule, Start: t.Start, End: t.End}
	for _, c := range t.Children {
		p.Kids = append(p.Kids, fromLibTree(c))
	}
	return p
}

func (t *PTree) String() string {
	if t == nil {
		return "nil"
	}
	s := fmt.Sprintf("%s[%d,%d]", t.Rule, t.Start, t.End)
	if len(t.Kids) > 0 {
		var k []string
		for _, c := range t.Kids {
			k = append(k, c.String())
		}
		s += "(" + strings.Join(k, " ") + ")"
	}
	return s
}

// checkTree returns "" when t is a genuine derivation of in from root.
func checkTree(g *G, root string, in []byte, t *PTree) string {
	if t == nil {
		return "nil tree"
	}
	if !strings.EqualFold(t.Rule, root) {
		return fmt.Sprintf("root node is %q, want %q", t.Rule, root)
	}
	if t.Start != 0 || t.End != len(in) {
		return fmt.Sprintf("root spans [%d,%d], want [0,%d]", t.Start, t.End, len(in))
	}
	return checkNode(g, in, t, 0)
}

func checkNode(g *G, in []byte, t *PTree, depth int) string {
	if depth > 100000 {
		return "tree too deep"
	}
	rl := g.lookup(t.Rule)
	if rl == nil {
		return fmt.Sprintf("node names unknown rule %q", t.Rule)
	}
	pos := t.Start
	for _, c := range t.Kids {
		if c.Start != pos || c.End < c.Start || c.End > t.End {
			return fmt.Sprintf("children of %s[%d,%d] do not tile it: child %s[%d,%d] at %d", t.Rule, t.Start, t.End, c.Rule, c.Start, c.End, pos)
		}
		pos = c.End
		if c.Rule == "" && len(c.Kids) > 0 {
			return "leaf with children"
		}
	}
	if pos != t.End {
		return fmt.Sprintf("children of %s[%d,%d] end at %d", t.Rule, t.Start, t.End, pos)
	}
	m := &kidMatch{in: in, kids: t.Kids}
	if !m.alts(rl.Alts, 0)[len(t.Kids)] {
		return fmt.Sprintf("children of %s[%d,%d] match no alternative of %s = %s: %s", t.Rule, t.Start, t.End, rl.Name, altsText(rl.Alts), t)
	}
	for _, c := range t.Kids {
		if c.Rule != "" {
			if e := checkNode(g, in, c, depth+1); e != "" {
				return e
			}
		}
	}
	return ""
}

type kidMatch struct {
	in   []byte
	kids []*PTree
	memo map[kidKey]iset
}

type kidKey struct {
	e *Elem
	p int
}

type iset map[int]bool

func (m *kidMatch) alts(a []Cat, p int) iset {
	out := iset{}
	for _, c := range a {
		cur := iset{p: true}
		for _, r := range c {
			nx := iset{}
			for q := range cur {
				for e := range m.rep(r, q) {
					nx[e] = true
				}
			}
			cur = nx
		}
		for q := range cur {
			out[q] = true
		}
	}
	return out
}

func (m *kidMatch) rep(r Rep, p int) iset {
	out := iset{}
	c := len(m.kids) + 1
	lo, hi := r.Min, r.Max
	if hi != Inf && lo > hi {
		return out
	}
	lo = min(lo, c)
	if hi == Inf || hi > c {
		hi = c
	}
	cur := iset{p: true}
	for k := 0; ; k++ {
		grew := k < lo
		if k >= lo {
			for q := range cur {
				grew = grew || !out[q]
				out[q] = true
			}
		}
		if k >= hi || !grew || len(cur) == 0 {
			return out
		}
		nx := iset{}
		for q := range cur {
			for e := range m.elem(r.E, q) {
				nx[e] = true
			}
		}
		cur = nx
	}
}

func (m *kidMatch) elem(e *Elem, p int) iset {
	switch e.K {
	case KGroup, KOpt:
		key := kidKey{e, p}
		s, ok := m.memo[key]
		if !ok {
			s = m.alts(e.Alts, p)
			if e.K == KOpt {
				s[p] = true
			}
			if m.memo == nil {
				m.memo = map[kidKey]iset{}
			}
			m.memo[key] = s
		}
		return s
	case KRef:
		if p < len(m.kids) && m.kids[p].Rule != "" && strings.EqualFold(m.kids[p].Rule, e.Name) {
			return iset{p + 1: true}
		}
		return iset{}
	}
	s := iset{}
	if p < len(m.kids) && m.kids[p].Rule == "" {
		k := m.kids[p]
		if l := termMatch(e, m.in[k.Start:k.End]); l == k.End-k.Start && l >= 0 {
			s[p+1] = true
		}
	}
	// A terminal that consumes nothing may be left out of the tree.
	if e.K == KStr && len(e.Runes) == 0 {
		s[p] = true
	}
	return s
}
