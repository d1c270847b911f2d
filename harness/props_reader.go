package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
)

func init() {
	register(&Prop{
		ID: "C16", Quick: 9000, Thorough: 300000,
		Rule: "a case is a small random grammar (a share with long case-insensitive strings), its transition graph under random expansion options, and both reader modes. Oracle: all trails of the graph (each edge at most once) times all spellings of their terminals, grouped by trail length, as multisets, against CoverageAllTrails (the levels that fit 40000 steps and 1500 productions when there are too many); " +
			"for CoverageCompact, every production is in the language, every vertex, edge and terminal value on a complete walk is coverable by some production, and their number is bounded. Non-trivial: a graph with at least 3 viable nodes and a branch or loop; distinct by grammar and options.",
		Check: checkC16,
	})
}

// variants lists the texts of a terminal node (nil, false: more than limit).
func variants(e *Elem, limit int) ([]string, bool) {
	switch e.K {
	case KStr:
		out := []string{""}
		for _, r := range e.Runes {
			alts := []rune{r}
			if !e.Sens {
				if r >= 'a' && r <= 'z' {
					alts = append(alts, r-32)
				} else if r >= 'A' && r <= 'Z' {
					alts = append(alts, r+32)
				}
			}
			if len(out)*len(alts) > limit {
				return nil, false
			}
			var nx []string
			for _, s := range out {
				for _, a := range alts {
					nx = append(nx, s+string(a))
				}
			}
			out = nx
		}
		return out, true
	case KNum:
		if !e.productive() {
			return nil, true
		}
		if !e.Range {
			var b []byte
			for _, v := range e.Vals {
				b = append(b, encode(v)...)
			}
			return []string{string(b)}, true
		}
		lo, hi := e.Vals[0], min(e.Vals[1], 0x10FFFF)
		if hi-lo > uint64(limit)+0x800 {
			return nil, false
		}
		var out []string
		for v := lo; v <= hi; v++ {
			if scalar(v) {
				out = append(out, string(encode(v)))
			}
		}
		return out, len(out) <= limit
	}
	return nil, true
}

// viable marks the producing nodes on a complete walk through producing nodes.
func (gr *Graph) viable() []bool {
	n := len(gr.nodes)
	prod := make([]bool, n)
	for i, x := range gr.nodes {
		prod[i] = x.e.K == KStr || x.e.K == KNum && x.e.productive()
	}
	can := make([]bool, n)
	for ch := true; ch; {
		ch = false
		for i, x := range gr.nodes {
			if can[i] || !prod[i] {
				continue
			}
			ok := x.end
			for _, j := range x.nexts {
				ok = ok || can[j]
			}
			if ok {
				can[i] = true
				ch = true
			}
		}
	}
	reach := make([]bool, n)
	var todo []int
	push := func(i int) {
		if can[i] && !reach[i] {
			reach[i] = true
			todo = append(todo, i)
		}
	}
	for _, i := range gr.entries {
		push(i)
	}
	for len(todo) > 0 {
		i := todo[0]
		todo = todo[1:]
		for _, j := range gr.nodes[i].nexts {
			push(j)
		}
	}
	return reach
}

// trails enumerates the productions of all trails by trail length, shortest
// first; full=false when the limits end it after some complete levels.
func (gr *Graph) trails(vars [][]string, live []bool, limProd, limStep int) (levels [][]string, full bool) {
	total, steps := 0, 0
	for l := 1; ; l++ {
		used := map[[2]int]bool{}
		var outs []string
		over, any := false, false
		put := func(path []int) {
			one := []string{""}
			for _, k := range path {
				if len(one)*len(vars[k]) > limProd {
					over = true
					return
				}
				var nx []string
				for _, s := range one {
					for _, v := range vars[k] {
						nx = append(nx, s+v)
					}
				}
				one = nx
			}
			outs = append(outs, one...)
			over = over || total+len(outs) > limProd
		}
		var walk func(path []int)
		walk = func(path []int) {
			steps++
			over = over || steps > limStep
			if over {
				return
			}
			k := path[len(path)-1]
			if len(path) == l {
				any = true
				if gr.nodes[k].end {
					put(path)
				}
				return
			}
			for _, j := range gr.nodes[k].nexts {
				if !live[j] || used[[2]int{k, j}] {
					continue
				}
				used[[2]int{k, j}] = true
				walk(append(path[:len(path):len(path)], j))
				used[[2]int{k, j}] = false
			}
		}
		if l == 1 && gr.nilEntry && gr.nilEnd {
			put(nil)
			any = true
		}
		for _, k := range gr.entries {
			if live[k] {
				walk([]int{k})
			}
		}
		if over {
			return levels, false
		}
		if !any {
			return levels, true
		}
		levels = append(levels, outs)
		total += len(outs)
	}
}

// drain reads up to limit productions, checking the Next/Scan protocol.
func drain(t *T, rd *goabnf.TransitionGraphReader, limit int) (out [][]byte, done bool) {
	for len(out) < limit {
		style := t.W(70, 15, 15)
		if style != 1 { // 1: Scan alone
			if !rd.Next() {
				done = true
				break
			}
			if style == 2 && !(rd.Next() && rd.Next()) {
				t.Failf("Next is true, then false, without a Scan")
			}
		}
		p := rd.Scan()
		if p == nil {
			if style != 1 {
				t.Failf("Next is true but Scan gives nothing")
			}
			done = true
			break
		}
		out = append(out, p)
	}
	if done {
		for k := 0; k < 2; k++ {
			if rd.Next() {
				t.Failf("Next is true after the end")
			}
			if p := rd.Scan(); p != nil {
				t.Failf("Scan gives %q after the end", p)
			}
		}
	}
	return
}

func checkC16(t *T) {
	o := GenOpt{MaxRules: 3, MaxDepth: 2, MaxAlts: 2, MaxCats: 2, Acyclic: true, Core: t.Pct(20), MaxCount: 2}
	switch t.W(50, 20, 15, 15) {
	case 1:
		o.MaxRules, o.MaxAlts, o.MaxCats = 1, 3, 3
	case 2:
		o.Surrogates, o.BadRange = true, true
	case 3:
		o.MaxRules, o.MaxDepth, o.MaxCount = 1, 1, 5
	}
	g := genGrammar(t, o)
	root := g.Rules[0].Name
	to := tgOpts{rules: t.Pct(85), chars: t.Pct(40), nums: t.Pct(30)}
	if t.Pct(2) {
		// a string whose letter cases are many
		var l []*Elem
		walkAlts(g.Rules[0].Alts, func(e *Elem, _ Rep) {
			if e.K == KStr && !e.Sens {
				l = append(l, e)
			}
		})
		if len(l) > 0 {
			e := l[t.N(len(l))]
			e.Runes = nil
			for n := t.Range(7, 10); n > 0; n-- {
				e.Runes = append(e.Runes, []rune("abcdxyzABCDXYZ")[t.N(14)])
			}
			if t.Bool() {
				e.Runes = append(e.Runes, '-')
			}
			to.chars = false
			t.Label("long-string")
		}
	}
	if t.Pct(2) {
		// long trails: many vertices with one spelling, few with several
		o.MaxRules, o.MaxDepth, o.MaxCount = 1, 1, 2
		g = genGrammar(t, o)
		root = g.Rules[0].Name
		long := func() Rep {
			n := t.Range(16, 90)
			return rep(n, n+t.N(3), str("0123"[t.N(4):][:1]))
		}
		var c Cat
		for k := t.N(3); k > 0; k-- {
			c = append(c, one([]*Elem{str("ab"), rng(0x61, 0x63), grp(cat1(str("1")), cat1(str("-")))}[t.N(3)]))
		}
		c = append(c, long())
		if t.Bool() {
			c = append(c, one(grp(g.Rules[0].Alts...)))
		}
		if t.Bool() {
			c = append(c, one([]*Elem{str("ab"), rng(0x61, 0x63), grp(cat1(str("1")), cat1(str("-")))}[t.N(3)]))
		}
		g.Rules[0].Alts = []Cat{c}
		t.Label("long-trail")
	}
	t.Say("grammar: %s | root %s | options %+v", g.Show(), root, to)
	if g.tgSize(root, to) > 150 {
		t.Label("too-large")
		return
	}
	lg := g.parse(t)
	build := func() *goabnf.TransitionGraph {
		tg, err := lg.TransitionGraph(root, to.lib()...)
		if err != nil {
			t.Failf("no graph: %v", err)
		}
		return tg
	}
	tg := build()
	gr := readGraph(tg)
	live := gr.viable()
	vars := make([][]string, len(gr.nodes))
	all := true
	sum, nlive, branch := 0, 0, false
	edges := 0
	for i, n := range gr.nodes {
		if !live[i] {
			continue
		}
		nlive++
		v, ok := variants(n.e, 2000)
		all = all && ok
		vars[i] = v
		sum += len(v)
		k := 0
		for _, j := range n.nexts {
			if live[j] {
				k++
			}
		}
		edges += k
		branch = branch || k > 1
	}
	if !all || sum > 4000 {
		t.Label("too-many-values")
		return
	}
	t.Eval()
	if nlive >= 3 && branch {
		t.Nontrivial(g.Text(), to)
		t.Sample("%s %+v: %d nodes, %d edges, %d values", g.Show(), to, nlive, edges, sum)
	}
	levels, full := gr.trails(vars, live, 1500, 40000)
	limit := 4000
	if !full {
		limit = count(levels)
		t.Label("trails-prefix")
	} else {
		t.Label("trails-full")
	}
	memo := map[string]bool{}
	inL := func(p []byte) {
		s := string(p)
		if !memo[s] {
			if len(memo) < 400 && !refAccepts(g, root, p) {
				t.Failf("production %s is not in the language", short(p))
			}
			memo[s] = true
		}
	}
	opts := []goabnf.ReaderOption{}
	if t.Bool() {
		opts = append(opts, goabnf.WithCoverageMode(goabnf.CoverageAllTrails))
	}
	got, done := drain(t, tg.Reader(opts...), limit)
	for _, p := range got {
		inL(p)
	}
	{
		if full && !done {
			t.Failf("the reader does not stop after %d productions, %d expected", len(got), count(levels))
		}
		exact := gr.dupEdges == 0 && len(tg.Entrypoints) == len(gr.entries)+b2i(gr.nilEntry)
		at := 0
		for l, want := range levels {
			if !exact {
				break
			}
			if at+len(want) > len(got) {
				t.Failf("%d productions, %d expected", len(got), count(levels))
			}
			a := toStrings(got[at : at+len(want)])
			b := append([]string(nil), want...)
			sort.Strings(a)
			sort.Strings(b)
			if more, less := diffStrings(a, b); len(more)+len(less) > 0 {
				t.Failf("productions of trails of %d nodes: too many %.300q, missing %.300q", l+1, more, less)
			}
			at += len(want)
		}
		if exact && at != len(got) {
			t.Failf("%d productions, %d expected", len(got), at)
		}
		if !exact && full {
			a, b := map[string]bool{}, map[string]bool{}
			for _, p := range got {
				a[string(p)] = true
			}
			for _, l := range levels {
				for _, s := range l {
					b[s] = true
				}
			}
			if x, y := keys(a), keys(b); x != y {
				t.Failf("productions %.300q, want %.300q", x, y)
			}
			t.Label("duplicate-edges")
		}
	}
	// the same again from a graph built anew: productions do not depend on node
	// identifiers, nor on another reader of the graph
	r1, r2 := tg.Reader(), build().Reader()
	for i := 0; i < len(got) && i < 60; i++ {
		p, q := r1.Scan(), r2.Scan()
		if !bytes.Equal(p, got[i]) || !bytes.Equal(q, got[i]) {
			t.Failf("production %d: %q, again: %q, from a graph built anew: %q", i, got[i], p, q)
		}
	}

	// compact
	cp, done := drain(t, tg.Reader(goabnf.WithCoverageMode(goabnf.CoverageCompact)), 20000)
	if !done {
		t.Failf("the compact reader does not stop")
	}
	bound := edges + nlive + sum + 1
	if len(cp) > bound {
		t.Failf("%d compact productions; %d edges, %d vertices, %d values", len(cp), edges, nlive, sum)
	}
	for _, p := range cp {
		inL(p)
	}
	if nlive > 0 || gr.nilEntry {
		if m := gr.uncovered(vars, live, cp); m != "" {
			t.Failf("no compact production covers %s (%d productions)", m, len(cp))
		}
	} else if len(cp) > 0 {
		t.Failf("compact productions of an empty language: %q", cp)
	}
	cq, _ := drain(t, build().Reader(goabnf.WithCoverageMode(goabnf.CoverageCompact)), 20000)
	if len(cq) != len(cp) {
		t.Failf("%d compact productions, from a graph built anew %d", len(cp), len(cq))
	}
	for i := range cp {
		if !bytes.Equal(cp[i], cq[i]) {
			t.Failf("compact production %d: %q, from a graph built anew %q", i, cp[i], cq[i])
		}
	}
}

func count(l [][]string) (n int) {
	for _, x := range l {
		n += len(x)
	}
	return
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func toStrings(l [][]byte) (out []string) {
	for _, b := range l {
		out = append(out, string(b))
	}
	return
}

// uncovered names a vertex, edge or terminal value that no production can have
// been made through.
func (gr *Graph) uncovered(vars [][]string, live []bool, prods [][]byte) string {
	type edge struct{ a, b int }
	needE := map[edge]bool{}
	needV := map[int]map[string]bool{}
	needNil := gr.nilEntry && gr.nilEnd
	for i, n := range gr.nodes {
		if !live[i] {
			continue
		}
		needV[i] = map[string]bool{}
		for _, v := range vars[i] {
			needV[i][v] = true
		}
		for _, j := range n.nexts {
			if live[j] {
				needE[edge{i, j}] = true
			}
		}
	}
	isVar := make([]map[string]bool, len(gr.nodes))
	for i, v := range vars {
		isVar[i] = map[string]bool{}
		for _, s := range v {
			isVar[i][s] = true
		}
	}
	seen := map[string]bool{}
	for _, p := range prods {
		s := string(p)
		if seen[s] {
			continue
		}
		seen[s] = true
		if s == "" {
			needNil = false
		}
		// forward: node i starts at p; backward: from (i,p) acceptance possible
		n := len(s)
		type st struct{ i, p int }
		fwd := map[st]bool{}
		var order []st
		push := func(i, p int) {
			if live[i] && !fwd[st{i, p}] {
				fwd[st{i, p}] = true
				order = append(order, st{i, p})
			}
		}
		end := func(x st) int {
			l := termMatch(gr.nodes[x.i].e, p[x.p:])
			if l < 0 {
				return -1
			}
			return x.p + l
		}
		for _, i := range gr.entries {
			push(i, 0)
		}
		for k := 0; k < len(order); k++ {
			if e := end(order[k]); e >= 0 {
				for _, j := range gr.nodes[order[k].i].nexts {
					push(j, e)
				}
			}
		}
		// terminals consume at least one byte, so start positions order the states
		sort.SliceStable(order, func(a, b int) bool { return order[a].p > order[b].p })
		acc := map[st]bool{}
		for _, x := range order {
			e := end(x)
			if e < 0 {
				continue
			}
			ok := e == n && gr.nodes[x.i].end
			for _, j := range gr.nodes[x.i].nexts {
				if acc[st{j, e}] {
					ok = true
					delete(needE, edge{x.i, j})
				}
			}
			if ok {
				acc[x] = true
				delete(needV[x.i], s[x.p:e])
			}
		}
	}
	if needNil {
		return "the empty word"
	}
	for i := range gr.nodes {
		for v := range needV[i] {
			return fmt.Sprintf("value %q of node %s", v, elemText(gr.nodes[i].e))
		}
	}
	for e := range needE {
		return fmt.Sprintf("the edge from %s to %s", elemText(gr.nodes[e.a].e), elemText(gr.nodes[e.b].e))
	}
	_ = strings.ToLower
	return ""
}
