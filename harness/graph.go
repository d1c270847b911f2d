package main

import (
	"strings"

	goabnf "github.com/pandatix/go-abnf"
)

// A transition graph read through its public fields, as a finite automaton over
// terminals (and rule names, when they are not expanded).

type gnode struct {
	id    string
	e     *Elem
	nexts []int
	end   bool
	entry bool
	lib   *goabnf.Node
}

type Graph struct {
	nodes     []*gnode
	entries   []int
	nilEntry  bool
	nilEnd    bool
	edges     int
	deadEnds  int // endpoints no entrypoint reaches
	nilNexts  bool
	badNode   string
	dupEdges  int
	dupNodeID bool
}

func readGraph(tg *goabnf.TransitionGraph) *Graph {
	gr := &Graph{}
	at := map[*goabnf.Node]int{}
	ids := map[string]bool{}
	var todo []*goabnf.Node
	get := func(n *goabnf.Node) int {
		if k, ok := at[n]; ok {
			return k
		}
		k := len(gr.nodes)
		at[n] = k
		e, err := elemFromLib(n.Elem)
		if err != nil {
			gr.badNode = err.Error()
			e = prose("?")
		}
		gr.nodes = append(gr.nodes, &gnode{id: n.ID, e: e, lib: n})
		if ids[n.ID] {
			gr.dupNodeID = true
		}
		ids[n.ID] = true
		todo = append(todo, n)
		return k
	}
	for _, n := range tg.Entrypoints {
		if n == nil {
			gr.nilEntry = true
			continue
		}
		k := get(n)
		if !gr.nodes[k].entry {
			gr.nodes[k].entry = true
			gr.entries = append(gr.entries, k)
		}
	}
	for len(todo) > 0 {
		n := todo[0]
		todo = todo[1:]
		k := at[n]
		seen := map[int]bool{}
		for _, x := range n.Nexts {
			if x == nil {
				gr.nilNexts = true
				continue
			}
			j := get(x)
			if seen[j] {
				gr.dupEdges++
				continue
			}
			seen[j] = true
			gr.nodes[k].nexts = append(gr.nodes[k].nexts, j)
			gr.edges++
		}
	}
	for _, n := range tg.Endpoints {
		if n == nil {
			gr.nilEnd = true
			continue
		}
		if k, ok := at[n]; ok {
			gr.nodes[k].end = true
		} else {
			gr.deadEnds++
		}
	}
	return gr
}

// accepts runs the automaton on the input of r (a solved reference), which
// answers for rule-name nodes.
func (gr *Graph) accepts(r *Ref) bool {
	n := r.n
	if gr.nilEntry && gr.nilEnd && n == 0 {
		return true
	}
	type st struct{ k, p int }
	seen := map[st]bool{}
	var todo []st
	push := func(k, p int) {
		s := st{k, p}
		if !seen[s] {
			seen[s] = true
			todo = append(todo, s)
		}
	}
	for _, k := range gr.entries {
		push(k, 0)
	}
	for len(todo) > 0 {
		s := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		nd := gr.nodes[s.k]
		done := func(q int) bool {
			if q == n && nd.end {
				return true
			}
			for _, j := range nd.nexts {
				push(j, q)
			}
			return false
		}
		if nd.e.K == KRef {
			rl := r.g.lookup(nd.e.Name)
			if rl == nil {
				continue
			}
			k, ok := r.altOf[rl]
			if !ok {
				continue
			}
			hit := false
			r.m[k][s.p].each(func(q int) { hit = done(q) || hit })
			if hit {
				return true
			}
			continue
		}
		if l := termMatch(nd.e, r.in[s.p:]); l >= 0 {
			if done(s.p + l) {
				return true
			}
		}
	}
	return false
}

type tgOpts struct {
	rules, chars, nums bool
	thr                int // 0: default
	maxNodes           int
}

func (o tgOpts) lib() (out []goabnf.TGOption) {
	if o.rules {
		out = append(out, goabnf.WithDeflateRules(true))
	}
	if o.chars {
		out = append(out, goabnf.WithDeflateCharVals(true))
	}
	if o.nums {
		out = append(out, goabnf.WithDeflateNumVals(true))
	}
	if o.thr > 0 {
		out = append(out, goabnf.WithRepetitionThreshold(o.thr))
	}
	if o.maxNodes != 0 {
		out = append(out, goabnf.WithMaxNodes(o.maxNodes))
	}
	return
}

// tgSize estimates nodes and edges of the graph of a rule, repetitions unrolled.
func (g *G) tgSize(root string, o tgOpts) (nodes int) {
	const lim = 1 << 30
	memo := map[*Rule]int{}
	var alts func(a []Cat) int
	elem := func(e *Elem) int {
		switch e.K {
		case KGroup, KOpt:
			return alts(e.Alts)
		case KStr:
			if o.chars {
				return 2 * len(e.Runes)
			}
			return 1
		case KNum:
			if !o.nums {
				return 1
			}
			if e.Range {
				if !e.productive() {
					return 1
				}
				return int(min(e.Vals[1], 0x10FFFF)-e.Vals[0]) + 1
			}
			return len(e.Vals)
		case KRef:
			if !o.rules {
				return 1
			}
			rl := g.lookup(e.Name)
			if rl == nil {
				return 1
			}
			if v, ok := memo[rl]; ok {
				return v
			}
			v := alts(rl.Alts)
			memo[rl] = v
			return v
		}
		return 1
	}
	alts = func(a []Cat) int {
		s := 0
		for _, c := range a {
			for _, r := range c {
				n := max(1, r.Min, r.Max)
				if thr := b2i(o.thr == 0)*256 + o.thr; n > thr {
					n = 1 // refused, hence not built
				}
				x := elem(r.E)
				if n > lim || x > lim/n {
					return lim
				}
				s += n * x
				if s > lim {
					return lim
				}
			}
		}
		return s
	}
	return alts(g.lookup(root).Alts)
}

// tgFlaws lists what must make the construction fail: error classes.
func (g *G) tgFlaws(root string, o tgOpts) map[string]bool {
	thr := 256
	if o.thr > 0 {
		thr = o.thr
	}
	out := map[string]bool{}
	seen := map[*Rule]bool{}
	var rule func(r *Rule)
	rule = func(r *Rule) {
		if r == nil || seen[r] {
			return
		}
		seen[r] = true
		walkAlts(r.Alts, func(e *Elem, rp Rep) {
			switch {
			case rp.Max != Inf && rp.Min > rp.Max:
				out["minmax"] = true
			case rp.Max == Inf:
				if rp.Min > thr {
					out["threshold"] = true
				}
			case rp.Max != 1 && rp.Max > thr:
				out["threshold"] = true
			}
			if e.K == KProse {
				out["prose"] = true
			}
			if e.K == KRef && o.rules {
				rule(g.lookup(e.Name))
			}
		})
	}
	rule(g.lookup(root))
	return out
}

func lowerSet(ss []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range ss {
		m[strings.ToLower(s)] = true
	}
	return m
}

// walk draws a text the graph spells: a walk from an entrypoint to an endpoint.
// ok is false when the walk found no end. g gives the words of rule nodes.
func (gr *Graph) walk(t *T, g *G) (out []byte, ok bool) {
	if len(gr.entries) == 0 {
		return nil, false
	}
	k := gr.entries[t.N(len(gr.entries))]
	for step := 0; step < 40 && len(out) < 60; step++ {
		n := gr.nodes[k]
		switch n.e.K {
		case KRef:
			w, ok := g.derive(t, n.e.Name, 4)
			if !ok {
				return nil, false
			}
			out = append(out, w...)
		case KStr, KNum:
			if !n.e.productive() {
				return nil, false
			}
			out = append(out, terminal(t, n.e, true)...)
		default:
			return nil, false
		}
		if n.end && (len(n.nexts) == 0 || t.Pct(35)) {
			return out, true
		}
		if len(n.nexts) == 0 {
			return nil, false
		}
		k = n.nexts[t.N(len(n.nexts))]
	}
	return nil, false
}
