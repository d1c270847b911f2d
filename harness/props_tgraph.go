package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
)

func init() {
	register(&Prop{
		ID: "C15", Quick: 15000, Thorough: 300000,
		Rule: "a case is a random grammar (mostly non-recursive), a rule, a random choice of expansion options and thresholds, and 10 inputs. Oracle: the graph read through its public fields and run as an automaton accepts an input exactly when the reference recogniser does; expanded graphs hold only the promised kinds of node; " +
			"recursion, prose, too large repetitions, undefined rules and too many nodes give their typed errors; Mermaid text holds exactly the nodes and edges. Non-trivial: an accepted non-empty input that is not a single terminal of the grammar; distinct by grammar, options and input.",
		Check: checkC15,
	})
}

func graphGrammar(t *T) (*G, GenOpt) {
	o := GenOpt{MaxRules: 3, MaxDepth: 2, Acyclic: true, Core: true, MaxCount: 3}
	switch t.W(35, 20, 20, 15, 10) {
	case 1:
		o.MaxRules, o.MaxDepth, o.MaxAlts, o.MaxCats = 2, 4, 2, 2
	case 2:
		o.Surrogates, o.BadRange, o.WideRange = true, true, t.Bool()
	case 3:
		o.MaxRules, o.MaxCount, o.BigCounts = 2, 8, true
	case 4:
		o.MaxRules, o.MaxAlts, o.MaxCats, o.MaxDepth = 1, 2, 2, 1
	}
	return nil, o
}

func randTG(t *T) tgOpts {
	o := tgOpts{rules: t.Pct(65), chars: t.Bool(), nums: t.Pct(45)}
	return o
}

func checkC15(t *T) {
	_, o := graphGrammar(t)
	if t.Pct(6) {
		o.Acyclic = false
	}
	o.Prose = t.Pct(6)
	g := genGrammar(t, o)
	wide := t.Pct(3)
	if wide { // many successors per node
		lo := uint64(0x20 + t.N(0x60))
		var e *Elem = &Elem{K: KNum, Base: 'x', Range: true, Vals: []uint64{lo, lo + 50 + uint64(t.N(60))}}
		if t.Bool() {
			e = grp(cat(one(str("ab")), one(e)), cat1(e))
		}
		n := t.N(3)
		g.Rules[0].Alts = append(g.Rules[0].Alts[:1:1], cat(rep(n, n+t.N(3), e)))
	}
	undef := false
	if t.Pct(4) {
		g.Rules[0].Alts = append(g.Rules[0].Alts, cat1(str("z"), ref("undefined-rule")))
		undef = true
	}
	root := g.Rules[0].Name
	if t.Pct(15) {
		root = g.Rules[t.N(len(g.Rules))].Name
	}
	to := randTG(t)
	if wide {
		root, to.nums = g.Rules[0].Name, true
	}
	if t.Pct(12) {
		to.thr = 1 + t.N(8)
	}
	if t.Pct(12) {
		to.maxNodes = 1 << 20 // without effect
	}
	if t.Pct(6) && !to.rules {
		addBeyond(t, g)
	}
	t.Say("grammar: %s | root %s | options %+v", g.Show(), root, to)
	lg := g.parse(t, goabnf.WithValidation(!undef && !o.BadRange && t.Bool()))
	if t.Pct(3) {
		var nf *goabnf.ErrRuleNotFound
		if tg, err := lg.TransitionGraph("no-such-rule", to.lib()...); !errors.As(err, &nf) || tg != nil {
			t.Failf("an unknown rule gives %v, %v", tg, err)
		}
	}
	call := casing(t, root)
	cyc := g.cyclic(root)
	var flaws map[string]bool
	size := 0
	if !cyc {
		flaws = g.tgFlaws(root, to)
		size = g.tgSize(root, to)
		limit := 300
		if wide || t.Pct(15) {
			limit = 700
		}
		if size > limit && len(flaws) == 0 || size > 1500 {
			t.Label("too-large")
			return
		}
	}
	t.Eval()
	tg, err := lg.TransitionGraph(call, to.lib()...)
	if undef && to.rules {
		var dep *goabnf.ErrDependencyNotFound
		if err == nil || tg != nil || !errors.As(err, &dep) {
			t.Failf("a grammar with an undefined rule expands to %v, %v", tg, err)
		}
		t.Label("undefined")
		return
	}
	if cyc {
		var ce *goabnf.ErrCyclicRule
		if !errors.As(err, &ce) || tg != nil {
			t.Failf("a recursive rule gives %v, %v", tg, err)
		}
		t.Label("cyclic")
		return
	}
	if len(flaws) > 0 {
		ok := flaws["prose"] && errors.Is(err, goabnf.ErrProseValInTransitionGraph) ||
			flaws["threshold"] && errors.Is(err, goabnf.ErrRepetitionThreshold) ||
			flaws["minmax"] && (errors.Is(err, goabnf.ErrRepetitionMinGtMax) || errors.Is(err, goabnf.ErrRepetitionMinNotOne))
		if !ok || tg != nil {
			t.Failf("with %v: %v, %v", flaws, tg, err)
		}
		for k := range flaws {
			t.Label("refused-" + k)
		}
		return
	}
	if err != nil {
		t.Failf("no graph: %v", err)
	}
	gr := readGraph(tg)
	checkGraphShape(t, gr, to)
	checkMermaid(t, tg, gr)

	// the node bound: exceeded or without effect
	if wide || t.Pct(40) {
		k := 1 + t.N(2*len(gr.nodes)+2)
		b := to
		b.maxNodes = k
		btg, err := lg.TransitionGraph(root, b.lib()...)
		var me *goabnf.ErrMaxNodesExceeded
		switch {
		case err == nil:
			bg := readGraph(btg)
			if len(bg.nodes) > k || len(bg.nodes) != len(gr.nodes) || bg.edges != gr.edges {
				t.Failf("under a bound of %d nodes: %d nodes and %d edges; without: %d and %d", k, len(bg.nodes), bg.edges, len(gr.nodes), gr.edges)
			}
			b.maxNodes = k + 1 + t.N(50)
			if _, err := lg.TransitionGraph(root, b.lib()...); err != nil {
				t.Failf("fine under a bound of %d nodes, but not of %d: %v", k, b.maxNodes, err)
			}
			t.Label("bound-kept")
		case errors.As(err, &me):
			if me.Max != k || btg != nil {
				t.Failf("under a bound of %d nodes: %v, %v", k, btg, err)
			}
			t.Label("bound-exceeded")
		default:
			t.Failf("under a bound of %d nodes: %v", k, err)
		}
		b.maxNodes = -t.N(3)
		if btg, err := lg.TransitionGraph(root, b.lib()...); err != nil {
			t.Failf("a bound of %d (none) gives %v", b.maxNodes, err)
		} else if bg := readGraph(btg); len(bg.nodes) != len(gr.nodes) {
			t.Failf("a bound of %d (none) gives %d nodes", b.maxNodes, len(bg.nodes))
		}
	}

	inputs := 10
	if size > 300 {
		inputs = 3
		t.Label("large-graph")
	}
	for k := 0; k < inputs; k++ {
		in := g.genInput(t, root, 60)
		if t.Pct(4) {
			in = append(in, "�"...)
		}
		if k == 0 {
			in = nil
		}
		r := newRef(g, root, in)
		want := r.Accepts()
		t.Say("input: %s reference: %v", short(in), want)
		if got := gr.accepts(r); got != want {
			t.Failf("the graph accepts: %v, want %v", got, want)
		}
		if want && len(in) > 1 {
			t.Label("accepted")
			t.Nontrivial(g.Text(), root, to, string(in))
			t.Sample("%s | %s %+v: %d nodes, %d edges, on %s", g.Show(), root, to, len(gr.nodes), gr.edges, short(in))
		}
	}
	for k := 0; k < 6; k++ {
		in, ok := gr.walk(t, g)
		if !ok {
			continue
		}
		t.Label("walk")
		if !refAccepts(g, root, in) {
			t.Failf("the graph spells %s, which the rule does not derive", short(in))
		}
	}
	for _, in := range []string{"�", "\x00"} {
		r := newRef(g, root, []byte(in))
		if got, want := gr.accepts(r), r.Accepts(); got != want {
			t.Failf("on %q the graph accepts: %v, want %v", in, got, want)
		}
	}
}

func checkGraphShape(t *T, gr *Graph, to tgOpts) {
	if gr.badNode != "" {
		t.Failf("a node without a terminal: %s", gr.badNode)
	}
	if gr.nilNexts {
		t.Failf("a nil successor")
	}
	if gr.dupNodeID {
		t.Failf("two nodes share an identifier")
	}
	if gr.nilEntry != gr.nilEnd {
		t.Failf("the empty node is an entrypoint: %v, an endpoint: %v", gr.nilEntry, gr.nilEnd)
	}
	for _, n := range gr.nodes {
		switch n.e.K {
		case KRef:
			if to.rules {
				t.Failf("rule node %q in a graph with rules expanded", n.e.Name)
			}
		case KStr:
			if to.chars && !(len(n.e.Runes) == 1 && n.e.Sens) {
				t.Failf("string node %s in a graph with strings expanded", elemText(n.e))
			}
		case KNum:
			if to.nums && (n.e.Range || len(n.e.Vals) != 1) {
				t.Failf("num-val node %s in a graph with num-vals expanded", elemText(n.e))
			}
		default:
			t.Failf("a node of kind %d", n.e.K)
		}
	}
}

func checkMermaid(t *T, tg *goabnf.TransitionGraph, gr *Graph) {
	var want []string
	labelled := map[string]bool{}
	for _, n := range gr.nodes {
		labelled[n.id] = mermaidLabel(n) != ""
		s := "node " + n.id + " " + mermaidLabel(n)
		if n.end {
			s += " end"
		}
		if n.entry {
			s += " entry"
		}
		want = append(want, s)
		for _, x := range n.lib.Nexts {
			want = append(want, "edge "+n.id+" "+x.ID)
		}
	}
	if gr.nilEntry {
		want = append(want, "empty")
	}
	var got []string
	for i, l := range strings.Split(tg.ToMermaid(), "\n") {
		l = strings.TrimSpace(l)
		switch {
		case i == 0:
			if !strings.HasPrefix(l, "flowchart") {
				t.Failf("Mermaid text starts with %q", l)
			}
		case l == "" || strings.HasPrefix(l, "classDef"):
		case strings.HasPrefix(l, "emptyNode"):
			got = append(got, "empty")
		case strings.Contains(l, " --> "):
			p := strings.SplitN(l, " --> ", 2)
			got = append(got, "edge "+p[0]+" "+p[1])
		default:
			if len(l) < 36 {
				t.Failf("Mermaid line %q", l)
			}
			k := strings.IndexAny(l, "([")
			if k < 0 {
				t.Failf("Mermaid line %q", l)
			}
			a, b := strings.Index(l, `"`), strings.LastIndex(l, `"`)
			if a < 0 || b <= a {
				t.Failf("Mermaid line %q", l)
			}
			s := "node " + l[:k] + " "
			lab := l[a+1 : b]
			if strings.ContainsAny(lab, "\"`\r\n") {
				t.Failf("Mermaid label %q holds a quote", lab)
			}
			if labelled[l[:k]] {
				s += lab
			}
			if strings.HasPrefix(l[k:], "(((") {
				s += " end"
			}
			if strings.HasSuffix(l, ":::entrypoint") {
				s += " entry"
			}
			got = append(got, s)
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if x, y := fmt.Sprint(got), fmt.Sprint(want); x != y {
		more, less := diffStrings(got, want)
		t.Failf("Mermaid text holds %.300q too many and lacks %.300q", more, less)
	}
}

// mermaidLabel is the text a node is shown with: the rule's name, the num-val, or
// a string of letters and digits; "" for strings that need escaping.
func mermaidLabel(n *gnode) string {
	e := n.e
	switch e.K {
	case KRef:
		return e.Name
	case KStr:
		for _, r := range e.Runes {
			if !(r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
				return ""
			}
		}
		return string(e.Runes)
	case KNum:
		v := n.lib.Elem.(goabnf.ElemNumVal)
		sep := "."
		if e.Range {
			sep = "-"
		}
		return "0" + v.Base + strings.Join(v.Elems, sep)
	}
	return ""
}

// diffStrings compares two sorted lists as multisets.
func diffStrings(a, b []string) (onlyA, onlyB []string) {
	m := map[string]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
	}
	for x, k := range m {
		if k > 0 {
			onlyA = append(onlyA, x)
		} else if k < 0 {
			onlyB = append(onlyB, x)
		}
	}
	sort.Strings(onlyA)
	sort.Strings(onlyB)
	return
}
