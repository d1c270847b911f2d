package main

import (
	"errors"
	"math/big"
	"strconv"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
)

// forestObs is what a user can see of a parse by either engine.
type forestObs struct {
	valid, amb bool
	trees      string
	tree       *PTree
	nodes      int
	errText    string
}

type forester interface {
	Valid() bool
	Ambiguous() bool
	NumTrees() *big.Int
	Tree() *goabnf.ParseTree
	Nodes() int
}

// runEngine parses with one engine; a nil forest with an error is checked to be
// a nil pointer.
func runEngine(t *T, engine int, in []byte, lg *goabnf.Grammar, root string, opts ...goabnf.ForestOption) (forester, string, error) {
	if engine == 0 {
		f, err := goabnf.ParseForest(in, lg, root, opts...)
		if err != nil {
			if f != nil {
				t.Failf("ParseForest returned both a forest and the error %v", err)
			}
			return nil, "", err
		}
		e := ""
		if pe := f.ParseError(); pe != nil {
			e = pe.Error()
		}
		return f, e, nil
	}
	f, err := goabnf.ParseBSR(in, lg, root, opts...)
	if err != nil {
		if f != nil {
			t.Failf("ParseBSR returned both a forest and the error %v", err)
		}
		return nil, "", err
	}
	return f, "", nil
}

func observe(f forester, e string) forestObs {
	return forestObs{f.Valid(), f.Ambiguous(), f.NumTrees().String(), fromLibTree(f.Tree()), f.Nodes(), e}
}

func sameObs(t *T, what string, a, b forestObs) {
	if a.valid != b.valid || a.amb != b.amb || a.trees != b.trees || a.nodes != b.nodes || a.errText != b.errText {
		t.Failf("%s: valid %v/%v ambiguous %v/%v trees %s/%s nodes %d/%d error %q/%q", what,
			a.valid, b.valid, a.amb, b.amb, a.trees, b.trees, a.nodes, b.nodes, a.errText, b.errText)
	}
	if (a.tree == nil) != (b.tree == nil) {
		t.Failf("%s: one has a tree, the other none", what)
	}
	if a.trees == "1" && a.tree.String() != b.tree.String() {
		t.Failf("%s: different trees of an unambiguous input: %s and %s", what, a.tree, b.tree)
	}
}

// budgetScan finds the outcome of every budget in 1..hi (all of them when there
// are few, a bisection plus samples otherwise) and checks monotony; it returns
// the least accepted budget, or hi+1.
func budgetScan(t *T, hi int, accepts func(int) bool) int {
	if hi <= 24 {
		th := hi + 1
		for b := 1; b <= hi; b++ {
			ok := accepts(b)
			if ok && th > hi {
				th = b
			}
			if !ok && th <= hi {
				t.Failf("a budget of %d is enough, a budget of %d is not", th, b)
			}
		}
		return th
	}
	lo, top := 0, hi+1 // lo refused, top accepted or out of range
	for top-lo > 1 {
		m := lo + (top-lo)/2
		if accepts(m) {
			top = m
		} else {
			lo = m
		}
	}
	for i := 0; i < 6; i++ {
		b := t.Range(1, hi)
		if ok := accepts(b); ok != (b >= top) {
			t.Failf("the least budget accepted by bisection is %d, a budget of %d is accepted: %v", top, b, ok)
		}
	}
	return top
}

var engineName = []string{"ParseForest", "ParseBSR"}

func init() {
	register(&Prop{
		ID:       "C18",
		Quick:    9000,
		Thorough: 300000,
		Rule: "a case is a random grammar and one or two inputs of up to 16 bytes; both engines run unbounded and under every node budget and nonterminal budget around what they need " +
			"(bisection plus samples when there are many). Oracle: the unbounded run's observables, its Nodes(), monotony of the outcome, the count of reachable rules, " +
			"and exact thresholds where they are known (BSR set size; forests of choice-free grammars; nonterminals of grammars of plain references). A share of cases runs a highly ambiguous " +
			"grammar over some hundred bytes, infeasible unbounded, under a small budget. " +
			"Non-trivial: an accepted input refused under one budget and parsed under a larger one; distinct by grammar text and input.",
		Check: checkC18,
	})
}

func checkC18(t *T) {
	switch t.W(82, 10, 8) {
	case 1:
		checkC18Linear(t)
		return
	case 2:
		checkC18Explosive(t)
		return
	}
	g, root, lg := genLib(t, recogOpt(t))
	t.labelFeats(g.feats(root))
	in := g.genInput(t, root, 16)
	t.Say("input: %s", short(in))
	for engine := 0; engine < 2; engine++ {
		budgetNodes(t, g, root, lg, in, engine, false)
	}
	budgetSlots(t, g, root, lg, in)
}

func budgetNodes(t *T, g *G, root string, lg *goabnf.Grammar, in []byte, engine int, exact bool) {
	name := engineName[engine]
	f0, e0, err := runEngine(t, engine, in, lg, root, goabnf.WithMaxForestNodes(0))
	if err != nil {
		t.Failf("%s fails without a budget: %v", name, err)
	}
	base := observe(f0, e0)
	t.Eval()
	fd, ed, err := runEngine(t, engine, in, lg, root)
	if err != nil {
		t.Failf("%s fails without options: %v", name, err)
	}
	sameObs(t, name+" without options against a budget of 0", observe(fd, ed), base)
	refused, accepted := false, false
	accepts := func(b int) bool {
		t.Eval()
		opts := []goabnf.ForestOption{goabnf.WithMaxForestNodes(b)}
		if b%3 == 1 {
			opts = append(opts, goabnf.WithMaxSlots(0))
		}
		f, e, err := runEngine(t, engine, in, lg, root, opts...)
		if err != nil {
			var tl *goabnf.ErrForestTooLarge
			if !errors.As(err, &tl) {
				t.Failf("%s under a budget of %d nodes fails with %T %v", name, b, err, err)
			}
			if tl.Max != b {
				t.Failf("%s under a budget of %d nodes reports a budget of %d", name, b, tl.Max)
			}
			if engine == 1 && b >= base.nodes {
				t.Failf("%s refuses a set of %d elements under a budget of %d", name, base.nodes, b)
			}
			refused = true
			return false
		}
		o := observe(f, e)
		if o.nodes > b {
			t.Failf("%s under a budget of %d has %d nodes", name, b, o.nodes)
		}
		sameObs(t, name+" under a budget of "+strconv.Itoa(b)+" against none", o, base)
		accepted = true
		return true
	}
	hi := base.nodes + 3
	th := budgetScan(t, hi, accepts)
	if engine == 1 && th != max(base.nodes, 1) {
		t.Failf("ParseBSR: the least accepted budget is %d for %d elements", th, base.nodes)
	}
	if engine == 0 {
		if exact && th != base.nodes {
			t.Failf("ParseForest on a choice-free grammar: the least accepted budget is %d for %d nodes", th, base.nodes)
		}
		if th > hi {
			// More nodes were allocated than the answer keeps; a coarse bound
			// from the grammar's size must do.
			n := len(in) + 1
			coarse := 64 * (g.size() + 4) * (n + 3) * n * n
			if !accepts(coarse) {
				t.Failf("ParseForest refuses a budget of %d", coarse)
			}
			budgetScan(t, min(coarse, 4*hi+40), accepts)
		}
	}
	if refused && accepted && base.valid && len(in) > 0 {
		t.Nontrivial(engine, g.Text(), root, string(in))
		t.Sample("%s | %s %s: %s, %d nodes, least budget %d", g.Show(), root, short(in), name, base.nodes, th)
	}
}

// size counts the symbols of the grammar (rules, items, nested ones included).
func (g *G) size() int {
	n := 0
	for _, r := range g.Rules {
		n++
		for range r.Alts {
			n++
		}
		walkAlts(r.Alts, func(e *Elem, _ Rep) {
			n++
			n += len(e.Alts)
			n += len(e.Vals) + len(e.Runes)
		})
	}
	return n
}

func budgetSlots(t *T, g *G, root string, lg *goabnf.Grammar, in []byte) {
	engine := t.N(2)
	name := engineName[engine]
	f0, e0, err := runEngine(t, engine, in, lg, root, goabnf.WithMaxSlots(0))
	if err != nil {
		t.Failf("%s fails without a nonterminal budget: %v", name, err)
	}
	base := observe(f0, e0)
	rules, undef := g.reach(root)
	// Distinct nonterminals: rules, repetitions, groups and options by their text,
	// taken with and without regard to case.
	lower, upper := len(rules)+len(undef), len(rules)+len(undef)
	plain := true
	exact, folded := map[string]bool{}, map[string]bool{}
	add := func(kind, text string) {
		upper++
		exact[kind+text] = true
		folded[kind+strings.ToLower(text)] = true
	}
	for _, r := range rules {
		walkAlts(r.Alts, func(e *Elem, rp Rep) {
			if rp.Min != 1 || rp.Max != 1 {
				add("r", repText(rp))
			}
			if rp.Max != Inf && rp.Min > rp.Max {
				plain = false
			}
			if e.K == KGroup || e.K == KOpt {
				add("e", elemText(e))
			}
		})
	}
	distinct := lower + len(exact)
	plain = plain && len(exact) == len(folded)
	th := budgetScan(t, upper, func(b int) bool {
		t.Eval()
		opts := []goabnf.ForestOption{goabnf.WithMaxSlots(b)}
		if b%3 == 1 {
			opts = append([]goabnf.ForestOption{goabnf.WithMaxForestNodes(0)}, opts...)
		}
		f, e, err := runEngine(t, engine, in, lg, root, opts...)
		if err != nil {
			var tl *goabnf.ErrGrammarTooLarge
			if !errors.As(err, &tl) {
				t.Failf("%s under a budget of %d nonterminals fails with %T %v", name, b, err, err)
			}
			if tl.Max != b {
				t.Failf("%s under a budget of %d nonterminals reports a budget of %d", name, b, tl.Max)
			}
			return false
		}
		if b < lower {
			t.Failf("%s under a budget of %d nonterminals accepts a grammar of %d reachable rules", name, b, lower)
		}
		sameObs(t, name+" under a budget of "+strconv.Itoa(b)+" nonterminals against none", observe(f, e), base)
		return true
	})
	if th > upper {
		t.Failf("%s refuses a grammar of at most %d nonterminals under a budget of %d", name, upper, upper)
	}
	if plain {
		t.Label("slots-exact")
		if th != distinct {
			t.Failf("%s: the least accepted nonterminal budget is %d for %d distinct rules, repetitions, groups and options", name, th, distinct)
		}
	}
}

// checkC18Linear: grammars without any choice, where every node belongs to the
// one parse.
func checkC18Linear(t *T) {
	g := &G{}
	n := t.Range(1, 5)
	for i := 0; i < n; i++ {
		c := Cat{}
		for k := t.Range(1, 4); k > 0; k-- {
			switch t.W(50, 30, 20) {
			case 1:
				if i+1 < n {
					c = append(c, one(ref("r"+strconv.Itoa(t.Range(i+1, n-1)))))
					continue
				}
				fallthrough
			case 0:
				c = append(c, one(str([]string{"a", "bc", "", "a"}[t.N(4)])))
			case 2:
				c = append(c, one(grp(cat(one(str("x")), one(str("y"))))))
			}
		}
		g.Rules = append(g.Rules, &Rule{Name: "r" + strconv.Itoa(i), Alts: []Cat{c}})
	}
	g.Rules[0].Alts[0] = append(g.Rules[0].Alts[0], one(ref("r"+strconv.Itoa(n-1))))
	if n == 1 {
		g.Rules[0].Alts[0] = g.Rules[0].Alts[0][:len(g.Rules[0].Alts[0])-1]
	}
	root := "r0"
	t.Say("grammar: %s", g.Show())
	lg := g.parse(t)
	in, ok := g.derive(t, root, 50)
	if !ok || len(in) > 60 {
		t.Discard()
	}
	t.Say("input: %s", short(in))
	t.Label("choice-free")
	budgetNodes(t, g, root, lg, in, 0, true)
	budgetNodes(t, g, root, lg, in, 1, true)
}

// checkC18Explosive: inputs whose forest is far too large to build answer at
// once under a small budget.
func checkC18Explosive(t *T) {
	texts := []string{
		"s = s s s / \"a\"\r\n",
		"s = s s / s s s / \"a\" / \"\"\r\n",
		"s = t / \"a\"\r\nt = s s [s] / s t\r\n",
		"s = 1*( *s \"a\" *s )\r\n",
		"s = *u\r\nu = \"a\" / s s / s \"a\" s\r\n",
	}
	text := texts[t.N(len(texts))]
	n := 300 + t.N(500)
	b := 1 + t.N(4000)
	engine := t.N(2)
	t.Say("grammar: %q input: %d times a; budget %d; %s", text, n, b, engineName[engine])
	t.Label("explosive")
	lg, err := goabnf.ParseABNF([]byte(text))
	if err != nil {
		t.Failf("grammar rejected: %v", err)
	}
	in := make([]byte, n)
	for i := range in {
		in[i] = 'a'
	}
	t.Eval()
	_, _, err = runEngine(t, engine, in, lg, "s", goabnf.WithMaxForestNodes(b))
	var tl *goabnf.ErrForestTooLarge
	if !errors.As(err, &tl) || tl.Max != b {
		t.Failf("%s: %v", engineName[engine], err)
	}
}
