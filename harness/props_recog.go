package main

import (
	"errors"
	"fmt"
	"math/big"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
)

// recogOpt draws a grammar profile for the recognition-style properties.
func recogOpt(t *T) GenOpt {
	o := GenOpt{MaxRules: 4, MaxDepth: 2}
	switch t.W(40, 12, 12, 12, 10, 14) {
	case 1:
		o = GenOpt{MaxRules: 8, MaxDepth: 2, Core: true}
	case 2:
		o = GenOpt{MaxRules: 2, MaxDepth: 4, MaxAlts: 2, MaxCats: 2}
	case 3:
		o = GenOpt{MaxRules: 2, MaxDepth: 2, MaxCount: 12, BigCounts: true}
	case 4:
		o = GenOpt{MaxRules: 3, MaxDepth: 1, MaxAlts: 8, MaxCats: 4, Core: true, WideRange: true}
	case 5:
		o = GenOpt{MaxRules: 3, MaxDepth: 2, Surrogates: true, BadRange: true, WideRange: true}
	}
	o.LessNull = t.Pct(60)
	o.Inject = true
	return o
}

// genLib draws a grammar and hands it to the library, as text or as values.
func genLib(t *T, o GenOpt) (*G, string, *goabnf.Grammar) {
	o.Direct = !o.Prose && t.Pct(12)
	g := genGrammar(t, o)
	if t.Pct(3) && !o.Direct {
		addHuge(t, g)
	}
	if t.Pct(5) {
		addBeyond(t, g)
	}
	root := g.Rules[t.N(len(g.Rules))].Name
	t.Say("grammar: %s", g.Show())
	t.Say("rule: %s", root)
	if o.Direct {
		t.Say("(grammar built as values)")
		return g, root, g.build()
	}
	return g, root, g.parse(t)
}

// addHuge adds a repetition with an extreme bound to the first rule.
func addHuge(t *T, g *G) {
	b := []int{1000, 65536, 1 << 20, 1 << 31, 1 << 40}[t.N(5)]
	e := str("a")
	r := Rep{0, b, e}
	if t.Pct(30) {
		r = Rep{b, Inf, e}
	}
	rl := g.Rules[0]
	c := rl.Alts[0]
	rl.Alts[0] = append(Cat{r}, c...)
}

func short(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("%q...(%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func verdict(t *T, lg *goabnf.Grammar, root string, in []byte, want bool) {
	got, err := lg.IsValid(root, in)
	if err != nil {
		t.Failf("IsValid failed: %v", err)
	}
	if got != want {
		t.Failf("IsValid: got %v, want %v", got, want)
	}
	f, err := goabnf.ParseForest(in, lg, root)
	if err != nil {
		t.Failf("ParseForest failed: %v", err)
	}
	if f.Valid() != want {
		t.Failf("ParseForest.Valid: got %v, want %v", f.Valid(), want)
	}
	b, err := goabnf.ParseBSR(in, lg, root)
	if err != nil {
		t.Failf("ParseBSR failed: %v", err)
	}
	if b.Valid() != want {
		t.Failf("ParseBSR.Valid: got %v, want %v", b.Valid(), want)
	}
}

func init() {
	register(&Prop{
		ID:       "C01",
		Quick:    9000,
		Thorough: 400000,
		Rule: "a case is a random grammar (1-8 rules; left/hidden/mutual recursion, groups, options, counted and unbounded repetitions, " +
			"case-(in)sensitive strings, num-val ranges/series up to U+10FFFF, core rules, references in varying case) and 4 inputs: derived words, mutated words, random texts, " +
			"or every text of up to 3 characters over two of its characters; long inputs in a share of cases. Oracle: reference fixpoint recogniser. " +
			"Non-trivial: a non-empty input accepted by the reference, or a rejected one-step mutation of an accepted word; distinct by grammar text and input.",
		Check: checkC01,
	})
	register(&Prop{
		ID:       "C02",
		Quick:    10000,
		Thorough: 400000,
		Rule: "a case is a random grammar and 3 inputs of up to 18 bytes (derived words mostly); a share of highly ambiguous grammars with inputs of up to 60 bytes and of large inputs and grammars (up to 67000 bytes, 2000 rules) whose count is known by construction. Oracle: number of derivation trees counted over the reference recogniser's tables " +
			"(-1: infinitely many). Non-trivial: an input with more than one derivation tree; distinct by grammar text and input.",
		Check: checkC02,
	})
	register(&Prop{
		ID:       "C03",
		Quick:    10000,
		Thorough: 400000,
		Rule: "a case is a random grammar and 3 inputs of up to 40 bytes; a share of highly ambiguous and of large ones (up to 67000 bytes). Oracle: a tree checker (tiling spans; the children of every rule node must match one of the rule's alternatives " +
			"within its repetition bounds, leaves must match the terminal text), nil for rejected inputs, and equality of the two engines' trees when the reference counts exactly one derivation. " +
			"Non-trivial: an accepted non-empty input whose tree has at least two rule nodes; distinct by grammar text and input.",
		Check: checkC03,
	})
}

func checkC01(t *T) {
	if t.Pct(1) {
		scaleVerdict(t)
		return
	}
	if t.Pct(6) {
		checkC01Long(t)
		return
	}
	if t.Pct(1) {
		checkC01Extreme(t)
		return
	}
	var g *G
	var root string
	var lg *goabnf.Grammar
	left := t.Pct(6)
	if left {
		g, root = leftFamily(t), "a"
		t.Say("grammar: %s", g.Show())
		t.Say("rule: a")
		lg = g.parse(t)
		t.Label("left-family")
	} else {
		g, root, lg = genLib(t, recogOpt(t))
	}
	ft := g.feats(root)
	t.labelFeats(ft)
	call := casing(t, root)
	var ins [][]byte
	if left {
		for k := 0; k < 8; k++ {
			var b []byte
			for l := t.N(6); l >= 0; l-- {
				b = append(b, "xyz"[t.W(25, 35, 40)])
			}
			ins = append(ins, b)
		}
		ins = append(ins, []byte("y"), []byte("yz"), []byte("yzz"), []byte("xyzz"))
	} else if t.Pct(15) {
		al := g.alphabetOf(root)
		x, y := al[t.N(len(al))], al[t.N(len(al))]
		ins = append(ins, nil)
		prev := []string{""}
		for l := 1; l <= 3; l++ {
			var nx []string
			for _, p := range prev {
				for _, c := range []rune{x, y} {
					nx = append(nx, p+string(c))
					if x == y {
						break
					}
				}
			}
			for _, s := range nx {
				ins = append(ins, []byte(s))
			}
			prev = nx
		}
		t.Label("exhaustive-short")
	} else {
		for k := 0; k < 4; k++ {
			ins = append(ins, g.genInput(t, root, 40))
		}
	}
	for _, in := range ins {
		t.Eval()
		want := refAccepts(g, root, in)
		t.Say("input: %s reference: %v", short(in), want)
		verdict(t, lg, call, in, want)
		if want {
			t.Label("accepted")
		} else {
			t.Label("rejected")
		}
		if want && len(in) > 0 {
			t.Nontrivial(g.Text(), root, string(in))
			t.Sample("%s | %s accepts %s", g.Show(), root, short(in))
		}
	}
	if t.Pct(5) {
		var nf *goabnf.ErrRuleNotFound
		if _, err := lg.IsValid("no-such-rule", ins[0]); !errors.As(err, &nf) {
			t.Failf("IsValid on an undefined rule: %v", err)
		}
		if _, err := goabnf.ParseForest(ins[0], lg, "no-such-rule"); !errors.As(err, &nf) {
			t.Failf("ParseForest on an undefined rule: %v", err)
		}
		if _, err := goabnf.ParseBSR(ins[0], lg, "no-such-rule"); !errors.As(err, &nf) {
			t.Failf("ParseBSR on an undefined rule: %v", err)
		}
	}
}

// checkC01Extreme: repetition bounds far beyond the input's length. The answer is
// known without a recogniser: how many x there are against the bounds.
func checkC01Extreme(t *T) {
	big := []int{300, 4096, 65535, 65536, 65537, 70000, 100000, 1 << 20, 1<<31 - 1, 1 << 31, 1 << 40, 1<<62 + 1}[t.N(12)]
	lo, hi := 0, Inf
	switch t.N(4) {
	case 0:
		hi = big
	case 1:
		lo = big
	case 2:
		lo, hi = big, big
	case 3:
		lo, hi = t.N(3), big
	}
	x := strS("x")
	var e *Elem
	null := true
	switch t.N(6) {
	case 0:
		e = opt(cat1(x))
	case 1:
		e = grp(cat(rep(0, 1, x)))
	case 2:
		e = ref("e") // e = "x" / ""
	case 3:
		e = grp(cat1(opt(cat1(ref("e")))))
	case 4:
		e, null = x, false
	case 5:
		e, null = grp(cat1(x)), false
	}
	g := &G{Rules: []*Rule{
		{"r", []Cat{cat1(str("<"), ref("body"), str(">"))}},
		{"body", []Cat{cat(rep(lo, hi, e))}},
		{"e", []Cat{cat1(x), cat1(str(""))}},
	}}
	n := t.N(6)
	if null && big > 4096 && big <= 65536 {
		n = t.N(2)
	}
	in := []byte("<" + strings.Repeat("x", n) + ">")
	bad := t.Pct(20)
	if bad {
		in[t.N(len(in))] = 'y'
	}
	want := !bad && (hi == Inf || n <= hi) && (null || n >= lo)
	t.Say("grammar: %s | input: %s expected: %v", g.Show(), short(in), want)
	lg := g.parse(t)
	t.Eval()
	got, err := lg.IsValid("r", in)
	if err != nil || got != want {
		t.Failf("IsValid: %v, %v, want %v", got, err, want)
	}
	refused := null && big > 65536
	var tl *goabnf.ErrGrammarTooLarge
	if null && !refused && big > 4096 && !t.Pct(8) {
		return // the count is part of the state: slow, seldom done
	}
	f, err := goabnf.ParseForest(in, lg, "r")
	if refused {
		if f != nil || !errors.As(err, &tl) {
			t.Failf("ParseForest: a bound of %d over an element that may be empty: %v, want ErrGrammarTooLarge", big, err)
		}
	} else if err != nil || f.Valid() != want {
		t.Failf("ParseForest: %v, want the verdict %v", err, want)
	}
	b, err := goabnf.ParseBSR(in, lg, "r")
	if refused {
		if b != nil || !errors.As(err, &tl) {
			t.Failf("ParseBSR: a bound of %d over an element that may be empty: %v, want ErrGrammarTooLarge", big, err)
		}
	} else if err != nil || b.Valid() != want {
		t.Failf("ParseBSR: %v, want the verdict %v", err, want)
	}
	t.Label("extreme-bounds")
	if want && n > 0 {
		t.Nontrivial(g.Text(), "r", string(in))
	}
}

// checkC01Long: inputs of some hundred bytes over simple grammars.
func checkC01Long(t *T) {
	g := &G{}
	item := []*Elem{str("ab"), rng('a', 'c'), strS("b"), ser(0xE9), ref("item2")}[t.N(5)]
	n := 20 + t.N(120)
	lo, hi := 0, Inf
	switch t.N(5) {
	case 1:
		lo = n - 1 + t.N(3)
	case 2:
		hi = n - 1 + t.N(3)
	case 3:
		lo, hi = n-t.N(3), n+t.N(3)
	}
	switch t.N(4) {
	case 0: // repetition
		g.Rules = append(g.Rules, &Rule{"list", []Cat{cat(rep(lo, hi, item))}})
	case 1: // separated list
		g.Rules = append(g.Rules, &Rule{"list", []Cat{cat(one(item), rep(lo, hi, grp(cat1(str(","), item))))}})
	case 2: // left-recursive list
		g.Rules = append(g.Rules, &Rule{"list", []Cat{cat1(ref("list"), item), cat1(item)}})
	case 3: // nesting
		g.Rules = append(g.Rules, &Rule{"list", []Cat{cat1(str("("), ref("list"), str(")")), cat(rep(0, 3, item))}})
	}
	g.Rules = append(g.Rules, &Rule{"item2", []Cat{cat1(str("x"), rng('0', '9')), cat1(str("y"))}})
	t.Say("grammar: %s", g.Show())
	lg := g.parse(t)
	root := "list"
	var piece = func() string {
		w, _ := (&G{Rules: []*Rule{{"p", []Cat{cat1(item)}}, g.Rules[1]}}).derive(t, "p", 4)
		return string(w)
	}
	var b strings.Builder
	c := n - 1 + t.N(3)
	nest := strings.HasPrefix(g.Rules[0].Alts[0][0].E.text(), `"("`)
	if nest {
		k := c / 2
		b.WriteString(strings.Repeat("(", k) + piece() + strings.Repeat(")", k-t.N(2)))
	} else {
		for i := 0; i < c; i++ {
			if i > 0 && len(g.Rules[0].Alts[0]) == 2 && g.Rules[0].Alts[0][1].E.K == KGroup {
				b.WriteString(",")
			}
			b.WriteString(piece())
		}
	}
	in := []byte(b.String())
	if t.Pct(30) {
		in = mutate(t, in, g.alphabetOf(root))
	}
	if len(in) > 400 {
		in = in[:400]
	}
	t.Eval()
	want := refAccepts(g, root, in)
	t.Say("input: %s reference: %v", short(in), want)
	verdict(t, lg, root, in, want)
	t.Label("long-input")
	if want {
		t.Nontrivial(g.Text(), root, string(in))
		t.Label("long-accepted")
	}
}

func (e *Elem) text() string { return elemText(e) }

// leftFamily is a small grammar with left recursion behind things that can
// vanish, over the characters x, y and z.
func leftFamily(t *T) *G {
	gg := &gen{t: t, o: GenOpt{Alpha: []rune("xyz"), MaxCount: 3}}
	g := &G{}
	x := strS("x")
	add := func(n string) *Rule {
		r := &Rule{Name: n}
		g.Rules = append(g.Rules, r)
		return r
	}
	a := add("a")
	b := a
	if t.Bool() {
		b = add("b")
	}
	pre := func() (c Cat) {
		for k := t.N(3); k > 0; k-- {
			if t.Pct(40) {
				v := &Rule{Name: fmt.Sprintf("v%d", len(g.Rules))}
				for i := t.N(2); i >= 0; i-- {
					v.Alts = append(v.Alts, cat(gg.vanish(g, x), gg.vanish(g, x))[:1+t.N(2)])
				}
				g.Rules = append(g.Rules, v)
				c = append(c, one(ref(v.Name)))
			} else {
				c = append(c, gg.vanish(g, x))
			}
		}
		return c
	}
	rec := func(to *Rule) Rep {
		switch r := ref(casing(t, to.Name)); t.N(6) {
		case 0:
			return one(grp(cat1(strS("y"), strS("x")), cat1(r)))
		case 1:
			return one(opt(cat1(r)))
		case 2:
			return rep(t.N(2), 1+t.N(2), r)
		default:
			return one(r)
		}
	}
	z := one([]*Elem{strS("z"), rng('z', 'z'), str("Z")}[t.N(3)])
	a.Alts = append(a.Alts, append(append(pre(), rec(b)), z))
	if b != a {
		b.Alts = append(b.Alts, append(append(pre(), rec(a)), []Cat{cat1(strS("x")), cat(z), nil}[t.N(3)]...))
		if t.Pct(70) {
			b.Alts = append(b.Alts, cat1(strS("y")))
		}
	}
	a.Alts = append(a.Alts, cat1(strS("y")))
	if t.Bool() {
		a.Alts[0], a.Alts[1] = a.Alts[1], a.Alts[0]
	}
	return g
}

// ambiguous draws a grammar under which long inputs have very many derivations,
// or very long ones, and such an input.
func ambiguous(t *T, lo, hi int) (*G, []byte) {
	g := &G{}
	leaf := []*Elem{str("x"), rng('x', 'z'), strS("x"), ser('x'), grp(cat1(str("x")), cat1(rng('y', 'z')))}[t.N(5)]
	a := ref("a")
	n := t.Range(lo, hi)
	in := []byte(strings.Repeat("x", n))
	switch t.N(8) {
	case 0:
		g.Rules = []*Rule{{"a", []Cat{cat1(a, a), cat1(leaf)}}}
	case 1:
		g.Rules = []*Rule{{"a", []Cat{cat1(leaf), cat1(a, a, a), cat1(a, a)}}}
	case 2:
		g.Rules = []*Rule{{"a", []Cat{cat1(a, ref("op"), a), cat1(leaf)}}, {"op", []Cat{cat1(str("+")), cat1(strS("-"))}}}
		for i := 1; i < n; i += 2 {
			in[i] = "+-"[t.N(2)]
		}
		in = in[:n-(n+1)%2]
	case 3:
		g.Rules = []*Rule{{"a", []Cat{cat1(ref("b"), ref("c"), ref("b"), str(""), ref("c"))}}, {"b", []Cat{cat(rep(0, Inf, leaf))}}, {"c", []Cat{cat(rep(0, t.Range(2, n), leaf))}}}
	case 4:
		g.Rules = []*Rule{{"a", []Cat{cat(rep(0, Inf, ref("b")))}}, {"b", []Cat{cat1(leaf), cat1(leaf, leaf)}}}
	case 5:
		g.Rules = []*Rule{{"a", []Cat{cat(rep(t.N(n+1), []int{Inf, n, n + 1}[t.N(3)], grp(cat1(leaf), cat1(leaf))))}}}
	case 6:
		g.Rules = []*Rule{{"a", []Cat{cat1(a, leaf), cat1(leaf), cat1(leaf, a)}}}
	case 7:
		g.Rules = []*Rule{{"a", []Cat{cat1(leaf, a), cat1(leaf)}}}
		if t.Bool() {
			g.Rules[0].Alts[0] = cat1(a, leaf)
		}
	}
	if t.Pct(15) {
		in = mutate(t, in, g.alphabetOf("a"))
	}
	return g, in
}

func checkC02(t *T) {
	if t.Pct(1) {
		scaleCount(t)
		return
	}
	if t.Pct(2) {
		g, in := ambiguous(t, 10, 60)
		t.Say("grammar: %s", g.Show())
		t.Say("rule: a")
		t.Label("many-trees")
		checkCount(t, g, "a", g.parse(t), in)
		return
	}
	if t.Pct(4) {
		g := leftFamily(t)
		t.Say("grammar: %s", g.Show())
		t.Say("rule: a")
		t.Label("left-family")
		lg := g.parse(t)
		for k := 0; k < 4; k++ {
			b := []byte("y")
			for l := t.N(5); l > 0; l-- {
				b = append(b, "xyz"[t.W(15, 25, 60)])
			}
			checkCount(t, g, "a", lg, b)
		}
		return
	}
	g, root, lg := genLib(t, recogOpt(t))
	t.labelFeats(g.feats(root))
	for k := 0; k < 3; k++ {
		checkCount(t, g, root, lg, g.genInput(t, root, 18))
	}
}

func checkCount(t *T, g *G, root string, lg *goabnf.Grammar, in []byte) {
	{
		t.Eval()
		n, ok := newRef(g, root, in).Count(300000)
		if !ok {
			t.Label("count-skipped")
			return
		}
		t.Say("input: %s reference trees: %v", short(in), n)
		f, err := goabnf.ParseForest(in, lg, root)
		if err != nil {
			t.Failf("ParseForest failed: %v", err)
		}
		b, err := goabnf.ParseBSR(in, lg, root)
		if err != nil {
			t.Failf("ParseBSR failed: %v", err)
		}
		if x := f.NumTrees(); x.Cmp(n) != 0 {
			t.Failf("Forest.NumTrees: got %v, want %v", x, n)
		}
		if x := b.NumTrees(); x.Cmp(n) != 0 {
			t.Failf("BSRForest.NumTrees: got %v, want %v", x, n)
		}
		amb := n.Sign() < 0 || n.Cmp(big.NewInt(1)) > 0
		if f.Ambiguous() != amb {
			t.Failf("Forest.Ambiguous: got %v with %v trees", !amb, n)
		}
		if b.Ambiguous() != amb {
			t.Failf("BSRForest.Ambiguous: got %v with %v trees", !amb, n)
		}
		switch {
		case n.Sign() < 0:
			t.Label("infinite")
		case n.Sign() == 0:
			t.Label("rejected")
		case amb:
			t.Label("finite-ambiguous")
			t.Sample("%s | %s on %s: %v trees", g.Show(), root, short(in), n)
		default:
			t.Label("one-tree")
		}
		if amb {
			t.Nontrivial(g.Text(), root, string(in))
		}
	}
}

func checkC03(t *T) {
	if t.Pct(1) {
		scaleTree(t)
		return
	}
	o := recogOpt(t)
	o.LessNull = t.Pct(85)
	if t.Pct(2) {
		g, in := ambiguous(t, 10, 60)
		t.Say("grammar: %s", g.Show())
		t.Say("rule: a")
		t.Label("many-trees")
		checkTrees(t, g, "a", g.parse(t), in)
		return
	}
	if t.Pct(4) {
		g := leftFamily(t)
		t.Say("grammar: %s", g.Show())
		t.Say("rule: a")
		t.Label("left-family")
		lg := g.parse(t)
		for k := 0; k < 4; k++ {
			b := []byte("y")
			for l := t.N(5); l > 0; l-- {
				b = append(b, "xyz"[t.W(15, 25, 60)])
			}
			checkTrees(t, g, "a", lg, b)
		}
		return
	}
	g, root, lg := genLib(t, o)
	for k := 0; k < 3; k++ {
		checkTrees(t, g, root, lg, g.genInput(t, root, 40))
	}
}

func checkTrees(t *T, g *G, root string, lg *goabnf.Grammar, in []byte) {
	{
		t.Eval()
		r := newRef(g, root, in)
		n, ok := r.Count(200000)
		if !ok {
			t.Label("count-skipped")
			return
		}
		t.Say("input: %s reference trees: %v", short(in), n)
		f, err := goabnf.ParseForest(in, lg, root)
		if err != nil {
			t.Failf("ParseForest failed: %v", err)
		}
		b, err := goabnf.ParseBSR(in, lg, root)
		if err != nil {
			t.Failf("ParseBSR failed: %v", err)
		}
		ft, bt := f.Tree(), b.Tree()
		if n.Sign() == 0 {
			if ft != nil || bt != nil {
				t.Failf("a tree for a rejected input: forest %v, bsr %v", ft != nil, bt != nil)
			}
			return
		}
		fp, bp := fromLibTree(ft), fromLibTree(bt)
		if e := checkTree(g, root, in, fp); e != "" {
			t.Failf("Forest.Tree is no derivation: %s", e)
		}
		if e := checkTree(g, root, in, bp); e != "" {
			t.Failf("BSRForest.Tree is no derivation: %s", e)
		}
		if n.Cmp(big.NewInt(1)) == 0 {
			if x, y := fp.String(), bp.String(); x != y {
				t.Failf("the only tree differs: forest %s, bsr %s", x, y)
			}
			t.Label("one-tree")
		} else if n.Sign() < 0 {
			t.Label("infinite")
		} else {
			t.Label("ambiguous")
		}
		if len(in) > 0 && fp.ruleNodes() >= 2 {
			t.Nontrivial(g.Text(), root, string(in))
			t.Sample("%s | %s on %s -> %s", g.Show(), root, short(in), fp)
		}
	}
}

func (t *PTree) ruleNodes() int {
	n := 0
	if t.Rule != "" {
		n = 1
	}
	for _, c := range t.Kids {
		n += c.ruleNodes()
	}
	return n
}
