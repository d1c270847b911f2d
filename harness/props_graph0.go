package main

import (
	"errors"
	"fmt"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	goabnf "github.com/pandatix/go-abnf"
)

func init() {
	register(&Prop{
		ID: "C09", Quick: 16000, Thorough: 500000,
		Rule: "a case is a random grammar (mostly non-recursive, few prose-vals) whose rule is turned into a regular expression, and 8 UTF-8 texts. Oracle: the expression compiles and matches a text entirely exactly when the reference recogniser accepts it; " +
			"recursive rules, prose and unknown rules give their typed errors; a length bound of exactly the expression's length changes nothing, one less is refused. Non-trivial: an accepted non-empty text, or a rejected one-step mutation; distinct by grammar and text.",
		Check: checkC09,
	})
	register(&Prop{
		ID: "C17", Quick: 26000, Thorough: 1500000,
		Rule: "a case is a random grammar of up to 12 rules (recursion, undefined references, redefined core rules, references in varying case and at any depth). Oracle: depth-first search over the model's reference relation. " +
			"Non-trivial: a grammar with a cycle that some rule reaches while another of its rules does not; distinct by grammar.",
		Check: checkC17,
	})
	register(&Prop{
		ID: "C22", Quick: 6000, Thorough: 16*4352 + 4000,
		Rule: "cases 0..: one core rule and 256 consecutive code points (the first 16 blocks of every rule, then random blocks; all of Unicode in the thorough tier), and sequences of up to 4 characters around the rule's own; both by name in any case and through a user rule, " +
			"with all three engines for the first blocks. Oracle: Appendix B.1 of RFC 5234 transcribed by hand. Non-trivial: an accepted text or a neighbour of one; distinct by rule and text.",
		Check: checkC22,
	})
}

// --- C09 ---------------------------------------------------------------------

// repProduct is the largest product of nested finite repetition counts, the
// quantity RE2 limits to 1000.
func (g *G) repProduct(root string) int {
	memo := map[*Rule]int{}
	var alts func(a []Cat) int
	alts = func(a []Cat) int {
		best := 1
		for _, c := range a {
			for _, r := range c {
				in := 1
				switch r.E.K {
				case KGroup, KOpt:
					in = alts(r.E.Alts)
				case KRef:
					if rl := g.lookup(r.E.Name); rl != nil {
						if v, ok := memo[rl]; ok {
							in = v
						} else {
							in = alts(rl.Alts)
							memo[rl] = in
						}
					}
				}
				n := max(1, r.Min, r.Max)
				if in > 1<<20 || n > 1<<20 {
					return 1 << 40
				}
				best = max(best, in*n)
			}
		}
		return best
	}
	return alts(g.lookup(root).Alts)
}

func (g *G) hasProse(root string) bool {
	rules, _ := g.reach(root)
	p := false
	for _, r := range rules {
		walkAlts(r.Alts, func(e *Elem, _ Rep) { p = p || e.K == KProse })
	}
	return p
}

func acyclicOpt(t *T) GenOpt {
	o := GenOpt{MaxRules: 4, MaxDepth: 2, Acyclic: true, Core: true}
	switch t.W(40, 20, 20, 20) {
	case 1:
		o.MaxRules, o.MaxDepth, o.MaxAlts, o.MaxCats = 2, 4, 2, 2
	case 2:
		o.Surrogates, o.BadRange, o.WideRange = true, true, true
	case 3:
		o.MaxRules, o.MaxCount, o.BigCounts = 2, 9, true
	}
	return o
}

func checkC09(t *T) {
	o := acyclicOpt(t)
	if t.Pct(10) {
		o.Acyclic = false
	}
	o.Prose = t.Pct(8)
	o.Direct = !o.Prose && t.Pct(15)
	if o.Direct || t.Pct(10) {
		o.Alpha = [][]rune{{'a', '.', '*', '\\', '['}, {'-', ']', '^', 'a'}, {'(', ')', '|', '{', '}'}, {'$', '+', '?', 'z'}, {0x2028, '\n', 0x85, 0xFEFF}, {'/', '#', ' ', '\t', '&'}, {'+', '-', 'a', ' ', ','}}[t.N(7)]
	}
	g := genGrammar(t, o)
	if t.Pct(12) {
		g = classGrammar(t)
		o.Direct = false
	}
	if t.Pct(6) {
		addBeyond(t, g)
	}
	root := g.Rules[0].Name
	if t.Pct(20) {
		root = g.Rules[t.N(len(g.Rules))].Name
	}
	t.Say("grammar: %s | root %s", g.Show(), root)
	var lg *goabnf.Grammar
	if o.Direct {
		lg = g.build()
	} else {
		lg = g.parse(t)
	}
	t.Eval()
	const cap = 30000
	re, err := lg.Regex(casing(t, root), goabnf.WithMaxRegexLen(cap))
	var cyc *goabnf.ErrCyclicRule
	var big *goabnf.ErrRegexTooLarge
	if g.cyclic(root) {
		if !errors.As(err, &cyc) {
			t.Failf("a recursive rule gives %q, %v", re, err)
		}
		t.Label("cyclic")
		return
	}
	if g.hasProse(root) {
		if !errors.Is(err, goabnf.ErrHandlingProseVal) {
			t.Failf("a rule with prose gives %q, %v", re, err)
		}
		t.Label("prose")
		return
	}
	if errors.As(err, &big) {
		if big.Max != cap {
			t.Failf("the error names a bound of %d, not %d", big.Max, cap)
		}
		t.Label("too-large")
		return
	}
	if err != nil {
		t.Failf("no expression: %v", err)
	}
	if len(re) > cap {
		t.Failf("%d bytes under a bound of %d", len(re), cap)
	}
	t.Say("regex: %s", re)
	// the bound is exact
	if t.Pct(30) && len(re) > 1 {
		same, err := lg.Regex(root, goabnf.WithMaxRegexLen(len(re)))
		if err != nil || same != re {
			t.Failf("under a bound of its own length: %q, %v", same, err)
		}
		if x, err := lg.Regex(root, goabnf.WithMaxRegexLen(1+t.N(len(re)-1))); !errors.As(err, &big) {
			t.Failf("under a smaller bound: %q, %v", x, err)
		}
		free, err := lg.Regex(root)
		if err != nil || free != re {
			t.Failf("without a bound: %q, %v", free, err)
		}
	}
	if t.Pct(3) {
		var nf *goabnf.ErrRuleNotFound
		if x, err := lg.Regex("no-such-rule"); !errors.As(err, &nf) {
			t.Failf("an unknown rule gives %q, %v", x, err)
		}
	}
	rx, err := regexp.Compile(`\A(?:` + re + `)\z`)
	if err != nil {
		if g.repProduct(root) > 1000 {
			t.Label("beyond-re2-limit")
			return
		}
		t.Failf("the expression does not compile: %v", err)
	}
	al := g.alphabetOf(root)
	for k := 0; k < 8; k++ {
		in := g.genInput(t, root, 60)
		if t.Pct(5) {
			in = append(in, "�"...)
		}
		if !utf8.Valid(in) {
			in = []byte(strings.ToValidUTF8(string(in), string(al[0])))
		}
		want := refAccepts(g, root, in)
		t.Say("input: %s reference: %v", short(in), want)
		if got := rx.Match(in); got != want {
			t.Failf("the expression matches: %v, want %v", got, want)
		}
		if want && len(in) > 0 {
			t.Label("accepted")
			t.Nontrivial(g.Text(), root, string(in))
			t.Sample("%s | %s -> %s on %s", g.Show(), root, re, short(in))
		}
	}
	// what the expression matches, drawn from the expression itself
	if tree, err := syntax.Parse(re, syntax.Perl); err == nil {
		for k := 0; k < 4; k++ {
			in, ok := regexWord(t, tree, nil)
			if !ok || len(in) > 60 || !rx.Match(in) {
				continue
			}
			t.Label("drawn-from-expression")
			if !refAccepts(g, root, in) {
				t.Failf("the expression matches %s, which the rule does not derive", short(in))
			}
		}
	}
	// every ASCII character at some place of a word
	if w, ok := g.derive(t, root, 6); ok && utf8.Valid(w) && len(w) < 12 && t.Pct(25) {
		l := []rune(string(w))
		i := t.N(len(l) + 1)
		for c := rune(0); c < 0x80; c++ {
			in := []byte(string(l[:i]) + string(c))
			if i < len(l) {
				in = append(in, string(l[i+1:])...)
			}
			if got, want := rx.Match(in), refAccepts(g, root, in); got != want {
				t.Failf("on %q the expression matches: %v, want %v", in, got, want)
			}
		}
		t.Label("swept")
	}
	for _, r := range []rune{0xFFFD, 0, '\n'} {
		in := []byte(string(r))
		if got, want := rx.Match(in), refAccepts(g, root, in); got != want {
			t.Failf("on %q the expression matches: %v, want %v", in, got, want)
		}
	}
}

// --- C17 ---------------------------------------------------------------------

func checkC17(t *T) {
	o := GenOpt{MaxRules: 12, MaxDepth: 2, MaxAlts: 2, MaxCats: 2, Core: true, Prose: true}
	if t.Pct(30) {
		o.MaxRules, o.MaxAlts, o.MaxCats, o.MaxDepth = 12, 1, 1, 1 // sparse: long cycles
	}
	if t.Pct(25) {
		o.Acyclic = true
	}
	g := genGrammar(t, o)
	if t.Pct(1) {
		// a long chain, perhaps closed somewhere, with shortcuts
		n := 20 + t.N(120)
		g = &G{}
		for i := 0; i < n; i++ {
			c := cat1(str("x"))
			if i < n-1 {
				c = cat1(str("x"), ref(fmt.Sprintf("r%d", i+1)))
			}
			g.Rules = append(g.Rules, &Rule{fmt.Sprintf("r%d", i), []Cat{c}})
		}
		for k := t.N(8); k > 0; k-- {
			i := t.N(n)
			j := t.N(n)
			if i > j && t.Pct(80) {
				i, j = j, i
			}
			g.Rules[i].Alts = append(g.Rules[i].Alts, cat1(ref(fmt.Sprintf("R%d", j))))
		}
		t.Label("long-chain")
	}
	if t.Pct(1) {
		// a rule that needs very many, one of which may be recursive
		n := 10 + t.N(60)
		g = &G{Rules: []*Rule{{Name: "a"}}}
		var c Cat
		for i := 1; i <= n; i++ {
			nm := fmt.Sprintf("r%d", i)
			if c = append(c, one(ref(nm))); t.Pct(20) {
				g.Rules[0].Alts, c = append(g.Rules[0].Alts, c), nil
			}
			g.Rules = append(g.Rules, &Rule{nm, []Cat{cat1(str("x"))}})
		}
		g.Rules[0].Alts = append(g.Rules[0].Alts, append(c, one(str("y"))))
		if t.Pct(70) {
			r, q := g.Rules[1+t.N(n)], g.Rules[1+t.N(n)]
			r.Alts = append(r.Alts, cat1(ref(q.Name)))
			if t.Bool() {
				q.Alts = append(q.Alts, cat1(ref(r.Name)))
			}
		}
		t.Label("many-dependencies")
	}
	if t.Pct(15) {
		// back edge in an otherwise acyclic grammar
		r := g.Rules[t.N(len(g.Rules))]
		to := g.Rules[t.N(len(g.Rules))].Name
		r.Alts = append(r.Alts, cat1(str("q"), opt(cat1(grp(cat1(ref(casing(t, to))))))))
	}
	if t.Pct(15) {
		// a core rule redefined in terms of the grammar, perhaps cyclically
		n := coreNames[t.N(16)]
		g.Rules = append(g.Rules, &Rule{casing(t, n), []Cat{cat1(ref(g.Rules[t.N(len(g.Rules))].Name)), cat1(str("x"))}})
	}
	if t.Pct(10) {
		g.Rules[0].Alts = append(g.Rules[0].Alts, cat1(ref("undefined-rule")))
	}
	t.Say("grammar: %s", g.Show())
	lg := g.parse(t, goabnf.WithValidation(false), goabnf.WithRedefineCoreRules(true))
	t.Eval()
	// the reference relation
	all := append([]*Rule(nil), g.Rules...)
	for _, c := range coreRulesRFC {
		if g.find(c.Name) == nil {
			all = append(all, c)
		}
	}
	deps := map[string]map[string]bool{}
	for _, r := range all {
		d := map[string]bool{}
		walkAlts(r.Alts, func(e *Elem, _ Rep) {
			if e.K == KRef {
				d[strings.ToLower(e.Name)] = true
			}
		})
		deps[strings.ToLower(r.Name)] = d
	}
	dg := lg.DependencyGraph()
	for k, nd := range dg {
		if _, ok := deps[strings.ToLower(nd.Rulename)]; !ok {
			t.Failf("the dependency graph holds an unknown rule %q (%q)", nd.Rulename, k)
		}
	}
	wantEdges := map[string]bool{}
	seenRule := map[string]bool{}
	for _, nd := range dg {
		n := strings.ToLower(nd.Rulename)
		if seenRule[n] {
			t.Failf("rule %q twice in the dependency graph", n)
		}
		seenRule[n] = true
		got := map[string]bool{}
		for _, d := range nd.Dependencies {
			if got[strings.ToLower(d)] {
				t.Failf("dependencies of %s: %s twice", n, d)
			}
			got[strings.ToLower(d)] = true
			wantEdges[n+" --> "+strings.ToLower(d)] = true
		}
		if x, y := keys(got), keys(deps[n]); x != y {
			t.Failf("dependencies of %s: got %s, want %s", n, x, y)
		}
	}
	for _, r := range g.Rules {
		if !seenRule[strings.ToLower(r.Name)] {
			t.Failf("rule %s missing from the dependency graph", r.Name)
		}
		rr, _ := g.reach(r.Name)
		for _, q := range rr {
			if !seenRule[strings.ToLower(q.Name)] {
				t.Failf("rule %s, which %s needs, missing from the dependency graph", q.Name, r.Name)
			}
		}
	}
	anyCycle, anyFree := false, false
	for _, r := range all {
		want := g.cyclic(r.Name)
		got, err := lg.RuleContainsCycle(casing(t, r.Name))
		if err != nil {
			t.Failf("RuleContainsCycle(%s): %v", r.Name, err)
		}
		if got != want {
			t.Failf("RuleContainsCycle(%s): got %v, want %v", r.Name, got, want)
		}
		anyCycle = anyCycle || want
		anyFree = anyFree || !want && g.find(r.Name) != nil
	}
	if got := lg.IsDAG(); got == anyCycle {
		t.Failf("IsDAG: got %v", got)
	}
	var nf *goabnf.ErrRuleNotFound
	if _, err := lg.RuleContainsCycle("no-such-rule"); !errors.As(err, &nf) {
		t.Failf("RuleContainsCycle of an unknown rule: %v", err)
	}
	gotEdges := map[string]bool{}
	for _, l := range strings.Split(dg.Mermaid(), "\n") {
		if strings.Contains(l, "-->") {
			l = strings.ToLower(strings.TrimSpace(l))
			if gotEdges[l] {
				t.Failf("Mermaid edge twice: %s", l)
			}
			gotEdges[l] = true
		}
	}
	if x, y := keys(gotEdges), keys(wantEdges); x != y {
		t.Failf("Mermaid edges: got %s, want %s", x, y)
	}
	if anyCycle {
		t.Label("cyclic")
	} else {
		t.Label("acyclic")
	}
	if anyCycle && anyFree {
		t.Label("partly-cyclic")
		t.Nontrivial(g.Text())
		t.Sample("%s", g.Show())
	}
}

func keys(m map[string]bool) string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return strings.Join(k, ",")
}

// --- C22 ---------------------------------------------------------------------

func checkC22(t *T) {
	// Blocks are enumerated by case index: the choice is drawn, so a replay does
	// not depend on the index.
	rule, block := 0, 0
	pickR, pickB := t.N(16), t.N(4352)
	if !t.isRep {
		i := t.index
		switch {
		case i < 16*16:
			rule, block = i%16, i/16
		case t.thor && i < 16*4352:
			rule, block = i%16, i/16
		default:
			rule, block = pickR, pickB
		}
		t.tape[0], t.tape[1] = uint64(rule), uint64(block)
	} else {
		rule, block = pickR, pickB
	}
	name := coreNames[rule]
	g := &G{Rules: []*Rule{{"wrap", []Cat{cat1(str("<"), ref(name), str(">"))}}}}
	lg := g.parse(t)
	call := casing(t, name)
	t.Say("core rule %s", call)
	eng := block < 4
	one := func(in string) {
		t.Eval()
		want := refAccepts(g, name, []byte(in))
		t.desc = append(t.desc[:1], fmt.Sprintf("input: %q reference: %v", in, want))
		got, err := lg.IsValid(call, []byte(in))
		if err != nil || got != want {
			t.Failf("IsValid: %v %v, want %v", got, err, want)
		}
		if eng {
			verdict(t, lg, "wrap", []byte("<"+in+">"), want)
		}
		if want {
			t.Nontrivial(name, in)
			t.Label("accepted")
		}
	}
	for c := block * 256; c < block*256+256; c++ {
		if scalar(uint64(c)) {
			one(string(rune(c)))
		}
	}
	if eng {
		for b := 0x80; b < 0x100; b++ { // bytes that are no UTF-8 text
			one(string([]byte{byte(b)}))
		}
		one("")
		if re, err := lg.Regex(call); err != nil {
			t.Failf("Regex: %v", err)
		} else {
			rx := regexp.MustCompile(`\A(?:` + re + `)\z`)
			for c := rune(0); c < 0x180; c++ {
				if want := refAccepts(g, name, []byte(string(c))); rx.MatchString(string(c)) != want {
					t.Failf("the regular expression %s on %q: want %v", re, c, want)
				}
			}
		}
	}
	al := []rune{'\r', '\n', ' ', '\t', 'a', 'F', 'G', '0', '1', '2', '"', 0x7F, 0, '~', 'é'}
	for k := 0; k < 24; k++ {
		var b strings.Builder
		for n := 2 + t.N(3); n > 0; n-- {
			b.WriteRune(al[t.N(len(al))])
		}
		one(b.String())
	}
	// white space and line ends densely
	for k := 0; k < 12; k++ {
		var b strings.Builder
		for n := t.N(4); n > 0; n-- {
			b.WriteString([]string{" ", "\t", "\r\n ", "\r\n\t", "\r\n", "\n", "\r"}[t.W(20, 20, 20, 20, 8, 6, 6)])
		}
		one(b.String())
	}
	t.Sample("core rule %s on block U+%04X and sequences", name, block*256)
}

// classGrammar is a rule of characters and ranges in nested alternatives, in
// which some are empty or match nothing.
func classGrammar(t *T) *G {
	chars := [][]rune{[]rune("abcdefgxyzABCXYZ"), []rune("+,-./0123456789:;"), []rune("[\\]^_`{|}~!#$%&'()*"), {'a', 0x7F, 0x80, 0xE9, 0x7FF, 0x800, 0xFFFD, 0x10000}}[t.N(4)]
	g := &G{}
	var alts func(d int) []Cat
	elem := func(d int) *Elem {
		c := uint64(chars[t.N(len(chars))])
		switch t.W(40, 25, 15, 6, 4, 10, 6) {
		case 0:
			if c < 0x7F {
				e := str(string(rune(c)))
				e.Sens = t.Bool()
				return e
			}
		case 1:
			return &Elem{K: KNum, Base: 'x', Range: true, Vals: []uint64{c, c + uint64(t.N(5))}}
		case 3:
			return str("")
		case 4:
			return &Elem{K: KNum, Base: 'x', Vals: []uint64{0xD800}}
		case 5:
			if d > 0 {
				return &Elem{K: KGroup, Alts: alts(d - 1)}
			}
		case 6:
			if d > 0 {
				return &Elem{K: KOpt, Alts: alts(d - 1)}
			}
		}
		return &Elem{K: KNum, Base: 'x', Vals: []uint64{c}}
	}
	alts = func(d int) (out []Cat) {
		for n := 1 + t.N(7); n > 0; n-- {
			c := cat(one(elem(d)))
			if t.Pct(10) {
				c = append(c, one(elem(d)))
			}
			if t.Pct(10) {
				c[0].Min, c[0].Max = t.N(2), 1+t.N(2)
			}
			out = append(out, c)
		}
		return
	}
	g.Rules = []*Rule{{Name: "a", Alts: alts(3)}}
	return g
}

// regexWord draws a text an expression matches.
func regexWord(t *T, re *syntax.Regexp, out []byte) ([]byte, bool) {
	if len(out) > 60 {
		return nil, false
	}
	times := func(n int, sub *syntax.Regexp) ([]byte, bool) {
		ok := true
		for ; n > 0 && ok; n-- {
			out, ok = regexWord(t, sub, out)
		}
		return out, ok
	}
	switch re.Op {
	case syntax.OpEmptyMatch:
	case syntax.OpLiteral:
		for _, r := range re.Rune {
			if re.Flags&syntax.FoldCase != 0 && t.Bool() {
				r = unicode.SimpleFold(r)
			}
			out = append(out, string(r)...)
		}
	case syntax.OpCharClass:
		if len(re.Rune) == 0 {
			return nil, false
		}
		k := 2 * t.N(len(re.Rune)/2)
		lo, hi := re.Rune[k], re.Rune[k+1]
		r := []rune{lo, hi, lo + rune(t.N(int(hi-lo)+1))}[t.N(3)]
		if !utf8.ValidRune(r) {
			return nil, false
		}
		out = append(out, string(r)...)
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		out = append(out, 'a'+byte(t.N(26)))
	case syntax.OpCapture, syntax.OpConcat:
		ok := true
		for _, sub := range re.Sub {
			if out, ok = regexWord(t, sub, out); !ok {
				return nil, false
			}
		}
	case syntax.OpAlternate:
		return regexWord(t, re.Sub[t.N(len(re.Sub))], out)
	case syntax.OpStar:
		return times(t.N(4), re.Sub[0])
	case syntax.OpPlus:
		return times(1+t.N(3), re.Sub[0])
	case syntax.OpQuest:
		return times(t.N(2), re.Sub[0])
	case syntax.OpRepeat:
		hi := re.Max
		if hi < 0 {
			hi = re.Min + 3
		}
		return times(re.Min+t.N(hi-re.Min+1), re.Sub[0])
	default:
		return nil, false
	}
	return out, true
}
