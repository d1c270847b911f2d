package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
)

func init() {
	register(&Prop{
		ID:       "C19",
		Quick:    9000,
		Thorough: 300000,
		Rule: "a case is one text of up to 3000 bytes: random octets, token soup, a random grammar in a random spelling, the same with octets or tokens inserted, deleted, swapped and replaced, " +
			"deep nesting, very long alternations, names and numbers, extreme repetition bounds over matching and vanishing elements, and grammars the validation refuses (undefined rules, inverted bounds and ranges, prose). " +
			"It is parsed with every option combination; whatever parses goes through the whole API (printing, both forest engines with budgets, recogniser, regex, transition graph with a node budget and its readers, " +
			"the generators on random tapes, dependency graph, cycle queries, semantic validation, parser generation, word generation) with rule names that exist or not and random inputs. " +
			"Oracle: each call returns within the per-case CPU limit without panicking, and returns a result or an error, never both or neither. " +
			"Non-trivial: a text that parses into a grammar; distinct by text.",
		Check: checkC19,
	})
}

var soupTokens = []string{"a", "b", "c", "rule-1", "ALPHA", "DIGIT", "CRLF", " = ", " =/ ", "=", " / ", "/", "(", ")", "[", "]", "*", "1*", "*1", "2*3", "3*2", "0", "00",
	"5", "\"a\"", "\"\"", "\"", "%s\"aB\"", "%i\"x\"", "%x41", "%x41-5A", "%x5A-41", "%x41.42.43", "%d65", "%b1000001", "%xD800-DFFF", "%x10FFFF", "%x110000", "%xFFFFFFFFFFFFFFFFFF",
	"%x", "%", "%x41-", "%x41.", "<prose>", "<", ">", " ", "  ", "\t", "\r\n", "\r\n ", "\n", "\r", ";c\r\n", ";", "-", "_", "é", "\x00", "\xff", "\x80", "9999999999", "99999999999999999999", "%x000041", "%d00000000065"}

// wildText draws a text that may or may not be ABNF.
func wildText(t *T) []byte {
	switch t.W(8, 12, 26, 30, 12, 12) {
	case 0:
		b := make([]byte, t.N(80))
		for i := range b {
			b[i] = byte(t.N(256))
		}
		t.Label("octets")
		return b
	case 1:
		var s strings.Builder
		s.WriteString("a = ")
		for n := t.N(25); n > 0; n-- {
			s.WriteString(soupTokens[t.N(len(soupTokens))])
		}
		s.WriteString("\r\n")
		t.Label("soup")
		return []byte(s.String())
	case 2:
		t.Label("grammar")
		return styled(t, wildGrammar(t), t.N(3))
	case 3:
		t.Label("mutated")
		b := styled(t, wildGrammar(t), t.N(2))
		for n := t.Range(1, 4); n > 0; n-- {
			b = mutateText(t, b)
		}
		return b
	case 4:
		t.Label("deep-or-long")
		return deepText(t)
	}
	t.Label("extreme-counts")
	return extremeText(t)
}

func wildGrammar(t *T) *G {
	o := recogOpt(t)
	o.Prose = t.Pct(20)
	g := genGrammar(t, o)
	if t.Pct(15) {
		addHuge(t, g)
	}
	if t.Pct(15) {
		r := g.Rules[t.N(len(g.Rules))]
		r.Alts = append(r.Alts, cat(one(ref("undefined-rule")), one(str("a"))))
	}
	if t.Pct(10) {
		r := g.Rules[t.N(len(g.Rules))]
		r.Alts = append(r.Alts, cat(rep(3, 2, str("a"))))
	}
	return g
}

func mutateText(t *T, b []byte) []byte {
	if len(b) == 0 {
		return []byte(soupTokens[t.N(len(soupTokens))])
	}
	i := t.N(len(b))
	j := min(len(b), i+1+t.N(6))
	switch t.N(7) {
	case 0: // delete
		return splice(b, i, j, nil)
	case 1: // insert a token
		return splice(b, i, i, []byte(soupTokens[t.N(len(soupTokens))]))
	case 2: // replace by a token
		return splice(b, i, j, []byte(soupTokens[t.N(len(soupTokens))]))
	case 3: // duplicate a stretch
		return splice(b, j, j, b[i:j])
	case 4: // replace an octet
		return splice(b, i, i+1, []byte{byte(t.N(256))})
	case 5: // cut
		return append([]byte(nil), b[:i]...)
	}
	k := t.N(len(b))
	l := min(len(b), k+1+t.N(20))
	return splice(b, i, i, b[k:l])
}

func deepText(t *T) []byte {
	n := 1 + t.N(60)
	if t.Pct(20) {
		n = 1 + t.N(120)
	}
	switch t.N(9) {
	case 0:
		return []byte("a = " + strings.Repeat("(", n) + "\"x\"" + strings.Repeat(")", n) + "\r\n")
	case 1:
		return []byte("a = " + strings.Repeat("[", n) + "\"x\"" + strings.Repeat("]", n) + "\r\n")
	case 2:
		return []byte("a = \"x\"" + strings.Repeat(" / \"x\"", n) + "\r\n")
	case 3:
		return []byte("a = " + strings.Repeat("x", n*4) + "\r\n" + strings.Repeat("x", n*4) + " = \"a\"\r\n")
	case 4:
		return []byte("a = \"" + strings.Repeat("ab", n*2) + "\"\r\n")
	case 5:
		return []byte("a = %x" + strings.Repeat("0", n*4) + "41-" + strings.Repeat("0", n) + "43" + "\r\n")
	case 6: // a chain of rules
		n = min(n, 80)
		last := []string{"\"x\"", "\"xx\"", "\"\"", "%x41-43"}[t.N(4)]
		if last == "\"\"" {
			n = min(n, 12) // the tree of the empty text doubles with every rule
		}
		var s strings.Builder
		body := []string{"r%[2]d r%[2]d / \"x\"", "r%[2]d r%[2]d", "r%[2]d / r%[2]d", "(r%[2]d / r%[2]d \"y\") [r%[2]d]", "*r%[2]d r%[2]d", "\"x\" / r%[2]d"}[t.N(6)]
		for i := 0; i < n; i++ {
			fmt.Fprintf(&s, "r%[1]d = "+body+"\r\n", i, i+1)
		}
		fmt.Fprintf(&s, "r%d = %s\r\n", n, last)
		return []byte(s.String())
	case 7:
		n = min(n, 60)
		return []byte("a = " + strings.Repeat("1*(", n) + "\"x\"" + strings.Repeat(")", n) + "\r\n")
	}
	return []byte("a = %x41" + strings.Repeat(".42", n) + "\r\n")
}

func extremeText(t *T) []byte {
	cnt := func() string {
		return []string{"2", "17", "1000", "65535", "65536", "65537", "1000000", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "4611686018427387904", "2305843009213693952", "6148914691236517206"}[t.N(16)]
	}
	var elem func(d int) string
	elem = func(d int) string {
		k := t.W(20, 20, 10, 10, 10, 10, 10, 10)
		if d <= 0 && k >= 4 {
			k = 0
		}
		switch k {
		case 1:
			return "\"\""
		case 2:
			return "%x41-5A"
		case 3:
			return "b"
		case 4:
			return "[" + cnt() + elem(d-1) + "]"
		case 5:
			return "(" + cnt() + elem(d-1) + ")"
		case 6:
			return "(*" + cnt() + elem(d-1) + ")"
		case 7:
			return "(" + cnt() + "*" + elem(d-1) + " / " + elem(d-1) + ")"
		}
		return []string{"\"x\"", "\"abcd\"", "%x41.42", "\"abc\"", "%x41.42.43.44.45.46.47.48"}[t.N(5)]
	}
	rp := []string{"", "*", cnt(), "*" + cnt(), cnt() + "*", "0*" + cnt(), "1*" + cnt()}[t.N(7)]
	b := []string{"\"y\"", "\"\"", "a", "*a", "[a] \"y\"", "*\"y\""}[t.N(6)]
	return []byte("a = " + rp + elem(2) + "\r\nb = " + b + "\r\n")
}

func checkC19(t *T) {
	text := wildText(t)
	if len(text) > 3000 {
		text = text[:3000]
	}
	t.Say("text: %q", text)
	keep := append([]byte(nil), text...)
	var lg *goabnf.Grammar
	for k := 0; k < 4; k++ {
		t.Eval()
		v, rd := k&1 == 0, k&2 != 0
		g, err := goabnf.ParseABNF(text, goabnf.WithValidation(v), goabnf.WithRedefineCoreRules(rd))
		one1(t, fmt.Sprintf("ParseABNF(validation %v, redefine %v)", v, rd), g != nil, err)
		if err == nil && (lg == nil || t.Bool()) {
			lg = g
		}
		_, _ = errText(err)
	}
	if !bytes.Equal(text, keep) {
		t.Failf("ParseABNF changed its input")
	}
	if lg == nil {
		t.Label("not-ABNF")
		// the forest of the ABNF grammar itself, and its diagnostics
		f, err := goabnf.ParseForest(text, goabnf.ABNF, "rulelist", goabnf.WithMaxForestNodes(200000))
		one1(t, "ParseForest", f != nil, err)
		if f != nil {
			if pe := f.ParseError(); pe != nil {
				_, _ = errText(pe)
			}
			g, err := goabnf.EvaluateABNF(text, f)
			one1(t, "EvaluateABNF", g != nil, err)
		}
		return
	}
	t.Nontrivial(string(text))
	t.Sample("%q", text)
	var names []string
	for k := range lg.Rulemap {
		names = append(names, k)
	}
	sort.Strings(names)
	names = append(names, "no-such-rule", "ALPHA", "")
	for round := 0; round < 2 && !t.Tired(); round++ {
		name := names[t.N(len(names))]
		if t.Pct(60) {
			name = names[0]
		}
		ops := []int{t.N(len(totalOps)), t.N(len(totalOps)), t.N(len(totalOps)), t.N(len(totalOps))}
		for _, op := range ops {
			if t.Tired() {
				break
			}
			t.Eval()
			t.Say("call: %s rule %q", totalOps[op].name, name)
			t.Label(totalOps[op].name)
			totalOps[op].f(t, lg, name)
		}
	}
}

func errText(err error) (s string, ok bool) {
	if err == nil {
		return "", false
	}
	return err.Error(), true
}

// one1 demands a result or an error, not both and not neither.
func one1(t *T, what string, has bool, err error) {
	if has == (err != nil) {
		t.Failf("%s: result %v with error %v", what, has, err)
	}
	if err != nil && err.Error() == "" {
		t.Failf("%s: an error without a text", what)
	}
}

type totalOp struct {
	name string
	f    func(t *T, lg *goabnf.Grammar, name string)
}

func totalInput(t *T, lg *goabnf.Grammar, name string) []byte {
	switch t.N(6) {
	case 1:
		return []byte(strings.Repeat("x", t.N(40)))
	case 2:
		b := make([]byte, t.N(20))
		for i := range b {
			b[i] = byte(t.N(256))
		}
		return b
	case 3:
		return []byte(strings.Repeat([]string{"a", "Ab", "é", "x y", "\r\n"}[t.N(5)], t.N(12)))
	case 4:
		if heavyRule(lg, name) {
			return nil
		}
		if ag, err := goabnf.NewASTGenerator(lg, name, goabnf.WithMaxLen(24)); err == nil {
			if b := ag.Generate(totalTape(t)); len(b) <= 60 {
				return b
			}
		}
	case 5:
		return []byte([]string{"\xff", "\xed\xa0\x80", "\xf4\x90\x80\x80", "a\x80b", "\xc3", "\x00"}[t.N(6)])
	}
	return nil
}

// heavyRule says that a choice within reach of the rule stands for words of more
// than 20000 expansions: generating one is bound to take long. (From 2^30 on it
// has to be refused.)
func heavyRule(lg *goabnf.Grammar, name string) bool {
	g, err := fromLib(lg)
	if err != nil || g.lookup(name) == nil {
		return false
	}
	rules, _ := g.reach(name)
	prod := map[*Rule]bool{}
	var prodAlts func(a []Cat) bool
	prodCat := func(c Cat) bool {
		for _, r := range c {
			if r.Max != Inf && r.Min > r.Max {
				return false
			}
			if r.Min == 0 || r.E.K == KOpt {
				continue
			}
			switch r.E.K {
			case KRef:
				if q := g.lookup(r.E.Name); q == nil || !prod[q] {
					return false
				}
			case KGroup:
				if !prodAlts(r.E.Alts) {
					return false
				}
			case KNum:
				if !r.E.productive() {
					return false
				}
			case KProse:
				return false
			}
		}
		return true
	}
	prodAlts = func(a []Cat) bool {
		for _, c := range a {
			if prodCat(c) {
				return true
			}
		}
		return false
	}
	for ch := true; ch; {
		ch = false
		for _, r := range rules {
			if !prod[r] && prodAlts(r.Alts) {
				prod[r], ch = true, true
			}
		}
	}
	m := g.costs(name)
	heavy := false
	check := func(a []Cat) {
		for _, c := range a {
			if k := g.costCat(m, c); prodCat(c) && k > 20000 && k < huge {
				heavy = true
			}
		}
	}
	for _, r := range rules {
		check(r.Alts)
		walkAlts(r.Alts, func(e *Elem, _ Rep) { check(e.Alts) })
	}
	return heavy
}

func totalTape(t *T) []byte {
	b := make([]byte, t.N(40))
	for i := range b {
		b[i] = byte(t.N(256))
	}
	return b
}

var totalOps = []totalOp{
	{"print", func(t *T, lg *goabnf.Grammar, name string) {
		_ = lg.String()
		_ = lg.PrettyPrint()
		for _, r := range lg.Rulemap {
			_ = r.String()
		}
	}},
	{"IsValid", func(t *T, lg *goabnf.Grammar, name string) {
		in := totalInput(t, lg, name)
		t.Say("input: %s", short(in))
		v, err := lg.IsValid(name, in)
		if v && err != nil {
			t.Failf("IsValid: true with error %v", err)
		}
	}},
	{"ParseForest", func(t *T, lg *goabnf.Grammar, name string) {
		in := totalInput(t, lg, name)
		t.Say("input: %s", short(in))
		f, err := goabnf.ParseForest(in, lg, name, goabnf.WithMaxForestNodes(20000))
		one1(t, "ParseForest", f != nil, err)
		if err != nil {
			return
		}
		totalForest(t, f, in)
		pe := f.ParseError()
		if (pe == nil) != f.Valid() {
			t.Failf("ParseError %v on a forest with Valid %v", pe, f.Valid())
		}
		if pe != nil {
			_ = pe.Error()
		}
	}},
	{"ParseBSR", func(t *T, lg *goabnf.Grammar, name string) {
		in := totalInput(t, lg, name)
		t.Say("input: %s", short(in))
		f, err := goabnf.ParseBSR(in, lg, name, goabnf.WithMaxForestNodes(20000))
		one1(t, "ParseBSR", f != nil, err)
		if err == nil {
			totalForest(t, f, in)
		}
	}},
	{"Regex", func(t *T, lg *goabnf.Grammar, name string) {
		s, err := lg.Regex(name, goabnf.WithMaxRegexLen(1+t.N(5000)))
		if err != nil && s != "" {
			t.Failf("Regex: %q with error %v", s, err)
		}
	}},
	{"TransitionGraph", func(t *T, lg *goabnf.Grammar, name string) {
		tg := totalGraph(t, lg, name)
		if tg == nil {
			return
		}
		_ = tg.ToMermaid()
		// Readers enumerate: only those graphs whose enumeration is short of the
		// documented explosion.
		gr := readGraph(tg)
		few := true
		for _, n := range gr.nodes {
			if n.e != nil {
				_, ok := variants(n.e, 500)
				few = few && ok
			}
		}
		if gr.edges <= 25 {
			totalReader(t, tg.Reader())
		}
		if few && len(gr.nodes) <= 300 {
			totalReader(t, tg.Reader(goabnf.WithCoverageMode(goabnf.CoverageCompact)))
		}
	}},
	{"Generator", func(t *T, lg *goabnf.Grammar, name string) {
		tg := totalGraph(t, lg, name)
		if tg == nil {
			return
		}
		o := []goabnf.GenOption{goabnf.WithMaxSteps(2000), goabnf.WithMaxLength(200)}
		if t.Bool() {
			o = append(o, goabnf.WithStableAddressing())
		}
		gen, err := goabnf.NewGenerator(tg, o...)
		one1(t, "NewGenerator", gen != nil, err)
		if err != nil {
			return
		}
		_ = gen.Generate(totalTape(t))
		_ = gen.GenerateRand(rand.New(rand.NewSource(int64(t.N(1000)))))
		_, _, _ = gen.NearMiss(totalTape(t))
		_, _, _ = gen.NearMissRand(rand.New(rand.NewSource(int64(t.N(1000)))))
		_, _, _ = gen.ExpectedNext(totalInput(t, lg, name))
	}},
	{"ASTGenerator", func(t *T, lg *goabnf.Grammar, name string) {
		var o []goabnf.ASTGenOption
		if t.Bool() {
			o = append(o, goabnf.WithMaxLen(t.N(300)), goabnf.WithMaxDepth(t.N(20)), goabnf.WithMaxRepeat(t.N(20)))
		}
		ag, err := goabnf.NewASTGenerator(lg, name, o...)
		one1(t, "NewASTGenerator", ag != nil, err)
		if err == nil && !heavyRule(lg, name) {
			_ = ag.Generate(totalTape(t))
			_ = ag.GenerateRand(rand.New(rand.NewSource(int64(t.N(1000)))))
		}
	}},
	{"Generate", func(t *T, lg *goabnf.Grammar, name string) {
		var o []goabnf.GenerateOption
		if t.Bool() {
			o = append(o, goabnf.WithRepMax(t.N(20)), goabnf.WithThreshold(t.N(300)))
		}
		if heavyRule(lg, name) {
			return
		}
		b, err := lg.Generate(int64(t.N(1000)), name, o...)
		if err != nil && len(b) > 0 {
			t.Failf("Generate: %s with error %v", short(b), err)
		}
	}},
	{"DependencyGraph", func(t *T, lg *goabnf.Grammar, name string) {
		dg := lg.DependencyGraph()
		if dg == nil {
			t.Failf("no dependency graph")
		}
		_ = dg.Mermaid()
		_ = lg.IsDAG()
		c, err := lg.RuleContainsCycle(name)
		if c && err != nil {
			t.Failf("RuleContainsCycle: true with error %v", err)
		}
	}},
	{"SemvalABNF", func(t *T, lg *goabnf.Grammar, name string) {
		_, _ = errText(goabnf.SemvalABNF(lg))
	}},
	{"GenerateGoParser", func(t *T, lg *goabnf.Grammar, name string) {
		b, err := goabnf.GenerateGoParser(lg, name, "p")
		one1(t, "GenerateGoParser", len(b) > 0, err)
	}},
	{"GenerateGoParserFromABNF", func(t *T, lg *goabnf.Grammar, name string) {
		b, err := goabnf.GenerateGoParserFromABNF([]byte(lg.String()), name, "p", goabnf.WithValidation(t.Bool()))
		one1(t, "GenerateGoParserFromABNF", len(b) > 0, err)
	}},
	{"GetRule", func(t *T, lg *goabnf.Grammar, name string) {
		_ = goabnf.GetRule(name, lg.Rulemap)
		_ = goabnf.GetRule(strconv.Itoa(t.N(5)), nil)
	}},
}

func totalForest(t *T, f forester, in []byte) {
	n := f.NumTrees()
	if n == nil || (n.Sign() != 0) != f.Valid() {
		t.Failf("NumTrees %v on a forest with Valid %v", n, f.Valid())
	}
	_ = f.Ambiguous()
	_ = f.Nodes()
	if tr := f.Tree(); (tr != nil) != f.Valid() {
		t.Failf("Tree present: %v on a forest with Valid %v", tr != nil, f.Valid())
	}
}

func totalReader(t *T, r *goabnf.TransitionGraphReader) {
	for k := 0; k < 30 && !t.Tired() && r.Next(); k++ {
		if r.Scan() == nil {
			t.Failf("Scan is nil though Next is true")
		}
	}
}

func totalGraph(t *T, lg *goabnf.Grammar, name string) *goabnf.TransitionGraph {
	o := []goabnf.TGOption{goabnf.WithMaxNodes(1 + t.N(1500))}
	if t.Bool() {
		o = append(o, goabnf.WithDeflateRules(t.Bool()), goabnf.WithDeflateCharVals(t.Bool()), goabnf.WithDeflateNumVals(t.Bool()))
	}
	if t.Bool() {
		o = append(o, goabnf.WithRepetitionThreshold([]int{t.N(50), 1 << 20, 1 << 62, 1<<63 - 1}[t.W(70, 10, 10, 10)]))
	}
	tg, err := lg.TransitionGraph(name, o...)
	one1(t, "TransitionGraph", tg != nil, err)
	return tg
}
