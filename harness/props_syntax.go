package main

import (
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
)

func init() {
	register(&Prop{
		ID: "C05", Quick: 24000, Thorough: 500000,
		Rule: "a case is an ABNF text: a random grammar in a random legal spelling (white space, comments, continuation and blank lines, incremental definitions, leading zeros, letter case), the same with 1-3 " +
			"edits, or a sequence of random ABNF tokens; read with validation off. Oracle: an independent hand-written reader of RFC 5234/7405. Non-trivial: a text of at least 20 bytes that is accepted and uses a " +
			"non-canonical spelling, or a refused edit of an accepted text; distinct by text.",
		Check: checkC05,
	})
	register(&Prop{
		ID: "C06", Quick: 18000, Thorough: 600000,
		Rule: "a case is a list of definitions with 0-2 planted flaws (duplicate, incremental definition of nothing, core rule touched, undefined dependency, min>max, numeral beyond U+10FFFF in every base, at any nesting depth) read under " +
			"every combination of the two options, once as text and once through SemvalABNF. Oracle: a definition-list interpreter. Non-trivial: a text with at least one flaw or a core redefinition; distinct by text and options.",
		Check: checkC06,
	})
	register(&Prop{
		ID: "C07", Quick: 5000, Thorough: 500000,
		Rule: "a case is a grammar read from a random spelling (prose-vals, undefined references, huge counts and numerals included); its String, PrettyPrint and per-rule String are read again. Oracle: structural equality with the " +
			"grammar printed, and the independent reader accepts the print. Non-trivial: at least two of group, option, counted repetition, case-sensitive string, series, range, prose; distinct by print.",
		Check: checkC07,
	})
	register(&Prop{
		ID: "C08", Quick: 14000, Thorough: 400000,
		Rule: "a case is a rejected input (of a random grammar, or an edited ABNF text against the ABNF grammar). Oracle: the set of (terminal, position) pairs a left-to-right reader has to try, computed over the reference " +
			"recogniser's tables. Non-trivial: a rejection at an offset above 0; distinct by grammar and input.",
		Check: checkC08,
	})
}

// --- C05 ---------------------------------------------------------------------

// textOpt: a profile for grammars that are going to be written as text.
func textOpt(t *T) GenOpt {
	o := GenOpt{MaxRules: 4, MaxDepth: 3, Core: true, Prose: true, Surrogates: true, BadRange: true, MaxCount: 12, Alpha: alphabets[t.W(20, 20, 14, 10, 4, 20, 6, 6, 6, 4, 8)]}
	if t.Pct(15) {
		o.MaxDepth = 6
		o.MaxAlts, o.MaxCats = 2, 2
	}
	return o
}

func textGrammar(t *T) *G {
	g := genGrammar(t, textOpt(t))
	if t.Pct(10) {
		wilden(t, g)
	}
	if t.Pct(10) {
		addExtreme(t, g)
	}
	if t.Pct(8) {
		if n := []string{"A-very-Long-rule-name-0123456789", "a-", "Z9-9", "x--y", "rule", "elements"}[t.N(6)]; g.lookup(n) == nil {
			g.Rules[0].Name = n
		}
	}
	return g
}

// addExtreme: counts and numerals at or beyond what machine words hold.
func addExtreme(t *T, g *G) {
	r := g.Rules[t.N(len(g.Rules))]
	var x Rep
	big := []int{1 << 31, 1<<63 - 1, 1 << 62, 65536, 1<<32 + 1, 1<<63 - 1}[t.N(6)]
	switch t.N(6) {
	case 0:
		x = Rep{0, big, str("a")}
	case 1:
		x = Rep{big, Inf, str("a")}
	case 2:
		x = Rep{big, big, str("a")}
	case 3:
		x = one(&Elem{K: KNum, Base: 'x', Vals: []uint64{1 << 63, 1 << 63}, Range: t.Bool(), Huge: []string{"FFFFFFFFFFFFFFFFFFF", "123456789ABCDEF012345"}})
	case 4:
		x = Rep{1 + t.N(4), 0, str("a")}
	case 5:
		x = Rep{3 + t.N(20), t.N(3), grp(cat1(str("a")))}
	}
	r.Alts = append(r.Alts, cat(x))
}

var abnfTokens = []string{"a", "=", " ", "\r\n", "\"x\"", "/", "(", ")", "[", "]", "*", "1", "%x41", "%d65-66", "%b1.0", "b-1", ";c\r\n", "\t", "<p>", "%s\"Q\"", "%i\"q\"", "=/", "ALPHA", "\n", "\r", "%", "-", ".", "\"", "<", ">", "2*3", "*5", "é", "\x00", "%X0d", "\r\n "}

func mutateABNF(t *T, b []byte) []byte {
	out := append([]byte(nil), b...)
	for k := 1 + t.N(3); k > 0; k-- {
		i := t.N(len(out) + 1)
		switch t.W(30, 25, 15, 15, 10, 5) {
		case 0:
			out = splice(out, i, i, []byte(abnfTokens[t.N(len(abnfTokens))]))
		case 1:
			if i < len(out) {
				out = splice(out, i, min(len(out), i+1+t.N(3)), nil)
			}
		case 2:
			if i < len(out) {
				out[i] = abnfTokens[t.N(len(abnfTokens))][0]
			}
		case 3:
			j := i + t.N(min(24, len(out)-i+1))
			at := t.N(len(out) + 1)
			out = splice(out, at, at, append([]byte(nil), out[i:j]...))
		case 4:
			if i < len(out) {
				out[i] = byte(t.N(256))
			}
		case 5:
			out = out[:i]
		}
	}
	return out
}

// genText draws an ABNF-like text.
func genText(t *T) (src []byte, kind int) {
	kind = t.W(40, 30, 12, 18)
	if kind == 3 {
		src = metaWord(t)
		if len(src) > 700 {
			t.Discard()
		}
		t.Label("neighbour-of-abnf")
		return src, 1
	}
	if kind == 2 {
		n := 1 + t.N(14)
		var b strings.Builder
		if t.Bool() {
			b.WriteString("a = ")
		}
		for i := 0; i < n; i++ {
			b.WriteString(abnfTokens[t.N(len(abnfTokens))])
		}
		if t.Pct(80) {
			b.WriteString("\r\n")
		}
		return []byte(b.String()), kind
	}
	g := textGrammar(t)
	src = styled(t, g, []int{0, 15, 40, 65}[t.W(15, 30, 35, 20)])
	if len(src) > 700 {
		t.Discard()
	}
	if kind == 1 {
		src = mutateABNF(t, src)
	}
	return src, kind
}

// refusal classifies a library error; kind "" when unknown.
func refusal(err error) refErr {
	var (
		d  *goabnf.ErrDuplicatedRule
		c  *goabnf.ErrCoreRuleModify
		n  *goabnf.ErrRuleNotFound
		dp *goabnf.ErrDependencyNotFound
		sr *goabnf.ErrSemanticRepetition
		tl *goabnf.ErrTooLargeNumeral
		pe *goabnf.ParseError
	)
	switch {
	case errors.As(err, &d):
		return refErr{"duplicate", d.Rulename}
	case errors.As(err, &c):
		return refErr{"core", c.CoreRulename}
	case errors.As(err, &n):
		return refErr{"unknown", n.Rulename}
	case errors.As(err, &dp):
		return refErr{"dependency", dp.Rulename}
	case errors.As(err, &sr):
		return refErr{"repetition", sr.Repetition.String()}
	case errors.As(err, &tl):
		return refErr{"numeral", tl.Value}
	case errors.As(err, &pe) && errors.Is(err, goabnf.ErrNoSolutionFound):
		return refErr{"syntax", ""}
	}
	return refErr{"", fmt.Sprint(err)}
}

func checkC05(t *T) {
	src, kind := genText(t)
	redef := t.Pct(25)
	t.Say("text: %q", src)
	t.Say("redefine core: %v", redef)
	t.Eval()
	opts := []goabnf.ABNFOption{goabnf.WithValidation(false), goabnf.WithRedefineCoreRules(redef)}
	defs, ok := readABNF(src)
	var lg *goabnf.Grammar
	var err error
	how := t.N(3)
	if how == 2 {
		// the same in two steps
		f, perr := goabnf.Parse(src, goabnf.ABNF, "rulelist")
		if perr != nil {
			t.Failf("Parse against the ABNF grammar: %v", perr)
		}
		if f.Valid() != ok {
			t.Failf("text accepted: got %v, want %v", f.Valid(), ok)
		}
		if !ok {
			return
		}
		if n := f.NumTrees(); n.Cmp(big.NewInt(1)) != 0 {
			t.Failf("the text has %v derivations from the ABNF grammar, want 1", n)
		}
		lg, err = goabnf.EvaluateABNF(src, f, opts...)
	} else {
		lg, err = goabnf.ParseABNF(src, opts...)
	}
	if !ok {
		t.Label("refused-syntax")
		if err == nil {
			t.Failf("text accepted, but it is not ABNF")
		}
		if r := refusal(err); r.Kind != "syntax" {
			t.Failf("text refused with %T %v, want a ParseError wrapping ErrNoSolutionFound", err, err)
		}
		if kind == 1 {
			t.Nontrivial(string(src))
		}
		return
	}
	g, re := evalDefs(defs, redef)
	if re != nil {
		t.Label("refused-" + re.Kind)
		if err == nil {
			t.Failf("definitions accepted, want refusal %v", *re)
		}
		if r := refusal(err); r.Kind != re.Kind || !strings.EqualFold(r.Name, re.Name) {
			t.Failf("refusal %v (%v), want %v", r, err, *re)
		}
		return
	}
	if err != nil {
		t.Failf("text refused, but it is ABNF: %v", err)
	}
	got, ferr := fromLib(lg)
	if ferr != nil {
		t.Failf("grammar: %v", ferr)
	}
	if d := sameGrammar(g, got); d != "" {
		t.Failf("wrong grammar: %s", d)
	}
	t.Label("accepted")
	if kind == 1 {
		t.Label("accepted-edited")
	}
	if len(src) >= 20 && string(src) != got.Text() {
		t.Nontrivial(string(src))
		t.Sample("%q", src)
	}
}

// --- C06 ---------------------------------------------------------------------

// plant puts one flaw into a definition list.
func plant(t *T, g *G, defs []Def) []Def {
	cp := append([]Def(nil), defs...)
	deep := func(r Rep) {
		i := t.N(len(cp))
		a := append([]Cat(nil), cp[i].Alts...)
		c := cat(r)
		for d := t.N(4); d > 0; d-- {
			switch t.N(4) {
			case 0:
				c = cat1(grp(c))
			case 1:
				c = cat1(opt(c))
			case 2:
				e := grp(cat1(str("z")), c)
				if t.Bool() {
					e = opt(cat1(str("z")), c)
				}
				lo := t.N(2)
				c = cat(rep(lo, []int{Inf, 3, lo, 1}[t.N(4)], e))
			case 3:
				c = append(cat1(str("y")), c...)
			}
		}
		if t.Bool() {
			a = append(a, c)
		} else {
			k := t.N(len(a))
			a[k] = append(append(Cat{}, a[k]...), c...)
		}
		cp[i].Alts = a
	}
	at := func(d Def) {
		i := t.N(len(cp) + 1)
		cp = append(cp[:i:i], append([]Def{d}, cp[i:]...)...)
	}
	someAlts := []Cat{cat1(str("q"))}
	switch t.N(8) {
	case 0:
		at(Def{casing(t, cp[t.N(len(cp))].Name), false, someAlts})
	case 1:
		at(Def{"nowhere", true, someAlts})
	case 2:
		at(Def{casing(t, coreNames[t.N(16)]), t.Bool(), someAlts})
	case 3:
		n := []string{"missing", "Undefined-1", "alphaa", "DIGI", "WS", "crl"}[t.N(6)]
		deep(one(ref(n)))
	case 4:
		lo := 1 + t.N(20)
		deep(Rep{lo, t.N(lo), str("a")})
	case 5: // numerals around the limit
		base := "xdb"[t.N(3)]
		v := []uint64{0x10FFFF, 0x110000, 0x10FFFE, 0x1FFFFF, 0x200000, 0xFFFFFF, 1 << 31, 1 << 40, 0x10FFFF + 10, 1200000, 1114112, 2000000, 1114111, 1114119, 1115000, 1999999, 9999999, 0xFFFFF}[t.N(18)]
		if t.Bool() { // one digit of the limit changed, and the rest as it comes
			radix := map[byte]uint64{'x': 16, 'd': 10, 'b': 2}[base]
			p := uint64(1)
			for n := t.N(map[byte]int{'x': 6, 'd': 7, 'b': 21}[base]); n > 0; n-- {
				p *= radix
			}
			v = 0x10FFFF / (p * radix) * (p * radix)
			v += uint64(t.N(int(radix))) * p
			v += uint64(t.N(int(p)))
		}
		e := &Elem{K: KNum, Base: base, Vals: []uint64{v}}
		switch t.N(4) {
		case 1:
			e.Vals = []uint64{0x41, v}
		case 2:
			e.Vals, e.Range = []uint64{0x41, v}, true
		case 3:
			e.Vals, e.Range = []uint64{v, 0x41}, true
		}
		deep(one(e))
	case 6:
		deep(one(&Elem{K: KNum, Base: "xdb"[t.N(3)], Vals: []uint64{1 << 63}, Huge: []string{strings.Repeat("1", 70+t.N(20))}}))
	case 7: // duplicated core redefinitions
		n := coreNames[t.N(16)]
		at(Def{n, t.Pct(30), someAlts})
		at(Def{casing(t, n), t.Pct(50), someAlts})
	}
	return cp
}

func defsText(t *T, defs []Def) []byte {
	s := &styler{t: t, wild: []int{0, 20}[t.N(2)]}
	for _, d := range defs {
		s.b.WriteString(d.Name + " =")
		if d.Inc {
			s.b.WriteString("/")
		}
		s.cwsp(true)
		s.alts(d.Alts)
		s.b.WriteString("\r\n")
	}
	return []byte(s.b.String())
}

// coreTouched tells whether the built-in rules changed, judged on a fresh
// grammar.
func coreTouched() string {
	lg, err := goabnf.ParseABNF([]byte("root = \"x\"\r\n"))
	if err != nil {
		return fmt.Sprintf("a plain grammar is refused: %v", err)
	}
	for _, pr := range coreProbes {
		got, err := lg.IsValid(pr.rule, []byte(pr.in))
		if err != nil || got != pr.want {
			return fmt.Sprintf("core rule %s on %q: %v (%v), want %v", pr.rule, pr.in, got, err, pr.want)
		}
	}
	return ""
}

type coreProbe struct {
	rule, in string
	want     bool
}

var coreProbes = func() (out []coreProbe) {
	for _, n := range coreNames {
		for _, in := range []string{"q", "A", "5", "\r\n", " ", "\x00", "é", "", "\"", "\t", "\x7f"} {
			out = append(out, coreProbe{n, in, refAccepts(&G{}, n, []byte(in))})
		}
	}
	return
}()

func checkC06(t *T) {
	o := GenOpt{MaxRules: 4, MaxDepth: 2, MaxAlts: 2, MaxCats: 2, Core: true, Prose: true, BadRange: true, Surrogates: true}
	g := genGrammar(t, o)
	var defs []Def
	for _, r := range g.Rules {
		defs = append(defs, Def{r.Name, false, r.Alts})
		if t.Pct(20) {
			defs = append(defs, Def{casing(t, r.Name), true, []Cat{cat1(str("inc"))}})
		}
	}
	nf := t.W(20, 60, 20)
	for k := 0; k < nf; k++ {
		defs = plant(t, g, defs)
	}
	src := defsText(t, defs)
	redef := t.Pct(45)
	val := t.Pct(75)
	t.Say("text: %q", src)
	t.Say("validation: %v, redefine core: %v", val, redef)
	t.Eval()
	if t.isRep && coreTouched() != "" {
		t.Discard() // an earlier attempt of the shrinker changed shared state
	}
	opts := []goabnf.ABNFOption{goabnf.WithValidation(val), goabnf.WithRedefineCoreRules(redef)}
	if val && t.Bool() {
		opts = opts[1:] // validation is the default
		if !redef && t.Bool() {
			opts = nil
		}
	}
	lg, err := goabnf.ParseABNF(src, opts...)
	want, re := evalDefs(defs, redef)
	if nf > 0 || redef {
		t.Nontrivial(string(src), val, redef)
	}
	defer func() {
		if r := recover(); r != nil {
			panic(r)
		}
		if redef {
			if e := coreTouched(); e != "" {
				t.Failf("after this: %s", e)
			}
		}
	}()
	if re != nil {
		t.Label("refused-" + re.Kind)
		if err == nil {
			t.Failf("accepted, want refusal %v", *re)
		}
		if r := refusal(err); r.Kind != re.Kind || !strings.EqualFold(r.Name, re.Name) {
			t.Failf("refusal %v (%v), want %v", r, err, *re)
		}
		t.Sample("%q -> %v", src, *re)
		return
	}
	fl := flaws(want)
	if !val {
		if err != nil {
			t.Failf("refused without validation: %v", err)
		}
		got, ferr := fromLib(lg)
		if ferr != nil {
			t.Failf("grammar: %v", ferr)
		}
		if d := sameGrammar(want, got); d != "" {
			t.Failf("wrong grammar: %s", d)
		}
		err = goabnf.SemvalABNF(lg)
	}
	if len(fl) == 0 {
		t.Label("accepted")
		if err != nil {
			t.Failf("a well-defined grammar is refused: %v", err)
		}
		if val {
			if got, ferr := fromLib(lg); ferr != nil {
				t.Failf("grammar: %v", ferr)
			} else if d := sameGrammar(want, got); d != "" {
				t.Failf("wrong grammar: %s", d)
			}
		}
		return
	}
	if err == nil {
		t.Failf("accepted with flaws %v", fl)
	}
	r := refusal(err)
	okk := false
	for _, f := range fl {
		t.Label("flaw-" + f.Kind)
		if r.Kind == f.Kind && (f.Kind != "dependency" || strings.EqualFold(f.Name, r.Name)) {
			okk = true
		}
	}
	if !okk {
		t.Failf("refusal %v (%v), want one of %v", r, err, fl)
	}
	t.Sample("%q -> %v", src, r)
}

// --- C07 ---------------------------------------------------------------------

func checkC07(t *T) {
	g := textGrammar(t)
	src := styled(t, g, []int{0, 30, 60}[t.N(3)])
	t.Say("text: %q", src)
	opts := []goabnf.ABNFOption{goabnf.WithValidation(false)}
	lg, err := goabnf.ParseABNF(src, opts...)
	if err != nil {
		t.Failf("text refused: %v", err)
	}
	a, err := fromLib(lg)
	if err != nil {
		t.Failf("grammar: %v", err)
	}
	t.Eval()
	check := func(what, out string) {
		t.Say("%s: %q", what, out)
		defs, ok := readABNF([]byte(out))
		if !ok {
			t.Failf("%s is not ABNF", what)
		}
		d, re := evalDefs(defs, false)
		if re != nil {
			t.Failf("%s is refused: %v", what, *re)
		}
		if x := sameGrammar(a, d); x != "" {
			t.Failf("%s means another grammar: %s", what, x)
		}
		lg2, err := goabnf.ParseABNF([]byte(out), opts...)
		if err != nil {
			t.Failf("%s cannot be read back: %v", what, err)
		}
		b, err := fromLib(lg2)
		if err != nil {
			t.Failf("%s read back: %v", what, err)
		}
		if x := sameGrammar(a, b); x != "" {
			t.Failf("%s reads back as another grammar: %s", what, x)
		}
		if x, y := sortedLines(lg2.String()), sortedLines(lg.String()); x != y {
			t.Failf("printing again gives %q, first %q", x, y)
		}
	}
	check("String", lg.String())
	check("PrettyPrint", lg.PrettyPrint())
	var rl strings.Builder
	for _, r := range lg.Rulemap {
		rl.WriteString(r.String() + "\r\n")
	}
	check("the rules' String", rl.String())
	k := map[string]bool{}
	for _, r := range a.Rules {
		walkAlts(r.Alts, func(e *Elem, rp Rep) {
			k[fmt.Sprint(e.K, e.Sens, e.Range, len(e.Vals) > 1)] = true
			if rp.Min != 1 || rp.Max != 1 {
				k["rep"] = true
			}
		})
	}
	if len(k) >= 2 {
		t.Nontrivial(sortedLines(lg.String()))
		t.Sample("%q", lg.String())
	}
}

func sortedLines(s string) string {
	l := strings.Split(s, "\r\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// --- C08 ---------------------------------------------------------------------

// frontier: what a left-to-right reader tries. The furthest position reached by
// matched text and the terminals tried there.
func (r *Ref) frontier() (pos int, expected []string) {
	type key struct{ node, at int }
	seen := map[key]bool{}
	var work []key
	call := func(n, at int) {
		k := key{n, at}
		if !seen[k] {
			seen[k] = true
			work = append(work, k)
		}
	}
	tried := map[int]map[string]bool{}
	call(r.root, 0)
	for len(work) > 0 {
		k := work[len(work)-1]
		work = work[:len(work)-1]
		nd := &r.nodes[k.node]
		switch nd.op {
		case opTerm:
			if r.m[k.node][k.at].empty() {
				if tried[k.at] == nil {
					tried[k.at] = map[string]bool{}
				}
				tried[k.at][elemText(nd.e)] = true
				pos = max(pos, k.at)
			} else {
				r.m[k.node][k.at].each(func(e int) { pos = max(pos, e) })
			}
		case opRef, opAlt, opOpt:
			for _, c := range nd.kids {
				call(c, k.at)
			}
		case opCat:
			cur := newBits(r.n)
			cur.set(k.at)
			for _, c := range nd.kids {
				nx := newBits(r.n)
				cur.each(func(q int) {
					call(c, q)
					nx.or(r.m[c][q])
				})
				cur = nx
			}
		case opRep:
			if nd.max != Inf && nd.min > nd.max {
				// such a repetition derives nothing, but its copies are tried
				if nd.max <= 0 {
					continue
				}
			}
			c := nd.kids[0]
			cur := newBits(r.n)
			cur.set(k.at)
			for n := 0; (nd.max == Inf || n < nd.max) && n <= r.n+1 && !cur.empty(); n++ {
				nx := newBits(r.n)
				cur.each(func(q int) {
					call(c, q)
					nx.or(r.m[c][q])
				})
				cur = nx
			}
		}
	}
	for s := range tried[pos] {
		expected = append(expected, s)
	}
	sort.Strings(expected)
	return
}

// metaG is RFC 5234 section 4 (erratum 3076) with RFC 7405, transcribed by hand.
var metaG = func() *G {
	defs, ok := readABNF([]byte(strings.ReplaceAll(metaText, "\n", "\r\n")))
	if !ok {
		panic("meta grammar")
	}
	g, re := evalDefs(defs, false)
	if re != nil {
		panic(*re)
	}
	return g
}()

const metaText = `rulelist = 1*( rule / (*WSP c-nl) )
rule = rulename defined-as elements c-nl
rulename = ALPHA *(ALPHA / DIGIT / "-")
defined-as = *c-wsp ("=" / "=/") *c-wsp
elements = alternation *WSP
c-wsp = WSP / (c-nl WSP)
c-nl = comment / CRLF
comment = ";" *(WSP / VCHAR) CRLF
alternation = concatenation *(*c-wsp "/" *c-wsp concatenation)
concatenation = repetition *(1*c-wsp repetition)
repetition = [repeat] element
repeat = 1*DIGIT / (*DIGIT "*" *DIGIT)
element = rulename / group / option / char-val / num-val / prose-val
group = "(" *c-wsp alternation *c-wsp ")"
option = "[" *c-wsp alternation *c-wsp "]"
char-val = case-insensitive-string / case-sensitive-string
case-insensitive-string = [ "%i" ] quoted-string
case-sensitive-string = "%s" quoted-string
quoted-string = DQUOTE *(%x20-21 / %x23-7E) DQUOTE
num-val = "%" (bin-val / dec-val / hex-val)
bin-val = "b" 1*BIT [ 1*("." 1*BIT) / ("-" 1*BIT) ]
dec-val = "d" 1*DIGIT [ 1*("." 1*DIGIT) / ("-" 1*DIGIT) ]
hex-val = "x" 1*HEXDIG [ 1*("." 1*HEXDIG) / ("-" 1*HEXDIG) ]
prose-val = "<" *(%x20-3D / %x3F-7E) ">"
`

// normTerms brings printed terminals to one spelling and sorts them.
func normTerms(in []string) []string {
	var out []string
	seen := map[string]bool{}
	for _, x := range in {
		if defs, ok := readABNF([]byte("x = " + x + "\r\n")); ok {
			x = altsText(defs[0].Alts)
		}
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return out
}

func checkDiag(t *T, in []byte, pe *goabnf.ParseError, r *Ref, exp bool) {
	pos, want := r.frontier()
	t.Say("reference: offset %d, expected %q", pos, want)
	if pe.Offset != pos {
		t.Failf("Offset: got %d, want %d", pe.Offset, pos)
	}
	line, col := 1, 1
	if k := strings.LastIndexByte(string(in[:pos]), '\n'); k >= 0 {
		line, col = 1+strings.Count(string(in[:pos]), "\n"), pos-k
	} else {
		col = pos + 1
	}
	if pe.Line != line || pe.Col != col {
		t.Failf("position: got line %d column %d, want line %d column %d", pe.Line, pe.Col, line, col)
	}
	if pos == len(in) {
		if pe.Found != "EOF" {
			t.Failf("Found: got %q at the end of the input", pe.Found)
		}
	} else {
		c := in[pos]
		w := fmt.Sprintf("%%x%02X", c)
		if c > 0x20 && c < 0x7F {
			w = string(rune(c))
		}
		if !strings.Contains(pe.Found, w) {
			t.Failf("Found: got %q at byte %#x", pe.Found, c)
		}
	}
	bare := pos < len(in) && in[pos] == '\n' && (pos == 0 || in[pos-1] != '\r')
	if bare != (pe.Hint != "") {
		t.Failf("Hint: got %q, bare LF at the offset: %v", pe.Hint, bare)
	}
	if exp {
		got := normTerms(pe.Expected)
		want = normTerms(want)
		if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
			t.Failf("Expected: got %q, want %q", got, want)
		}
	}
	msg := pe.Error()
	for _, s := range []string{fmt.Sprintf("line %d", line), fmt.Sprintf("column %d", col), fmt.Sprintf("offset %d", pos)} {
		if !strings.Contains(msg, s) {
			t.Failf("the message %q does not say %q", msg, s)
		}
	}
	if !errors.Is(pe, goabnf.ErrNoSolutionFound) {
		t.Failf("the error does not wrap ErrNoSolutionFound")
	}
}

func checkC08(t *T) {
	if t.Pct(1) {
		scaleError(t)
		return
	}
	if t.Pct(25) {
		src, _ := genText(t)
		if len(src) > 160 {
			src = src[:160]
		}
		if t.Pct(30) {
			src = []byte(strings.ReplaceAll(string(src), "\r\n", "\n"))
		}
		t.Say("text: %q", src)
		t.Eval()
		r := newRef(metaG, "rulelist", src)
		_, err := goabnf.ParseABNF(src, goabnf.WithValidation(false))
		var pe *goabnf.ParseError
		if r.Accepts() {
			if errors.As(err, &pe) {
				t.Failf("an ABNF text is refused with a ParseError: %v", err)
			}
			t.Label("abnf-accepted")
			return
		}
		if !errors.As(err, &pe) {
			t.Failf("no ParseError for a malformed text: %v", err)
		}
		checkDiag(t, src, pe, r, true)
		t.Label("abnf-refused")
		if pe.Offset > 0 {
			t.Nontrivial("abnf", string(src))
			t.Sample("%q -> %v", src, pe)
		}
		return
	}
	o := recogOpt(t)
	o.Surrogates, o.BadRange = false, false
	g := genGrammar(t, o)
	root := g.Rules[t.N(len(g.Rules))].Name
	t.Say("grammar: %s | root %s", g.Show(), root)
	lg := g.parse(t)
	for k := 0; k < 3; k++ {
		in := g.genInput(t, root, 40)
		if t.Pct(15) {
			at := t.N(len(in) + 1)
			in = splice(in, at, at, []byte([]string{"\n", "\r\n", "\n\n", "a\nb"}[t.N(4)]))
		}
		t.Eval()
		r := newRef(g, root, in)
		f, err := goabnf.ParseForest(in, lg, root)
		if err != nil {
			t.Failf("ParseForest: %v", err)
		}
		t.Say("input: %s", short(in))
		pe := f.ParseError()
		if r.Accepts() {
			if pe != nil {
				t.Failf("an accepted input has a ParseError: %v", pe)
			}
			t.Label("accepted")
			continue
		}
		if pe == nil {
			t.Failf("a rejected input has no ParseError")
		}
		checkDiag(t, in, pe, r, true)
		if pe.Offset > 0 {
			t.Nontrivial(g.Text(), root, string(in))
			t.Sample("%s | %s on %s -> %v", g.Show(), root, short(in), pe)
		} else {
			t.Label("offset-0")
		}
	}
}
