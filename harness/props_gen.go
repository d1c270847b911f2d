package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"

	goabnf "github.com/pandatix/go-abnf"
)

func init() {
	register(&Prop{
		ID: "C10", Quick: 14000, Thorough: 400000,
		Rule: "a case is a random grammar (recursive, with prose, undefined rules, num-vals that are no characters), a rule, generation options and 8 seeds. Oracle: a productivity fixpoint over the model decides between a word and an error; the word is accepted by the reference recogniser with unbounded repetitions capped at the option's bound; " +
			"the same seed gives the same word; a recogniser that knows positions tells whether the word is finished the shortest way once over the threshold; small finite languages come out completely over 400 seeds, wide ranges in every eighth. Non-trivial: a word of at least 2 bytes; distinct by grammar and word.",
		Check: checkC10,
	})
	register(&Prop{
		ID: "C11", Quick: 14000, Thorough: 400000,
		Rule: "a case is a random grammar as for C10, a rule, budgets and 16 tapes. Oracle: the constructor refuses exactly the rules that reach an undefined or unproductive rule; words are accepted by the reference recogniser with unbounded repetitions capped; repeated calls, a grammar parsed anew and a zero-extended tape give the same word; " +
			"a recogniser that knows positions and depths tells whether the word is finished the shortest way once over a budget; small finite languages come out completely over all short tapes. Non-trivial: a word of at least 2 bytes; distinct by grammar and word.",
		Check: checkC11,
	})
}

// genGenGrammar draws a grammar for the generators of words.
func genGenGrammar(t *T) (g *G, root string, mk func() *goabnf.Grammar) {
	o := recogOpt(t)
	o.Prose = t.Pct(25)
	o.Surrogates = o.Surrogates || t.Pct(15)
	o.BadRange = o.BadRange || t.Pct(6)
	o.WideRange = o.WideRange || t.Pct(15)
	o.Acyclic = t.Pct(20)
	g = genGrammar(t, o)
	odd := o.BadRange
	all := func(f func(r *Rep)) {
		var alts func(a []Cat)
		alts = func(a []Cat) {
			for i := range a {
				for j := range a[i] {
					f(&a[i][j])
					alts(a[i][j].E.Alts)
				}
			}
		}
		for _, r := range g.Rules {
			alts(r.Alts)
		}
	}
	if t.Pct(8) { // an undefined rule
		all(func(r *Rep) {
			if r.E.K == KRef && t.Pct(30) {
				r.E = ref("no-such")
				odd = true
			}
		})
	}
	if t.Pct(5) {
		addBeyond(t, g)
		odd = true
	}
	if t.Pct(5) { // no count fits
		all(func(r *Rep) {
			if r.Min > 0 && r.Max != Inf && t.Pct(20) {
				r.Max = r.Min - 1
				odd = true
			}
		})
	}
	if t.Pct(5) { // an unbounded repetition with a minimum above the usual bound
		all(func(r *Rep) {
			if r.Max == Inf && t.Pct(40) && (r.E.K == KStr || r.E.K == KNum) {
				r.Min = 14 + t.N(12)
			}
		})
	}
	if t.Pct(4) { // more occurrences than any text holds
		all(func(r *Rep) {
			if (r.E.K == KRef || r.E.K == KNum || r.E.K == KStr && len(r.E.Runes) > 0) && t.Pct(15) {
				b := []int{1 << 30, 1 << 31, 1 << 32, 1 << 60, 1 << 61, 1 << 62, 1<<62 + 1, 1<<63 - 1, (1<<63-1)/3 + 1, (1<<63-1)/3*2 + 2}[t.N(10)]
				if t.Pct(75) {
					r.Min = b
					r.Max = []int{Inf, b}[t.N(2)]
				} else {
					r.Min, r.Max = 0, b
				}
			}
		})
	}
	root = g.Rules[t.N(len(g.Rules))].Name
	t.Say("grammar: %s", g.Show())
	t.Say("rule: %s", root)
	val := !odd && t.Bool()
	return g, root, func() *goabnf.Grammar { return g.parse(t, goabnf.WithValidation(val)) }
}

// limited is the grammar with every repetition's maximum replaced.
func (g *G) limited(f func(r Rep) int, noOpt bool) *G {
	var alts func(a []Cat) []Cat
	alts = func(a []Cat) (out []Cat) {
		for _, c := range a {
			var d Cat
			for _, r := range c {
				e := r.E
				if e.K == KOpt && noOpt {
					e = str("")
				} else if e.Alts != nil {
					x := *e
					x.Alts = alts(e.Alts)
					e = &x
				}
				d = append(d, Rep{r.Min, f(r), e})
			}
			out = append(out, d)
		}
		return
	}
	h := &G{}
	rules := g.Rules
	for _, c := range coreRulesRFC {
		if g.find(c.Name) == nil {
			rules = append(rules[:len(rules):len(rules)], c)
		}
	}
	for _, r := range rules {
		h.Rules = append(h.Rules, &Rule{r.Name, alts(r.Alts)})
	}
	return h
}

// wordDist enumerates the words (letter case folded) of a rule together with a
// probability under uniform choices; ok=false when there are too many.
func (g *G) wordDist(root string, fold bool) (d map[string]float64, ok bool) {
	m := g.costs(root)
	const lim = 60
	fail := false
	mul := func(a, b map[string]float64) map[string]float64 {
		o := map[string]float64{}
		for x, p := range a {
			for y, q := range b {
				o[x+y] += p * q
				if len(o) > lim {
					fail = true
					return o
				}
			}
		}
		return o
	}
	steps := 0
	var alts func(a []Cat, depth int) map[string]float64
	elem := func(e *Elem, depth int) map[string]float64 {
		switch e.K {
		case KStr:
			o := map[string]float64{"": 1}
			for _, r := range e.Runes {
				if fold {
					o = mul(o, map[string]float64{string(lower(r)): 1})
				} else if l := lower(r); !e.Sens && l >= 'a' && l <= 'z' {
					o = mul(o, map[string]float64{string(l): .5, string(l - 32): .5})
				} else {
					o = mul(o, map[string]float64{string(r): 1})
				}
			}
			return o
		case KNum:
			o := map[string]float64{}
			if !e.Range {
				s := ""
				for _, v := range e.Vals {
					s += string(encode(v))
				}
				if fold {
					s = foldASCII(s)
				}
				return map[string]float64{s: 1}
			}
			hi := min(e.Vals[1], 0x10FFFF)
			n := int(hi-e.Vals[0]) + 1
			if n > lim {
				fail = true
				return o
			}
			for v := e.Vals[0]; v <= hi; v++ {
				if scalar(v) {
					s := string(encode(v))
					if fold {
						s = foldASCII(s)
					}
					o[s] += 1 / float64(n)
				}
			}
			return o
		case KGroup:
			return alts(e.Alts, depth)
		case KOpt:
			if g.costAlts(m, e.Alts) >= huge {
				return map[string]float64{"": 1}
			}
			o := map[string]float64{}
			for x, p := range alts(e.Alts, depth) {
				o[x] = p / 2
			}
			o[""] += .5
			return o
		case KRef:
			return alts(g.lookup(e.Name).Alts, depth+1)
		}
		fail = true
		return nil
	}
	alts = func(a []Cat, depth int) map[string]float64 {
		out := map[string]float64{}
		if steps++; fail || depth > 12 || steps > 3000 {
			fail = true
			return out
		}
		var live []Cat
		for _, c := range a {
			if g.costCat(m, c) < huge {
				live = append(live, c)
			}
		}
		for _, c := range live {
			cur := map[string]float64{"": 1}
			for _, r := range c {
				if g.costElem(m, r.E) >= huge {
					continue
				}
				if r.Max == Inf || r.Max > 8 {
					fail = true
				}
				if fail {
					return out
				}
				el := elem(r.E, depth)
				nx := map[string]float64{}
				k := map[string]float64{"": 1}
				for i := 0; i <= r.Max; i++ {
					if i >= r.Min {
						for x, p := range k {
							nx[x] += p / float64(r.Max-r.Min+1)
						}
					}
					if i < r.Max {
						k = mul(k, el)
					}
				}
				cur = mul(cur, nx)
			}
			for x, p := range cur {
				out[x] += p / float64(len(live))
			}
		}
		return out
	}
	d = alts(g.lookup(root).Alts, 0)
	return d, !fail && len(d) <= lim
}

func foldASCII(s string) string {
	return strings.Map(func(r rune) rune { return lower(r) }, s)
}

func (g *G) unproductiveNums(root string) bool {
	rules, _ := g.reach(root)
	bad := false
	for _, r := range rules {
		walkAlts(r.Alts, func(e *Elem, _ Rep) { bad = bad || e.K == KNum && !e.productive() })
	}
	return bad
}

func (g *G) badCounts(root string) bool {
	rules, _ := g.reach(root)
	bad := false
	for _, r := range rules {
		walkAlts(r.Alts, func(e *Elem, rp Rep) { bad = bad || rp.Max != Inf && rp.Max < rp.Min })
	}
	return bad
}

func checkC10(t *T) {
	if t.Pct(3) {
		text, lo, hi := wideRange(t)
		t.Say("grammar: %s", text)
		t.Eval()
		lg, base := parseText(t, text), int64(t.N(1<<20))
		spreads(t, "Generate", lo, hi, func(i int) []byte {
			w, err := lg.Generate(base+int64(i), "a")
			if err != nil {
				t.Failf("no word: %v", err)
			}
			return w
		})
		return
	}
	g, root, mk := genGenGrammar(t)
	lg := mk()
	m := g.costs(root)
	c := m[g.lookup(root)]
	if c < huge && c > 1500 {
		t.Discard()
	}
	repMax, thr := 16, 256
	var opts []goabnf.GenerateOption
	if t.Pct(75) {
		repMax = []int{2, 1, 0, 5, 30, 16}[t.N(6)]
		opts = append(opts, goabnf.WithRepMax(repMax))
	}
	if t.Pct(80) {
		thr = []int{24, 0, 1, 8, 64, 3}[t.N(6)]
		opts = append(opts, goabnf.WithThreshold(thr))
	}
	t.Say("options: repMax %d, threshold %d", repMax, thr)
	t.Eval()
	if t.Pct(3) {
		var nf *goabnf.ErrRuleNotFound
		if out, err := lg.Generate(1, "no-such-rule", opts...); !errors.As(err, &nf) || len(out) != 0 {
			t.Failf("an unknown rule gives %q, %v", out, err)
		}
	}
	if c >= huge {
		out, err := lg.Generate(int64(t.N(100)), casing(t, root), opts...)
		if err == nil || len(out) != 0 {
			t.Failf("a rule that derives no text gives %q, %v", out, err)
		}
		_, undef := g.reach(root)
		var cy *goabnf.ErrCyclicRule
		if len(undef) == 0 && !g.hasProse(root) && !g.unproductiveNums(root) && !g.badCounts(root) && !errors.As(err, &cy) {
			t.Failf("an inescapable recursion gives %v", err)
		}
		t.Label("no-word")
		return
	}
	most := func(r Rep) int {
		if r.Max == Inf {
			return max(r.Min, repMax)
		}
		return r.Max
	}
	capped := g.limited(most, false)
	least := g.limited(func(r Rep) int {
		if r.Max != Inf && r.Max < r.Min {
			return r.Max
		}
		return r.Min
	}, true)
	lg2 := mk()
	for k := 0; k < 8 && !t.Tired(); k++ {
		seed := int64(k)
		if k > 1 {
			seed = int64(t.N(1<<30)) - 1<<29
		}
		call := casing(t, root)
		out, err := lg.Generate(seed, call, opts...)
		t.desc = append(t.desc[:3], fmt.Sprintf("seed: %d word: %s", seed, short(out)))
		if err != nil || out == nil {
			t.Failf("no word: %v", err)
		}
		if o2, err := lg2.Generate(seed, root, opts...); err != nil || !bytes.Equal(out, o2) {
			t.Failf("from the grammar parsed anew: %s, %v", short(o2), err)
		}
		if len(out) > 80 {
			t.Label("long")
			if len(out) > 400 || k > 0 {
				continue
			}
		}
		if !refAccepts(capped, root, out) {
			if refAccepts(g, root, out) {
				t.Failf("the word takes a repetition above the bound")
			}
			t.Failf("the word is not in the language")
		}
		if thr <= 0 && !refAccepts(least, root, out) {
			t.Failf("beyond the threshold, yet repetitions are not at their minimum")
		}
		if may, ok := g.steered(root, m, out, -1, thr, most); ok && !may {
			t.Failf("beyond the threshold, yet the word is not finished the shortest way")
		} else if ok {
			t.Label("steered")
		}
		if len(out) > 1 {
			t.Nontrivial(g.Text(), string(out))
			t.Sample("%s, rule %s, seed %d -> %s", g.Show(), root, seed, short(out))
		}
	}
	// everything comes up
	if thr < 16 || g.cyclic(root) || repMax > 8 {
		return
	}
	d, ok := capped.wordDist(root, true)
	if !ok {
		return
	}
	for w := range d {
		if len(w) >= thr {
			return
		}
	}
	t.Label("small-language")
	got := map[string]bool{}
	base := int64(t.N(1 << 20))
	for i := int64(0); i < 400; i++ {
		out, err := lg.Generate(base+i*7919, root, opts...)
		if err != nil {
			t.Failf("no word: %v", err)
		}
		got[foldASCII(string(out))] = true
	}
	for w := range got {
		if _, ok := d[w]; !ok {
			t.Failf("the word %q (letter case folded) is not in the language", w)
		}
	}
	for w, p := range d {
		if p >= 1.0/16 && !got[w] {
			t.Failf("400 seeds never give %q (in any letter case), whose probability should be %.2f", w, p)
		}
	}
}

func checkC11(t *T) {
	if t.Pct(3) {
		text, lo, hi := wideRange(t)
		t.Say("grammar: %s", text)
		t.Eval()
		ag, err := goabnf.NewASTGenerator(parseText(t, text), "a")
		if err != nil {
			t.Failf("refused: %v", err)
		}
		if r := rand.New(rand.NewSource(int64(t.N(1000)))); t.Pct(30) {
			spreads(t, "GenerateRand", lo, hi, func(int) []byte { return ag.GenerateRand(r) })
		} else {
			spreads(t, "Generate", lo, hi, func(int) []byte { return ag.Generate(wideTape(t)) })
		}
		return
	}
	g, root, mk := genGenGrammar(t)
	lg := mk()
	m := g.costs(root)
	c := m[g.lookup(root)]
	if c < huge && c > 1500 {
		t.Discard()
	}
	depth, length, repeat := 32, 4096, 16
	var opts []goabnf.ASTGenOption
	if t.Pct(70) {
		depth = []int{3, 0, 1, 6, 10}[t.N(5)]
		opts = append(opts, goabnf.WithMaxDepth(depth))
	}
	if t.Pct(85) {
		length = []int{30, 0, 1, 8, 64}[t.N(5)]
		opts = append(opts, goabnf.WithMaxLen(length))
	}
	if t.Pct(70) {
		repeat = []int{2, 0, 1, 5}[t.N(4)]
		opts = append(opts, goabnf.WithMaxRepeat(repeat))
	}
	t.Say("budgets: depth %d, length %d, repeat %d", depth, length, repeat)
	t.Eval()
	if t.Pct(3) {
		var nf *goabnf.ErrRuleNotFound
		if ag, err := goabnf.NewASTGenerator(lg, "no-such-rule", opts...); !errors.As(err, &nf) || ag != nil {
			t.Failf("an unknown rule gives %v, %v", ag, err)
		}
	}
	rules, undef := g.reach(root)
	refuse := len(undef) > 0
	for _, r := range rules {
		refuse = refuse || m[r] >= huge
	}
	ag, err := goabnf.NewASTGenerator(lg, casing(t, root), opts...)
	if refuse {
		if err == nil || ag != nil {
			t.Failf("accepted although a rule within reach is undefined or derives no text, producing %q", ag.Generate(nil))
		}
		t.Label("refused")
		return
	}
	if err != nil {
		t.Failf("refused although every rule within reach derives some text: %v", err)
	}
	ag2, err := goabnf.NewASTGenerator(mk(), root, opts...)
	if err != nil {
		t.Failf("refused the second time: %v", err)
	}
	most := func(r Rep) int {
		if r.Max == Inf {
			return r.Min + repeat
		}
		return r.Max
	}
	capped := g.limited(most, false)
	least := g.limited(func(r Rep) int {
		if r.Max != Inf && r.Max < r.Min {
			return r.Max
		}
		return r.Min
	}, true)
	judge := func(out []byte) {
		if out == nil {
			t.Failf("the word is nil")
		}
		if len(out) > 80 {
			t.Label("long")
			if len(out) > 400 || t.N(6) > 0 {
				return
			}
		}
		if !refAccepts(capped, root, out) {
			if refAccepts(g, root, out) {
				t.Failf("the word takes a repetition above the bound")
			}
			t.Failf("the word is not in the language")
		}
		if (depth <= 0 || length <= 0) && !refAccepts(least, root, out) {
			t.Failf("beyond the budget, yet repetitions are not at their minimum")
		}
		if may, ok := g.steered(root, m, out, depth, length, most); ok && !may {
			t.Failf("beyond a budget, yet the word is not finished the shortest way")
		} else if ok {
			t.Label("steered")
		}
	}
	for k := 0; k < 16 && !t.Tired(); k++ {
		tape := genTape(t)
		if k == 0 {
			tape = nil
		}
		out := ag.Generate(tape)
		keep := append([]byte(nil), out...)
		t.desc = append(t.desc[:3], fmt.Sprintf("tape: %x word: %s", tape, short(out)))
		judge(out)
		if q := ag2.Generate(tape); !bytes.Equal(out, q) {
			t.Failf("from the grammar parsed anew: %s", short(q))
		}
		ext := append(append([]byte(nil), tape...), make([]byte, 1+t.N(6))...)
		if q := ag.Generate(ext); !bytes.Equal(out, q) || !bytes.Equal(out, keep) {
			t.Failf("with zeros appended to the tape: %s", short(q))
		}
		if len(out) > 1 {
			t.Nontrivial(g.Text(), string(out))
			t.Sample("%s, rule %s, tape %x -> %s", g.Show(), root, tape, short(out))
		}
	}
	seed := int64(t.N(1000))
	a, b := ag.GenerateRand(rand.New(rand.NewSource(seed))), ag2.GenerateRand(rand.New(rand.NewSource(seed)))
	t.desc = append(t.desc[:3], fmt.Sprintf("GenerateRand of seed %d: %s", seed, short(a)))
	judge(a)
	if !bytes.Equal(a, b) {
		t.Failf("from the grammar parsed anew: %s", short(b))
	}
	// everything comes up
	if g.cyclic(root) || depth <= len(rules) || repeat > 5 {
		return
	}
	d, ok := capped.wordDist(root, false)
	if !ok {
		return
	}
	for w := range d {
		if len(w) >= length {
			return
		}
	}
	got := map[string]bool{}
	n, mx := capped.decisions(root)
	pow := 1
	for i := 0; i < n && pow <= 3000; i++ {
		pow *= mx
	}
	if pow > 3000 || mx > 250 {
		return
	}
	t.Label("small-language")
	t.desc = t.desc[:3]
	tape := make([]byte, n)
	for {
		got[string(ag.Generate(tape))] = true
		i := 0
		for ; i < n; i++ {
			if tape[i]++; int(tape[i]) < mx {
				break
			}
			tape[i] = 0
		}
		if i == n {
			break
		}
	}
	for w := range got {
		if _, ok := d[w]; !ok {
			t.Failf("some tape gives %q, which is not in the language", w)
		}
	}
	for w := range d {
		if !got[w] {
			t.Failf("no tape of %d decisions gives %q", n, w)
		}
	}
}

// decisions bounds the number of choices of a derivation of a non-recursive rule
// with bounded repetitions, and the number of options of any of them.
func (g *G) decisions(root string) (n, mx int) {
	mx = 1
	const lim = 100
	var alts func(a []Cat) int
	alts = func(a []Cat) int {
		best := 0
		for _, c := range a {
			s := 0
			for _, r := range c {
				s += b2i(r.Max != r.Min)
				mx = max(mx, r.Max-r.Min+1)
				x := 0
				switch r.E.K {
				case KGroup:
					x = alts(r.E.Alts)
				case KOpt:
					x = 1 + alts(r.E.Alts)
					mx = max(mx, 2)
				case KRef:
					if rl := g.lookup(r.E.Name); rl != nil {
						x = alts(rl.Alts)
					}
				case KStr:
					x = len(r.E.Runes)
					mx = max(mx, 2)
				case KNum:
					if r.E.Range && r.E.productive() {
						x = 1
						mx = max(mx, min(int(min(r.E.Vals[1], 0x10FFFF)-r.E.Vals[0])+1, 1000))
					}
				}
				s = min(lim, s+max(r.Max, 0)*x)
			}
			best = max(best, s)
		}
		mx = max(mx, len(a))
		return min(lim, best+b2i(len(a) > 1))
	}
	return alts(g.lookup(root).Alts), mx
}

// wideRange is a grammar of one wide range, "pre" and "post" around it.
func wideRange(t *T) (text string, lo, hi uint64) {
	for {
		lo = uint64([]int{0, 0x41, 0x80, 0x7FF, 0x2000, 0xD000, 0xFFF0, t.N(0x110000)}[t.N(8)])
		hi = lo + uint64([]int{300, 0x1000, 0x10000, 0x100000, 1 + t.N(0x110000)}[t.N(5)])
		if hi <= 0x10FFFF && hi-lo >= 256 {
			break
		}
	}
	return fmt.Sprintf("a = %%x%X-%X\r\n", lo, hi), lo, hi
}

// spreads draws 400 words of a wide range: they are characters of it, and each
// eighth of the range that has its share of characters comes up.
func spreads(t *T, what string, lo, hi uint64, draw func(i int) []byte) {
	const parts, n = 8, 400
	var hit [parts]bool
	part := func(v uint64) int { return int((v - lo) * parts / (hi - lo + 1)) }
	for i := 0; i < n; i++ {
		w := draw(i)
		r, l := utf8.DecodeRune(w)
		if l != len(w) || r == utf8.RuneError && l != 3 || uint64(r) < lo || uint64(r) > hi {
			t.Failf("%s gives %q, no character of the range", what, w)
		}
		hit[part(uint64(r))] = true
	}
	var share [parts]uint64
	for v := lo; v <= hi; v++ {
		if v < 0xD800 || v > 0xDFFF {
			share[part(v)]++
		}
	}
	for k, h := range hit {
		if !h && share[k]*2*parts >= hi-lo+1 {
			t.Failf("%s never gives a character of part %d of %d of the range, %d draws", what, k+1, parts, n)
		}
	}
	t.Label("wide-range")
}

func parseText(t *T, text string) *goabnf.Grammar {
	lg, err := goabnf.ParseABNF([]byte(text))
	if err != nil {
		t.Failf("%q is refused: %v", text, err)
	}
	return lg
}

func wideTape(t *T) []byte {
	b := make([]byte, 4)
	for i := range b {
		b[i] = byte(t.N(256))
	}
	return b
}
