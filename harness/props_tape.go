package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"regexp"
	"slices"
	"strconv"
	"unicode/utf8"

	goabnf "github.com/pandatix/go-abnf"
)

func init() {
	register(&Prop{
		ID: "C12", Quick: 15000, Thorough: 300000,
		Rule: "a case is a random grammar, its expanded transition graph, random budgets and addressing, and 24 tapes. Oracle: every production is accepted by the reference recogniser, within the bounds the budgets imply and the word of a walk that takes shortest ways once a budget is spent; the tape's zero extension, a repeated call, another generator on a graph built anew, and the slot-addressed tape give the same; " +
			"on tiny graphs all short tapes over few byte values give every word of walks of up to two nodes, and all words of an acyclic graph. Non-trivial: a production of at least 2 bytes from a graph with a loop or branch; distinct by grammar and production.",
		Check: checkC12,
	})
	register(&Prop{
		ID: "C13", Quick: 12000, Thorough: 300000,
		Rule:  "a case is a random grammar, its expanded graph and 12 tapes. Oracle: the near miss is rejected by the reference recogniser, differs from the tape's valid production by exactly the one edit its label names, and is the same on every call. Non-trivial: a near miss of a non-empty production; distinct by grammar, near miss and label.",
		Check: checkC13,
	})
	register(&Prop{
		ID: "C14", Quick: 30000, Thorough: 300000,
		Rule: "a case is a random grammar, its expanded graph and 10 byte strings cut from words, mutated words and random text, cut anywhere also within characters. Oracle: a byte-level automaton over the trimmed graph, with UTF-8 intervals computed arithmetically; acceptance also against the reference recogniser. " +
			"Non-trivial: a viable prefix of at least one byte; distinct by grammar and prefix.",
		Check: checkC14,
	})
}

// tapeGrammar draws a grammar and its expanded graph; nil when too large.
func tapeGrammar(t *T, opts func(*GenOpt)) (g *G, root string, lg *goabnf.Grammar, tg *goabnf.TransitionGraph, gr *Graph, to tgOpts) {
	_, o := graphGrammar(t)
	if opts != nil {
		opts(&o)
	}
	g = genGrammar(t, o)
	root = g.Rules[0].Name
	to = tgOpts{rules: true, chars: t.Pct(40), nums: t.Pct(25)}
	t.Say("grammar: %s | root %s | options %+v", g.Show(), root, to)
	if g.tgSize(root, to) > 200 {
		t.Label("too-large")
		t.Discard()
	}
	lg = g.parse(t)
	var err error
	tg, err = lg.TransitionGraph(root, to.lib()...)
	if err != nil {
		t.Failf("no graph: %v", err)
	}
	return g, root, lg, tg, readGraph(tg), to
}

func (gr *Graph) emptyLanguage(live []bool) bool {
	if gr.nilEntry && gr.nilEnd {
		return false
	}
	for _, k := range gr.entries {
		if live[k] {
			return false
		}
	}
	return true
}

// dists are the shortest distances to an endpoint over live nodes, -1 for none.
func (gr *Graph) dists(live []bool) []int {
	d := make([]int, len(gr.nodes))
	for i := range d {
		d[i] = -1
		if live[i] && gr.nodes[i].end {
			d[i] = 0
		}
	}
	for ch := true; ch; {
		ch = false
		for i, n := range gr.nodes {
			if !live[i] {
				continue
			}
			for _, j := range n.nexts {
				if live[j] && d[j] >= 0 && (d[i] < 0 || d[j]+1 < d[i]) {
					d[i] = d[j] + 1
					ch = true
				}
			}
		}
	}
	return d
}

// walks tells whether some walk of a generator with these budgets gives p:
// once a budget is spent it stops at an endpoint and, elsewhere, takes a
// shortest way to one.
func (gr *Graph) walks(p []byte, live []bool, d []int, maxLen, maxReps, maxSteps int) bool {
	if gr.nilEntry && gr.nilEnd && len(p) == 0 {
		return true
	}
	type st struct{ k, p int }
	seen := map[st]bool{}
	var level []st
	for _, k := range gr.entries {
		if live[k] {
			level = append(level, st{k, 0})
		}
	}
	for steps := 0; len(level) > 0; steps++ {
		var next []st
		for _, s := range level {
			if seen[s] {
				continue // fewer steps leave more choices
			}
			seen[s] = true
			nd := gr.nodes[s.k]
			l := termMatch(nd.e, p[s.p:])
			if l < 0 {
				continue
			}
			q := s.p + l
			if nd.end && q == len(p) {
				return true
			}
			over := q >= maxLen || steps >= maxSteps || maxReps == 0
			if over && nd.end {
				continue
			}
			for _, j := range nd.nexts {
				if live[j] && (!over || d[j] == d[s.k]-1) {
					next = append(next, st{j, q})
				}
			}
		}
		level = next
	}
	return false
}

func maxEmit(e *Elem) int {
	switch e.K {
	case KStr:
		return len(string(e.Runes))
	case KNum:
		if e.Range {
			return len(string(rune(min(e.Vals[1], 0x10FFFF)))) // 3 for a surrogate as well
		}
		n := 0
		for _, v := range e.Vals {
			n += len(encode(v))
		}
		return n
	}
	return 0
}

func maxEmitOf(gr *Graph, live []bool) int {
	m := 0
	for i, n := range gr.nodes {
		if live[i] {
			if e := maxEmit(n.e); e > m {
				m = e
			}
		}
	}
	return max(m, 0)
}

// nvariants counts the spellings of a terminal, saturating.
func nvariants(e *Elem) int {
	switch e.K {
	case KStr:
		n := 1
		for _, r := range e.Runes {
			if !e.Sens && (r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') && n < 1<<20 {
				n *= 2
			}
		}
		return n
	case KNum:
		if e.Range && e.productive() {
			return int(min(e.Vals[1], 0x10FFFF)-e.Vals[0]) + 1
		}
	}
	return 1
}

func genTape(t *T) []byte {
	n := []int{0, 1, 2, 4, 8, 16, 40, 120}[t.N(8)]
	n = t.N(n + 1)
	style := t.N(4)
	out := make([]byte, n)
	for i := range out {
		switch style {
		case 0:
			out[i] = byte(t.N(4))
		case 1:
			out[i] = byte(t.N(256))
		case 2:
			out[i] = byte([]int{1, 255, 2, 128}[t.N(4)])
		case 3:
			out[i] = byte(1 + t.N(3))
		}
	}
	return out
}

func checkC12(t *T) {
	if t.Pct(2) {
		text, lo, hi := wideRange(t)
		t.Say("grammar: %s", text)
		t.Eval()
		tg, err := parseText(t, text).TransitionGraph("a", goabnf.WithDeflateRules(true))
		if err != nil {
			t.Failf("no graph: %v", err)
		}
		var opts []goabnf.GenOption
		if t.Pct(50) {
			opts = append(opts, goabnf.WithStableAddressing())
			t.Say("stable addressing")
		}
		gen, err := goabnf.NewGenerator(tg, opts...)
		if err != nil {
			t.Failf("no generator: %v", err)
		}
		if r := rand.New(rand.NewSource(int64(t.N(1000)))); t.Pct(30) {
			spreads(t, "GenerateRand", lo, hi, func(int) []byte { return gen.GenerateRand(r) })
		} else {
			spreads(t, "Generate", lo, hi, func(int) []byte { return gen.Generate(wideTape(t)) })
		}
		return
	}
	g, root, lg, tg, gr, to := tapeGrammar(t, nil)
	live := gr.viable()
	t.Eval()
	if t.Pct(8) {
		// a graph with rule nodes is refused
		un := to
		un.rules = false
		if utg, err := lg.TransitionGraph(root, un.lib()...); err == nil {
			has := false
			for _, n := range readGraph(utg).nodes {
				has = has || n.e.K == KRef
			}
			ug, err := goabnf.NewGenerator(utg)
			if has != (err != nil) && !readGraph(utg).emptyLanguage(readGraph(utg).viable()) {
				t.Failf("a graph with rule nodes: %v gives %v, %v", has, ug, err)
			}
		}
	}
	maxLen, maxReps, maxSteps := 4096, 32, 100000
	var opts []goabnf.GenOption
	if t.Pct(70) {
		maxLen = []int{0, 1, 2, 5, 12, 40, 200}[t.N(7)]
		opts = append(opts, goabnf.WithMaxLength(maxLen))
	}
	if t.Pct(60) {
		maxReps = []int{1, 2, 3, 8, 0}[t.N(5)]
		opts = append(opts, goabnf.WithMaxReps(maxReps))
	}
	if t.Pct(40) {
		maxSteps = []int{0, 1, 2, 3, 7, 30}[t.N(6)]
		opts = append(opts, goabnf.WithMaxSteps(maxSteps))
	}
	t.Say("budgets: length %d, reps %d, steps %d", maxLen, maxReps, maxSteps)
	gen, err := goabnf.NewGenerator(tg, opts...)
	if gr.emptyLanguage(live) {
		if err == nil {
			t.Failf("a generator for an empty language, producing %q", gen.Generate(nil))
		}
		t.Label("empty-language")
		return
	}
	if err != nil {
		t.Failf("no generator: %v", err)
	}
	sgen, err := goabnf.NewGenerator(tg, append(opts, goabnf.WithStableAddressing())...)
	if err != nil {
		t.Failf("no generator: %v", err)
	}
	tg2, err := lg.TransitionGraph(root, to.lib()...)
	if err != nil {
		t.Failf("no graph the second time: %v", err)
	}
	gen2, _ := goabnf.NewGenerator(tg2, opts...)
	dist := gr.dists(live)
	me, md := maxEmitOf(gr, live), slices.Max(append(dist, 0))
	edges := 0
	small := len(gr.entries) <= 256
	branch := false
	for i, n := range gr.nodes {
		if live[i] {
			for _, j := range n.nexts {
				edges += b2i(live[j])
			}
			small = small && nvariants(n.e) <= 256 && len(n.nexts) < 256
			branch = branch || len(n.nexts) > 1
		}
	}
	bySteps := maxSteps + md + 1
	byReps := (edges*maxReps+1)*(md+1) + 1
	if maxReps > 1000 || edges > 100000 {
		byReps = 1 << 40
	}
	bound := min(max(0, maxLen-1)+me*(1+md), bySteps*me, byReps*me)
	memo := map[string]bool{}
	inL := func(what string, p []byte) {
		if p == nil {
			t.Failf("%s gives nil", what)
		}
		if len(p) > bound {
			t.Failf("%s gives %d bytes, the budgets allow %d", what, len(p), bound)
		}
		if !memo[string(p)] {
			memo[string(p)] = true
			if len(memo) < 300 && len(p) <= 60 && !refAccepts(g, root, p) {
				t.Failf("%s gives %s, which is not in the language", what, short(p))
			}
			if !gr.accepts(&Ref{g: g, in: p, n: len(p)}) {
				t.Failf("%s gives %s, which the graph does not admit", what, short(p))
			}
			if !gr.walks(p, live, dist, maxLen, maxReps, maxSteps) {
				t.Failf("%s gives %s: past the budget the walk does not take a shortest way to an endpoint", what, short(p))
			}
		}
	}
	for k := 0; k < 24; k++ {
		tape := genTape(t)
		if t.Tired() {
			return
		}
		if k == 0 {
			tape = nil
		}
		p := gen.Generate(tape)
		keep := append([]byte(nil), p...)
		t.desc = append(t.desc[:2], fmt.Sprintf("tape: %x production: %s", tape, short(p)))
		inL("Generate", p)
		ext := append(append([]byte(nil), tape...), make([]byte, 1+t.N(6))...)
		if q := gen.Generate(ext); !bytes.Equal(p, q) {
			t.Failf("with zeros appended to the tape: %s", short(q))
		}
		if q := gen2.Generate(tape); !bytes.Equal(p, q) {
			t.Failf("from a graph built anew: %s", short(q))
		}
		s := sgen.Generate(tape)
		inL("Generate with stable addressing", s)
		if q := sgen.Generate(ext); !bytes.Equal(s, q) {
			t.Failf("stable addressing, with zeros appended to the tape: %s, without: %s", short(q), short(s))
		}
		if small {
			slots := make([]byte, 4*len(tape))
			for i, b := range tape {
				slots[4*i+3] = b
			}
			if q := sgen.Generate(slots); !bytes.Equal(p, q) {
				t.Failf("stable addressing on the same decisions: %s", short(q))
			}
		}
		if q := gen.Generate(tape); !bytes.Equal(keep, q) || !bytes.Equal(keep, p) {
			t.Failf("a repeated call gives %s, was %s", short(q), short(keep))
		}
		if len(p) > 1 && branch {
			t.Nontrivial(g.Text(), string(p))
			t.Sample("%s, tape %x -> %s", g.Show(), tape, short(p))
		}
	}
	seed := int64(t.N(1000))
	a, b := gen.GenerateRand(rand.New(rand.NewSource(seed))), gen2.GenerateRand(rand.New(rand.NewSource(seed)))
	inL("GenerateRand", a)
	if !bytes.Equal(a, b) {
		t.Failf("GenerateRand of one seed gives %s and %s", short(a), short(b))
	}

	// tiny graphs: nothing reachable is left out
	if maxLen < 40 || maxReps < 2 || maxSteps < 7 || !t.Pct(60) {
		return
	}
	m := len(gr.entries) + b2i(gr.nilEntry)
	for i, n := range gr.nodes {
		if live[i] {
			m = max(m, nvariants(n.e), len(n.nexts)+1)
		}
	}
	if m > 5 || len(gr.nodes) > 12 {
		return
	}
	got := map[string]bool{}
	tape := make([]byte, 5)
	var rec func(d int)
	rec = func(d int) {
		if d == len(tape) {
			p := gen.Generate(tape)
			got[string(p)] = true
			return
		}
		for v := 0; v < m; v++ {
			tape[d] = byte(v)
			rec(d + 1)
		}
	}
	rec(0)
	t.Label("exhaustive-tapes")
	t.desc = t.desc[:2]
	for p := range got {
		inL("Generate", []byte(p))
	}
	if gr.nilEntry && !got[""] {
		t.Failf("no tape of 5 bytes gives the empty word")
	}
	vars := make([][]string, len(gr.nodes))
	for i, n := range gr.nodes {
		if live[i] {
			vars[i], _ = variants(n.e, 100)
		}
	}
	for _, i := range gr.entries {
		if !live[i] {
			continue
		}
		for _, v := range vars[i] {
			if gr.nodes[i].end && !got[v] {
				t.Failf("no tape of 5 bytes gives %q", v)
			}
			for _, j := range gr.nodes[i].nexts {
				if live[j] && gr.nodes[j].end {
					for _, w := range vars[j] {
						if !got[v+w] {
							t.Failf("no tape of 5 bytes gives %q", v+w)
						}
					}
				}
			}
		}
	}
}

// --- C13 ---------------------------------------------------------------------

var (
	reBoundary = regexp.MustCompile(`^byte at offset (\d+) is one (below|above) num-val range (.*)$`)
	reSubst    = regexp.MustCompile(`^byte at offset (\d+) substituted with 0x([0-9a-f]{2})$`)
	reTrunc    = regexp.MustCompile(`^truncated by (\d+) byte\(s\) \(len (\d+)\)$`)
	reTrail    = regexp.MustCompile(`^trailing byte 0x([0-9a-f]{2}) appended$`)
	reDelete   = regexp.MustCompile(`^byte at offset (\d+) deleted$`)
)

// nearMissLabel says what is wrong with the label, or "".
func nearMissLabel(base, nm []byte, label string) string {
	num := func(s string, b int) int {
		v, _ := strconv.ParseInt(s, b, 32)
		return int(v)
	}
	cut := func(ok bool, want []byte) string {
		if !ok || !bytes.Equal(nm, want) {
			return fmt.Sprintf("would be %q", want)
		}
		return ""
	}
	if m := reSubst.FindStringSubmatch(label); m != nil {
		p := num(m[1], 10)
		if p >= len(base) {
			return "offset beyond the production"
		}
		w := append([]byte(nil), base...)
		w[p] = byte(num(m[2], 16))
		return cut(w[p] != base[p], w)
	}
	if m := reTrunc.FindStringSubmatch(label); m != nil {
		n, l := num(m[1], 10), num(m[2], 10)
		if n > len(base) || n == 0 {
			return "wrong count"
		}
		return cut(l == len(base)-n, base[:len(base)-n])
	}
	if m := reTrail.FindStringSubmatch(label); m != nil {
		return cut(true, append(append([]byte(nil), base...), byte(num(m[1], 16))))
	}
	if m := reDelete.FindStringSubmatch(label); m != nil {
		p := num(m[1], 10)
		if p >= len(base) {
			return "offset beyond the production"
		}
		return cut(true, splice(base, p, p+1, nil))
	}
	if m := reBoundary.FindStringSubmatch(label); m != nil {
		p := num(m[1], 10)
		q := regexp.MustCompile(`^%([bdxBDX])([0-9A-Fa-f]+)-([0-9A-Fa-f]+)$`).FindStringSubmatch(m[3])
		if q == nil {
			return "the range is unreadable"
		}
		if p >= len(base) || p >= len(nm) {
			return "offset beyond the production"
		}
		bs := q[1][0] | 0x20
		lo, _, err1 := parseDigits(q[2], bs)
		hi, _, err2 := parseDigits(q[3], bs)
		if err1 != nil || err2 != nil {
			return "the range is unreadable"
		}
		hi = min(hi, 0x10FFFF)
		r, sz := utf8.DecodeRune(base[p:])
		if uint64(r) < lo || uint64(r) > hi {
			return "the production holds no character of the range there"
		}
		to := lo - 1
		if m[2] == "above" {
			to = hi + 1
		}
		if !scalar(to) {
			return "there is no such character"
		}
		return cut(true, splice(base, p, p+sz, encode(to)))
	}
	// another kind of perturbation: any single edit of a contiguous piece
	if label == "" {
		return "empty"
	}
	return ""
}

func checkC13(t *T) {
	g, root, lg, tg, gr, to := tapeGrammar(t, func(o *GenOpt) { o.WideRange = true })
	live := gr.viable()
	if gr.emptyLanguage(live) {
		t.Label("empty-language")
		return
	}
	t.Eval()
	var opts []goabnf.GenOption
	if t.Pct(60) {
		opts = append(opts, goabnf.WithMaxLength([]int{0, 2, 8, 24}[t.N(4)]), goabnf.WithMaxReps(1+t.N(6)))
	} else {
		opts = append(opts, goabnf.WithMaxLength(32))
	}
	gen, err := goabnf.NewGenerator(tg, opts...)
	if err != nil {
		t.Failf("no generator: %v", err)
	}
	tg2, err := lg.TransitionGraph(root, to.lib()...)
	if err != nil {
		t.Failf("no graph the second time: %v", err)
	}
	gen2, _ := goabnf.NewGenerator(tg2, opts...)
	for k := 0; k < 12; k++ {
		tape := genTape(t)
		if t.Tired() {
			return
		}
		if k == 0 {
			tape = nil
		}
		base := gen2.Generate(tape)
		if len(base) > 40 {
			continue
		}
		p, label, ok := gen.NearMiss(tape)
		t.desc = append(t.desc[:1], fmt.Sprintf("tape: %x production: %s near miss: %s label: %s", tape, short(base), short(p), label))
		q, label2, ok2 := gen2.NearMiss(tape)
		if !bytes.Equal(p, q) || label != label2 || ok != ok2 {
			t.Failf("from a graph built anew: %s %q %v", short(q), label2, ok2)
		}
		if !ok {
			t.Failf("no near miss, though no grammar admits a trailing byte 0xFF")
		}
		if label == "" {
			t.Failf("no label")
		}
		if len(p) <= 400 && refAccepts(g, root, p) {
			t.Failf("the near miss is in the language")
		}
		if m := nearMissLabel(base, p, label); m != "" {
			t.Failf("the label does not describe it: %s", m)
		}
		t.Label(regexp.MustCompile(`[^a-z]+`).ReplaceAllString(regexp.MustCompile(`0x..|range.*`).ReplaceAllString(label, ""), " "))
		if len(base) > 0 {
			t.Nontrivial(g.Text(), string(p), label)
			t.Sample("%s: %s -> %s (%s)", g.Show(), short(base), short(p), label)
		}
	}
	seed := int64(t.N(1000))
	tape := make([]byte, 64)
	rand.New(rand.NewSource(seed)).Read(tape)
	if len(gen2.Generate(tape)) > 40 {
		return
	}
	p, l, ok := gen.NearMissRand(rand.New(rand.NewSource(seed)))
	q, l2, ok2 := gen2.NearMissRand(rand.New(rand.NewSource(seed)))
	if !ok || !ok2 || !bytes.Equal(p, q) || l != l2 {
		t.Failf("NearMissRand of one seed gives %s %q and %s %q", short(p), l, short(q), l2)
	}
	if len(p) <= 400 && refAccepts(g, root, p) {
		t.Failf("NearMissRand gives %s (%s), which is in the language", short(p), l)
	}
}

// --- C14 ---------------------------------------------------------------------

// charSet is one character position of a terminal: intervals of code points.
type charSet [][2]uint64

func charsOf(e *Elem) []charSet {
	var out []charSet
	if e.K == KStr {
		for _, r := range e.Runes {
			c := charSet{{uint64(r), uint64(r)}}
			if !e.Sens {
				if r >= 'a' && r <= 'z' {
					c = append(c, [2]uint64{uint64(r - 32), uint64(r - 32)})
				} else if r >= 'A' && r <= 'Z' {
					c = append(c, [2]uint64{uint64(r + 32), uint64(r + 32)})
				}
			}
			out = append(out, c)
		}
		return out
	}
	if e.Range {
		return []charSet{{{e.Vals[0], min(e.Vals[1], 0x10FFFF)}}}
	}
	for _, v := range e.Vals {
		out = append(out, charSet{{v, v}})
	}
	return out
}

// seqLen is the length of an encoded character by its first byte, 0: none.
func seqLen(b byte) int {
	switch {
	case b < 0x80:
		return 1
	case b >= 0xC2 && b <= 0xDF:
		return 2
	case b >= 0xE0 && b <= 0xEF:
		return 3
	case b >= 0xF0 && b <= 0xF4:
		return 4
	}
	return 0
}

// spanOfPrefix gives the scalar values whose encoding starts with p, as intervals.
func spanOfPrefix(p []byte) charSet {
	n := seqLen(p[0])
	if n == 0 || len(p) > n {
		return nil
	}
	v := uint64(p[0])
	if n > 1 {
		v &= 0x7F >> uint(n)
	}
	for _, b := range p[1:] {
		if b&0xC0 != 0x80 {
			return nil
		}
		v = v<<6 | uint64(b&0x3F)
	}
	rem := uint(6 * (n - len(p)))
	lo, hi := v<<rem, v<<rem|(1<<rem-1)
	lo = max(lo, []uint64{0, 0, 0x80, 0x800, 0x10000}[n])
	hi = min(hi, 0x10FFFF)
	var out charSet
	add := func(a, b uint64) {
		if a <= b {
			out = append(out, [2]uint64{a, b})
		}
	}
	if hi < 0xD800 || lo > 0xDFFF {
		add(lo, hi)
	} else {
		add(lo, 0xD7FF)
		add(max(lo, 0xE000), hi)
	}
	return out
}

func (c charSet) meets(d charSet) bool {
	for _, x := range c {
		for _, y := range d {
			if x[0] <= y[1] && y[0] <= x[1] {
				return true
			}
		}
	}
	return false
}

// expectedNext is the oracle: bytes that continue prefix towards a word, and
// whether prefix is one.
func (gr *Graph) expectedNext(live []bool, prefix []byte) (next [256]bool, accepts bool) {
	type st struct {
		node, ci int
		pfx      string
	}
	chars := make([][]charSet, len(gr.nodes))
	for i, n := range gr.nodes {
		if live[i] {
			chars[i] = charsOf(n.e)
		}
	}
	cur := map[st]bool{}
	for _, i := range gr.entries {
		if live[i] {
			cur[st{i, 0, ""}] = true
		}
	}
	accepts = gr.nilEntry && gr.nilEnd
	for _, b := range prefix {
		nx := map[st]bool{}
		accepts = false
		for s := range cur {
			p := s.pfx + string([]byte{b})
			span := spanOfPrefix([]byte(p))
			if !chars[s.node][s.ci].meets(span) {
				continue
			}
			if len(p) < seqLen(p[0]) {
				nx[st{s.node, s.ci, p}] = true
				continue
			}
			if s.ci+1 < len(chars[s.node]) {
				nx[st{s.node, s.ci + 1, ""}] = true
				continue
			}
			accepts = accepts || gr.nodes[s.node].end
			for _, j := range gr.nodes[s.node].nexts {
				if live[j] {
					nx[st{j, 0, ""}] = true
				}
			}
		}
		cur = nx
	}
	for s := range cur {
		for b := 0; b < 256; b++ {
			if !next[b] && chars[s.node][s.ci].meets(spanOfPrefix(append([]byte(s.pfx), byte(b)))) {
				next[b] = true
			}
		}
	}
	return
}

func checkC14(t *T) {
	g, root, _, tg, gr, _ := tapeGrammar(t, func(o *GenOpt) {
		o.WideRange = o.WideRange || t.Pct(40)
		if t.Pct(30) {
			o.Alpha = [][]rune{{0x7E, 0x7F, 0x80, 0x81, 'é'}, {0x7FE, 0x7FF, 0x800, 0x801, '€'}, {0xFFFE, 0xFFFF, 0x10000, 0x10001}, {0xD7FE, 0xD7FF, 0xE000, 0xE001}, {0xBF, 0xC0, 0xFFF, 0x1000, 0x1FFFF, 0x20000}}[t.N(5)]
		}
	})
	live := gr.viable()
	if gr.emptyLanguage(live) {
		t.Label("empty-language")
		return
	}
	t.Eval()
	var opts []goabnf.GenOption
	if t.Pct(40) {
		opts = append(opts, goabnf.WithMaxLength(t.N(4)), goabnf.WithMaxReps(t.N(3)), goabnf.WithMaxSteps(t.N(4)))
	}
	if t.Pct(20) {
		opts = append(opts, goabnf.WithStableAddressing())
	}
	gen, err := goabnf.NewGenerator(tg, opts...)
	if err != nil {
		t.Failf("no generator: %v", err)
	}
	wide := false
	for i, n := range gr.nodes {
		if n.e.K == KNum && n.e.Range && n.e.Vals[1]-n.e.Vals[0] >= 1<<16 {
			wide = true
		}
		_ = i
	}
	for k := 0; k < 10; k++ {
		in := g.genInput(t, root, 40)
		if t.Pct(50) && len(in) > 0 {
			in = in[:t.N(len(in)+1)]
		}
		if k == 0 {
			in = nil
		}
		next, acc := gr.expectedNext(live, in)
		got, gacc, ok := gen.ExpectedNext(in)
		t.Say("prefix: %q expected: %v %v", in, setBytes(next), acc)
		if !ok {
			if wide {
				t.Label("declined")
				continue
			}
			t.Failf("declined without a range of more than 65536 characters")
		}
		if gacc != acc || acc != refAccepts(g, root, in) {
			t.Failf("accepts: %v, want %v", gacc, acc)
		}
		var gs [256]bool
		for i, b := range got {
			if i > 0 && got[i-1] >= b {
				t.Failf("next bytes %v out of order", got)
			}
			gs[b] = true
		}
		if gs != next {
			t.Failf("next bytes %v, want %v", setBytes(gs), setBytes(next))
		}
		again, a2, o2 := gen.ExpectedNext(in)
		if !bytes.Equal(got, again) || a2 != gacc || !o2 {
			t.Failf("a repeated call gives %v %v %v", again, a2, o2)
		}
		viable := acc
		for _, b := range next {
			viable = viable || b
		}
		if viable && len(in) > 0 {
			t.Label("viable")
			if !utf8.Valid(in) {
				t.Label("within-a-character")
			}
			t.Nontrivial(g.Text(), string(in))
			t.Sample("%s after %q: %v, complete: %v", g.Show(), in, setBytes(next), acc)
		} else if len(in) > 0 {
			t.Label("dead")
		}
	}
}

func setBytes(s [256]bool) string {
	out := ""
	for b := 0; b < 256; b++ {
		if s[b] {
			e := b
			for e < 255 && s[e+1] {
				e++
			}
			if e > b {
				out += fmt.Sprintf(" %02x-%02x", b, e)
			} else {
				out += fmt.Sprintf(" %02x", b)
			}
			b = e
		}
	}
	return "{" + out + " }"
}
