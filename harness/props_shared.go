package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	goabnf "github.com/pandatix/go-abnf"
)

// C20: calls on shared values answer as calls on values of their own would,
// whatever was called before and whatever runs at the same time. The harness is
// built with the race detector for it.

func init() {
	register(&Prop{
		ID:       "C20",
		Quick:    1200,
		Thorough: 60000,
		Rule: "a case is a random grammar, a rule, an input and 6 to 14 calls drawn over the whole API on one shared set of values (grammar, transition graph, generators, forests, the ABNF grammar itself). " +
			"Each call first runs alone on values of its own; then all run in a random order on the shared values, returned slices being overwritten afterwards, and then again from 4 goroutines at once, each in its own order. " +
			"Oracle: the answers alone; the grammar, the core rules, the ABNF grammar and every input unchanged at the end; the race detector silent. " +
			"Non-trivial: at least 5 different calls; distinct by grammar and calls.",
		Check: checkC20,
	})
}

// shared is the set of values calls share.
type shared struct {
	text  []byte
	g     *goabnf.Grammar
	root  string
	in    []byte
	tg    *goabnf.TransitionGraph
	gen   *goabnf.Generator
	sgen  *goabnf.Generator
	ag    *goabnf.ASTGenerator
	f     *goabnf.Forest
	b     *goabnf.BSRForest
	graph []goabnf.TGOption
}

func newShared(text []byte, root string, in []byte, graph []goabnf.TGOption) (*shared, error) {
	s := &shared{text: append([]byte(nil), text...), root: root, in: append([]byte(nil), in...), graph: graph}
	var err error
	if s.g, err = goabnf.ParseABNF(s.text); err != nil {
		return nil, err
	}
	if s.tg, err = s.g.TransitionGraph(root, graph...); err == nil {
		s.gen, _ = goabnf.NewGenerator(s.tg)
		s.sgen, _ = goabnf.NewGenerator(s.tg, goabnf.WithStableAddressing())
	} else {
		s.tg = nil
	}
	s.ag, _ = goabnf.NewASTGenerator(s.g, root)
	if s.f, err = goabnf.ParseForest(s.in, s.g, root); err != nil {
		return nil, err
	}
	if s.b, err = goabnf.ParseBSR(s.in, s.g, root); err != nil {
		return nil, err
	}
	return s, nil
}

type sharedOp struct {
	name string
	f    func(s *shared) string
}

func spoil(b []byte) string {
	r := fmt.Sprintf("%q", b)
	for i := range b {
		b[i] = 0xAA
	}
	return r
}

func linesSorted(s string) string {
	l := strings.Split(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

var uuidRe = regexp.MustCompile(`[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}`)

func forestSig(f forester) string {
	s := fmt.Sprintf("valid %v trees %v ambiguous %v nodes %d", f.Valid(), f.NumTrees(), f.Ambiguous(), f.Nodes())
	tr := f.Tree()
	if f.NumTrees().String() == "1" {
		s += " " + fromLibTree(tr).String()
	} else {
		s += fmt.Sprintf(" tree %v", tr != nil)
	}
	return s
}

func spoilTree(t *goabnf.ParseTree) {
	if t == nil {
		return
	}
	for _, c := range t.Children {
		spoilTree(c)
	}
	t.Start, t.End, t.Rule, t.Children = -7, -7, "spoilt", nil
}

func errStr(err error) string {
	if err == nil {
		return "nil"
	}
	return fmt.Sprintf("%T %v", err, err)
}

func graphSig(tg *goabnf.TransitionGraph) string {
	gr := readGraph(tg)
	var s strings.Builder
	fmt.Fprintf(&s, "entries %v nil %v/%v\n", gr.entries, gr.nilEntry, gr.nilEnd)
	for i, n := range gr.nodes {
		fmt.Fprintf(&s, "%d %s %v end %v\n", i, elemText(n.e), n.nexts, n.end)
	}
	return s.String()
}

func drawOp(t *T, g *G, root string) sharedOp {
	seed := int64(t.N(50))
	name := root
	if t.Pct(20) {
		name = g.Rules[t.N(len(g.Rules))].Name
	}
	switch t.N(22) {
	case 0:
		return sharedOp{"ParseABNF", func(s *shared) string {
			lg, err := goabnf.ParseABNF(s.text)
			if err != nil {
				return errStr(err)
			}
			return linesSorted(lg.String())
		}}
	case 1:
		in := g.genInput(t, name, 10)
		return sharedOp{fmt.Sprintf("IsValid(%s, %s)", name, short(in)), func(s *shared) string {
			in := append([]byte(nil), in...)
			keep := string(in)
			v, err := s.g.IsValid(name, in)
			return fmt.Sprint(v, errStr(err), string(in) == keep)
		}}
	case 2:
		in := g.genInput(t, name, 8)
		return sharedOp{fmt.Sprintf("ParseForest(%s, %s)", name, short(in)), func(s *shared) string {
			in := append([]byte(nil), in...)
			keep := string(in)
			f, err := goabnf.ParseForest(in, s.g, name)
			if err != nil {
				return errStr(err)
			}
			r := forestSig(f) + fmt.Sprint(f.ParseError() != nil && f.ParseError().Error() != "")
			return fmt.Sprint(r, string(in) == keep)
		}}
	case 3:
		in := g.genInput(t, name, 8)
		return sharedOp{fmt.Sprintf("ParseBSR(%s, %s)", name, short(in)), func(s *shared) string {
			in := append([]byte(nil), in...)
			keep := string(in)
			f, err := goabnf.ParseBSR(in, s.g, name)
			if err != nil {
				return errStr(err)
			}
			return fmt.Sprint(forestSig(f), string(in) == keep)
		}}
	case 4:
		return sharedOp{"forest queries", func(s *shared) string {
			r := forestSig(s.f)
			if pe := s.f.ParseError(); pe != nil {
				r += pe.Error()
			}
			spoilTree(s.f.Tree())
			s.f.NumTrees().SetInt64(12345)
			return r
		}}
	case 5:
		return sharedOp{"BSR queries", func(s *shared) string {
			r := forestSig(s.b)
			spoilTree(s.b.Tree())
			s.b.NumTrees().SetInt64(12345)
			return r
		}}
	case 6:
		return sharedOp{"Regex", func(s *shared) string {
			re, err := s.g.Regex(name, goabnf.WithMaxRegexLen(20000))
			return re + errStr(err)
		}}
	case 7:
		return sharedOp{"TransitionGraph", func(s *shared) string {
			tg, err := s.g.TransitionGraph(s.root, s.graph...)
			if err != nil {
				return errStr(err)
			}
			return graphSig(tg)
		}}
	case 8:
		return sharedOp{"ToMermaid", func(s *shared) string {
			if s.tg == nil {
				return ""
			}
			return linesSorted(uuidRe.ReplaceAllString(s.tg.ToMermaid(), "ID"))
		}}
	case 9:
		mode := []goabnf.CoverageMode{goabnf.CoverageAllTrails, goabnf.CoverageCompact}[t.N(2)]
		return sharedOp{"Reader", func(s *shared) string {
			if s.tg == nil {
				return ""
			}
			gr := readGraph(s.tg)
			if gr.edges > 20 {
				return ""
			}
			for _, n := range gr.nodes {
				if n.e != nil {
					if _, few := variants(n.e, 300); !few {
						return ""
					}
				}
			}
			rd := s.tg.Reader(goabnf.WithCoverageMode(mode))
			r := ""
			for k := 0; k < 12 && rd.Next(); k++ {
				r += spoil(rd.Scan())
			}
			return r
		}}
	case 10:
		tape := totalTape(t)
		return sharedOp{"Generator.Generate", func(s *shared) string {
			if s.gen == nil {
				return ""
			}
			tape := append([]byte(nil), tape...)
			keep := string(tape)
			return spoil(s.gen.Generate(tape)) + spoil(s.sgen.Generate(tape)) + fmt.Sprint(string(tape) == keep)
		}}
	case 11:
		return sharedOp{"Generator.GenerateRand", func(s *shared) string {
			if s.gen == nil {
				return ""
			}
			return spoil(s.gen.GenerateRand(rand.New(rand.NewSource(seed)))) + spoil(s.sgen.GenerateRand(rand.New(rand.NewSource(seed))))
		}}
	case 12:
		tape := totalTape(t)
		return sharedOp{"Generator.NearMiss", func(s *shared) string {
			if s.gen == nil {
				return ""
			}
			p, l, ok := s.gen.NearMiss(tape)
			return spoil(p) + l + fmt.Sprint(ok)
		}}
	case 13, 14:
		in := g.genInput(t, root, 6)
		return sharedOp{fmt.Sprintf("ExpectedNext(%s)", short(in)), func(s *shared) string {
			if s.gen == nil {
				return ""
			}
			in := append([]byte(nil), in...)
			keep := string(in)
			next, acc, ok := s.gen.ExpectedNext(in)
			return fmt.Sprint(spoil(next), acc, ok, string(in) == keep)
		}}
	case 15:
		tape := totalTape(t)
		return sharedOp{"ASTGenerator", func(s *shared) string {
			if s.ag == nil {
				return ""
			}
			tape := append([]byte(nil), tape...)
			keep := string(tape)
			return spoil(s.ag.Generate(tape)) + spoil(s.ag.GenerateRand(rand.New(rand.NewSource(seed)))) + fmt.Sprint(string(tape) == keep)
		}}
	case 16:
		return sharedOp{"Generate", func(s *shared) string {
			b, err := s.g.Generate(seed, name)
			return spoil(b) + errStr(err)
		}}
	case 17:
		return sharedOp{"dependencies", func(s *shared) string {
			c, err := s.g.RuleContainsCycle(name)
			dg := s.g.DependencyGraph()
			r := linesSorted(dg.Mermaid()) + fmt.Sprint(s.g.IsDAG(), c, errStr(err))
			for _, n := range dg {
				for i := range n.Dependencies {
					n.Dependencies[i] = "spoilt"
				}
			}
			clear(dg)
			return r
		}}
	case 18:
		return sharedOp{"SemvalABNF", func(s *shared) string { return fmt.Sprint(goabnf.SemvalABNF(s.g) == nil) }}
	case 19:
		return sharedOp{"GenerateGoParser", func(s *shared) string {
			b, err := goabnf.GenerateGoParser(s.g, name, "p")
			return spoil(b) + errStr(err)
		}}
	case 20:
		return sharedOp{"print", func(s *shared) string {
			return linesSorted(s.g.String()) + linesSorted(s.g.PrettyPrint())
		}}
	}
	// A grammar that redefines a core rule must leave the others alone.
	core := coreNames[t.N(len(coreNames))]
	return sharedOp{"redefine " + core, func(s *shared) string {
		src := []byte(core + " = \"redefined\"\r\nx = " + core + "\r\n")
		lg, err := goabnf.ParseABNF(src, goabnf.WithRedefineCoreRules(true))
		if err != nil {
			return errStr(err)
		}
		v, err := lg.IsValid("x", []byte("redefined"))
		src2 := []byte("x = " + core + "\r\n")
		l2, err2 := goabnf.ParseABNF(src2)
		if err2 != nil {
			return errStr(err2)
		}
		w, err3 := l2.IsValid("x", []byte("redefined"))
		lg.Rulemap["x"].Alternation.Concatenations[0] = goabnf.Concatenation{}
		delete(lg.Rulemap, "x")
		return fmt.Sprint(v, errStr(err), w, errStr(err3))
	}}
}

var coreBefore, abnfBefore = func() (string, string) {
	s := ""
	for _, n := range coreNames {
		s += goabnf.GetRule(n, nil).String() + "\n"
	}
	return s, linesSorted(goabnf.ABNF.String())
}()

func checkC20(t *T) {
	o := GenOpt{MaxRules: 3, MaxDepth: 2, MaxAlts: 2, MaxCats: 3, Core: t.Pct(30), MaxCount: 3, Acyclic: t.Pct(70)}
	g := genGrammar(t, o)
	root := g.Rules[0].Name
	text := []byte(g.Text())
	t.Say("grammar: %s | root %s", g.Show(), root)
	to := tgOpts{rules: t.Pct(85), chars: t.Pct(30), nums: t.Pct(20)}
	if heavyGraph(g, root, to) {
		to.nums = false
	}
	graph := append(to.lib(), goabnf.WithMaxNodes(80))
	in := g.genInput(t, root, 10)
	t.Say("input: %s", short(in))
	n := t.Range(6, 14)
	ops := make([]sharedOp, n)
	kinds := map[string]bool{}
	for i := range ops {
		ops[i] = drawOp(t, g, root)
		kinds[strings.SplitN(ops[i].name, "(", 2)[0]] = true
	}
	want := make([]string, n)
	for i, op := range ops {
		if t.Tired() {
			return
		}
		s, err := newShared(text, root, in, graph)
		if err != nil {
			t.Failf("grammar rejected: %v", err)
		}
		want[i] = op.f(s)
		t.Eval()
	}
	s, err := newShared(text, root, in, graph)
	if err != nil {
		t.Failf("grammar rejected: %v", err)
	}
	intact := func(when string) {
		m, err := fromLib(s.g)
		if err != nil {
			t.Failf("%s: the grammar is broken: %v", when, err)
		}
		if d := sameGrammar(g, m); d != "" {
			t.Failf("%s: the grammar changed: %s", when, d)
		}
		if !bytes.Equal(s.text, text) || !bytes.Equal(s.in, in) {
			t.Failf("%s: an input changed", when)
		}
		c := ""
		for _, n := range coreNames {
			c += goabnf.GetRule(n, nil).String() + "\n"
		}
		if c != coreBefore {
			t.Failf("%s: the core rules changed: %s", when, c)
		}
		if linesSorted(goabnf.ABNF.String()) != abnfBefore {
			t.Failf("%s: the ABNF grammar changed", when)
		}
	}
	// one after another, in another order, some twice
	done := []string{}
	for k := 0; k < n+3; k++ {
		if t.Tired() {
			return
		}
		i := t.N(n)
		t.Eval()
		got := ops[i].f(s)
		done = append(done, ops[i].name)
		if got != want[i] {
			t.Failf("%s after [%s]: got %s, alone %s", ops[i].name, strings.Join(done[:len(done)-1], ", "), cut(got), cut(want[i]))
		}
	}
	intact("after a sequence of calls")
	// all at once: on the used values, or on fresh ones that nothing warmed up
	if t.Bool() {
		if s, err = newShared(text, root, in, graph); err != nil {
			t.Failf("grammar rejected: %v", err)
		}
	}
	const workers = 4
	orders := make([][]int, workers)
	for w := range orders {
		for i := 0; i < n; i++ {
			orders[w] = append(orders[w], i)
		}
		for i := n - 1; i > 0; i-- {
			j := t.N(i + 1)
			orders[w][i], orders[w][j] = orders[w][j], orders[w][i]
		}
	}
	fails := make([]string, workers)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					fails[w] = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
				}
			}()
			<-start
			for _, i := range orders[w] {
				if got := ops[i].f(s); got != want[i] {
					fails[w] = fmt.Sprintf("%s next to other calls: got %s, alone %s", ops[i].name, cut(got), cut(want[i]))
					return
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	t.Eval()
	for _, f := range fails {
		if f != "" {
			t.Failf("%s", f)
		}
	}
	intact("after concurrent calls")
	if len(kinds) >= 5 {
		var ks []string
		for i := range ops {
			ks = append(ks, ops[i].name)
		}
		t.Nontrivial(g.Text(), ks)
		t.Sample("%s | %s: %s", g.Show(), root, strings.Join(ks, ", "))
	}
}

// heavyGraph: expanding ranges and strings would make a large graph.
func heavyGraph(g *G, root string, o tgOpts) bool {
	r, _ := g.reach(root)
	n := 0
	for _, x := range r {
		walkAlts(x.Alts, func(e *Elem, _ Rep) {
			if e.K == KNum && e.Range && len(e.Vals) == 2 && e.Vals[1] > e.Vals[0] {
				n += int(min(e.Vals[1]-e.Vals[0], 1000))
			}
		})
	}
	return n > 60
}

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}
