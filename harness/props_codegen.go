package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"os"

	goabnf "github.com/pandatix/go-abnf"
)

func init() {
	register(&Prop{
		ID:       "C04",
		Quick:    150,
		Thorough: 1600,
		Workers:  8,
		Setup:    setupStd,
		Rule: "a case is a batch of 1-16 random grammars (as for C01, plus prose-vals, undefined references, values beyond U+10FFFF and grammars built as values), a generated parser for each, compiled " +
			"together and run on 6 inputs each, once without and once with a small element budget. Oracle: reference recogniser, reference derivation count, tree checker, the interpreting engine's tree when there is exactly one. " +
			"Non-trivial: a non-empty input the reference accepts; distinct by grammar text and input.",
		Check:      checkC04,
		SlowShrink: true,
		CPULimit:   240,
	})
}

type gpCase struct {
	g    *G
	root string
	lg   *goabnf.Grammar
	src  []byte
	ins  [][]byte
	sc   *scaleCase
	from int // tape position
	to   int
}

// genGP draws one grammar with inputs and generates its parser.
func genGP(t *T, nin, maxIn int) *gpCase {
	c := &gpCase{from: len(t.tape)}
	if t.Pct(4) {
		var in []byte
		c.g, in = ambiguous(t, 10, 45)
		c.root = "a"
		t.Say("grammar: %s | root a", c.g.Show())
		c.lg = c.g.parse(t)
		var err error
		if c.src, err = goabnf.GenerateGoParser(c.lg, "a", "p"); err != nil {
			t.Failf("no parser generated: %v", err)
		}
		c.ins = append(c.ins, in)
		t.Label("many-trees")
		c.to = len(t.tape)
		return c
	}
	if t.Pct(3) {
		sc := scale(t, 1500)
		if sc.forest {
			c.g, c.root, c.sc, c.ins = sc.g, "a", sc, [][]byte{sc.in}
			c.lg = sc.lib(t)
			var err error
			if c.src, err = goabnf.GenerateGoParser(c.lg, "a", "p"); err != nil {
				t.Failf("no parser generated: %v", err)
			}
			c.to = len(t.tape)
			return c
		}
	}
	o := recogOpt(t)
	var opts []goabnf.ABNFOption
	wild := t.Pct(20)
	if wild {
		o.Prose = true
		opts = append(opts, goabnf.WithValidation(false))
	}
	o.Direct = !wild && t.Pct(15)
	c.g = genGrammar(t, o)
	if wild {
		wilden(t, c.g)
	}
	c.root = c.g.Rules[t.N(len(c.g.Rules))].Name
	if !o.Direct && t.Pct(5) {
		c.g, c.root = leftFamily(t), "a"
		t.Label("left-family")
	}
	t.Say("grammar: %s | root %s%s", c.g.Show(), c.root, map[bool]string{true: " (built as values)", false: ""}[o.Direct])
	call := casing(t, c.root)
	var err error
	if o.Direct {
		c.lg = c.g.build()
		c.src, err = goabnf.GenerateGoParser(c.lg, call, "p")
	} else {
		c.lg = c.g.parse(t, opts...)
		c.src, err = goabnf.GenerateGoParserFromABNF([]byte(c.g.Text()), call, "p", opts...)
	}
	if err != nil {
		t.Failf("no parser generated: %v", err)
	}
	again, err := goabnf.GenerateGoParser(c.lg, call, "p")
	if err != nil || !bytes.Equal(again, c.src) {
		t.Failf("generating the same parser twice gives different source (err %v)", err)
	}
	for k := 0; k < nin; k++ {
		c.ins = append(c.ins, c.g.genInput(t, c.root, maxIn))
	}
	c.to = len(t.tape)
	return c
}

// wilden puts in what validation would refuse: undefined references, values
// beyond Unicode, min > max bounds.
func wilden(t *T, g *G) {
	for k := 1 + t.N(3); k > 0; k-- {
		r := g.Rules[t.N(len(g.Rules))]
		var e Rep
		switch t.N(4) {
		case 0:
			e = one(ref("undefined-rule"))
		case 1:
			e = one(&Elem{K: KNum, Base: 'x', Vals: []uint64{0x110000 + uint64(t.N(1<<30))}})
		case 2:
			e = one(&Elem{K: KNum, Base: 'x', Range: true, Vals: []uint64{uint64(t.N(0x60)), 0x110000 + uint64(t.N(1<<31))}})
		case 3:
			e = rep(3, 1+t.N(2), str("a"))
		}
		if t.Bool() {
			r.Alts = append(r.Alts, cat(e))
		} else {
			i := t.N(len(r.Alts))
			r.Alts[i] = append(r.Alts[i][:len(r.Alts[i]):len(r.Alts[i])], e)
		}
	}
}

func checkC04(t *T) {
	n := 1 + t.N(16)
	head := len(t.tape)
	var cs []*gpCase
	var srcs [][]byte
	for i := 0; i < n; i++ {
		desc := t.desc
		from := len(t.tape)
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.hint = append([]uint64{0}, t.tape[from:]...)
					panic(r)
				}
			}()
			cs = append(cs, genGP(t, 6, 24))
		}()
		t.desc = desc
		srcs = append(srcs, bytes.Replace(cs[i].src, []byte("package p\n"), []byte(fmt.Sprintf("package p%d\n", i)), 1))
	}
	_ = head
	focus := func(i int) {
		t.hint = append([]uint64{0}, t.tape[cs[i].from:cs[i].to]...)
		t.Say("grammar: %s | root %s", cs[i].g.Show(), cs[i].root)
	}
	bin, dir, bad, msg, err := gpBuild(srcs)
	if dir != "" {
		defer os.RemoveAll(dir)
	}
	if err != nil {
		panic(err)
	}
	if bad >= 0 {
		focus(bad)
		t.Failf("the generated parser does not compile: %s", headLines(msg, 6))
	}
	if bad == -2 {
		t.Failf("the generated parsers do not fit the driver: %s", headLines(msg, 6))
	}
	var qs []gpQuery
	type at struct{ i, k int }
	var ats []at
	for i, c := range cs {
		for k, in := range c.ins {
			qs = append(qs, gpQuery{P: i, In: in, Max: -1}, gpQuery{P: i, In: in, Max: 1 + (k*7)%20}, gpQuery{P: i, In: in, Max: 0})
			ats = append(ats, at{i, k}, at{i, k}, at{i, k})
		}
	}
	ans, crash, err := gpRun(bin, qs)
	if err != nil {
		panic(err)
	}
	if len(ans) < len(qs) {
		a := ats[len(ans)]
		focus(a.i)
		t.Say("input: %s", short(cs[a.i].ins[a.k]))
		t.Failf("the generated parser ended the process: %s", headLines(crash, 6))
	}
	for x := 0; x < len(qs); x += 3 {
		i, k := ats[x].i, ats[x].k
		c := cs[i]
		in := c.ins[k]
		t.Eval()
		var acc, cok bool
		var cnt *big.Int
		if c.sc != nil {
			acc, cnt, cok = c.sc.want, c.sc.trees, true
		} else {
			r := newRef(c.g, c.root, in)
			acc = r.Accepts()
			cnt, cok = r.Count(200000)
		}
		fail := func(f string, a ...any) {
			focus(i)
			t.Say("input: %s reference: %v trees: %.60v", short(in), acc, cnt)
			t.Failf(f, a...)
		}
		full := ans[x]
		for _, y := range []int{x, x + 1, x + 2} {
			a := ans[y]
			if a.Panic != "" {
				fail("the generated parser panics: %s", a.Panic)
			}
			if a.Err != "" {
				if !a.Big {
					fail("the generated parser fails: %s", a.Err)
				}
				if y != x+1 {
					fail("the generated parser reports too large an input without a small bound")
				}
				if full.Elems <= qs[y].Max {
					fail("a bound of %d elements refuses a parse of %d elements", qs[y].Max, full.Elems)
				}
				t.Label("bounded-out")
				continue
			}
			if y == x+1 && a.Elems > qs[y].Max {
				fail("%d elements under a bound of %d", a.Elems, qs[y].Max)
			}
			if a.Valid != acc {
				fail("generated Valid: got %v", a.Valid)
			}
			if !cok {
				continue
			}
			if a.Trees != cnt.String() {
				fail("generated NumTrees: got %s, want %v", a.Trees, cnt)
			}
			if amb := cnt.Sign() < 0 || cnt.Cmp(big.NewInt(1)) > 0; a.Amb != amb {
				fail("generated Ambiguous: got %v", a.Amb)
			}
			if cnt.Sign() == 0 {
				if a.Tree != nil {
					fail("a tree for a rejected input")
				}
				continue
			}
			if e := checkTree(c.g, c.root, in, a.Tree); e != "" {
				fail("the generated parser's tree is no derivation: %s", e)
			}
			if cnt.Cmp(big.NewInt(1)) == 0 {
				f, err := goabnf.ParseBSR(in, c.lg, c.root)
				if err != nil {
					fail("ParseBSR: %v", err)
				}
				if x, y := fromLibTree(f.Tree()).String(), a.Tree.String(); x != y {
					fail("the only tree differs: engine %s, generated %s", x, y)
				}
			}
		}
		if acc {
			t.Label("accepted")
			if c.sc != nil {
				t.Nontrivial(c.sc.key())
			} else if len(in) > 0 {
				t.Nontrivial(c.g.Text(), c.root, string(in))
				t.Sample("%s | %s on %s: %v trees", c.g.Show(), c.root, short(in), cnt)
			}
		} else {
			t.Label("rejected")
		}
	}
	if t.Pct(20) {
		var nf *goabnf.ErrRuleNotFound
		if _, err := goabnf.GenerateGoParser(cs[0].lg, "no-such-rule", "p"); !errors.As(err, &nf) {
			t.Failf("GenerateGoParser for an undefined root: %v", err)
		}
	}
}
