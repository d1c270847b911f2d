package main

import (
	"fmt"
	"math/big"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
)

// Large cases: inputs of up to 70000 bytes and grammars of hundreds of rules, of
// shapes whose verdict, number of trees and furthest position are known by
// construction. The shapes are those the engines handle in linear time.

type scaleCase struct {
	g      *G
	direct bool
	in     []byte
	want   bool
	trees  *big.Int
	far    int  // furthest position of a rejected input
	noVal  bool // IsValid is slow on it
	forest bool // the forest engines are fast on it
}

func scale(t *T, maxN int) *scaleCase {
	c := &scaleCase{g: &G{}, want: true, trees: big.NewInt(1), forest: true}
	n := 1 + t.N(30)
	switch t.W(30, 30, 25, 15) {
	case 1:
		n = 250 + t.N(20)
	case 2:
		n = 300 + t.N(2000)
	case 3:
		n = 65530 + t.N(2000)
	}
	n = min(n, maxN)
	b := strings.Builder{}
	a := ref("a")
	leaf := []*Elem{str("x"), rng('w', 'z'), strS("x"), ser('x'), ref("b")}[t.N(5)]
	rules := func(r ...*Rule) {
		c.g.Rules = append(r, &Rule{"b", []Cat{cat1(ser('x')), cat1(str("q"))}})
	}
	bad := -1 // position to spoil
	spoil := t.Pct(40)
	switch t.N(7) {
	case 0: // left-recursive list
		rules(&Rule{"a", []Cat{cat1(a, leaf), cat1(leaf)}})
		b.WriteString(strings.Repeat("x", n))
		c.noVal = n > 300
	case 1: // left-recursive list with separators
		rules(&Rule{"a", []Cat{cat1(leaf), cat1(a, strS(","), leaf)}})
		b.WriteString(strings.Repeat("x,", n/2) + "x")
		c.noVal = n > 300
	case 2: // every item in two ways
		n = min(n, 2000)
		rules(&Rule{"a", []Cat{cat1(a, grp(cat1(leaf), cat1(leaf))), cat1(leaf)}})
		b.WriteString(strings.Repeat("x", n))
		c.trees.Lsh(c.trees, uint(n-1))
		c.noVal = n > 300
	case 3: // nesting
		n = min(n, 15000)
		rules(&Rule{"a", []Cat{cat1(strS("("), a, strS(")")), cat1(leaf)}})
		b.WriteString(strings.Repeat("(", n) + "x" + strings.Repeat(")", n))
		c.noVal = n > 1000
	case 4: // one rule among many
		m := min(n, 2000)
		k := t.N(m)
		top := &Rule{Name: "a"}
		c.g.Rules = []*Rule{top}
		for i := 0; i < m; i++ {
			top.Alts = append(top.Alts, cat1(ref(fmt.Sprintf("r%d", i))))
			c.g.Rules = append(c.g.Rules, &Rule{fmt.Sprintf("r%d", i), []Cat{cat1(ser(uint64(0x4E00 + i)))}})
		}
		c.direct = m > 40
		b.WriteString(string(rune(0x4E00 + k)))
	case 5: // many rules one after the other
		m := min(n, 600)
		var cc Cat
		c.g.Rules = []*Rule{{"a", nil}}
		for i := 0; i < m; i++ {
			e := ref(fmt.Sprintf("r%d", i))
			if t.Pct(10) {
				e = grp(cat1(e))
			}
			cc = append(cc, one(e))
			c.g.Rules = append(c.g.Rules, &Rule{fmt.Sprintf("r%d", i), []Cat{cat1(ser(uint64(0x4E00 + i)))}})
			b.WriteString(string(rune(0x4E00 + i)))
		}
		c.g.Rules[0].Alts = []Cat{cc}
		c.direct = m > 40
	case 6: // a plain repetition, for the recogniser only
		rules(&Rule{"a", []Cat{cat(rep(0, Inf, leaf))}})
		b.WriteString(strings.Repeat("x", n))
		c.forest = n <= 200
	}
	c.in = []byte(b.String())
	if spoil {
		bad = len(c.in) - 1
		if t.Bool() {
			bad = t.N(len(c.in))
		}
		c.want, c.trees = false, big.NewInt(0)
		for bad > 0 && c.in[bad]&0xC0 == 0x80 {
			bad--
		}
		if t.Bool() && len(c.in) > 1 && bad > 0 && len(c.g.Rules) == 2 && (c.g.Rules[0].Alts[0][0].E.K != KRef || c.in[0] == '(') && c.in[0] == '(' {
			c.in = c.in[:bad] // unfinished
		} else {
			c.in[bad] = '!'
		}
		c.far = bad
	}
	t.Say("grammar: %.300s", c.g.Show())
	t.Say("rule: a, input of %d bytes: %s", len(c.in), short(c.in))
	if spoil {
		t.Say("spoilt at %d", bad)
	}
	if len(c.in) <= 24 && len(c.g.Rules) < 40 {
		r := newRef(c.g, "a", c.in)
		if n, ok := r.Count(100000); r.Accepts() != c.want || ok && n.Cmp(c.trees) != 0 {
			panic(fmt.Sprintf("scale: the reference says %v, %v", r.Accepts(), n))
		}
		if !c.want {
			if p, _ := r.frontier(); p != c.far {
				panic(fmt.Sprintf("scale: the reference says furthest %d, not %d", p, c.far))
			}
		}
	}
	t.Label("large")
	if len(c.in) > 65536 {
		t.Label("over-65536-bytes")
	}
	return c
}

func (c *scaleCase) lib(t *T) *goabnf.Grammar {
	if c.direct {
		return c.g.build()
	}
	return c.g.parse(t)
}

func (c *scaleCase) key() (string, string, string) {
	return c.g.Rules[0].Name + altsText(c.g.Rules[0].Alts[:1]), "a", fmt.Sprint(len(c.in), c.want, c.far)
}

// both runs the two forest engines.
func (c *scaleCase) both(t *T) (*goabnf.Forest, *goabnf.BSRForest) {
	lg := c.lib(t)
	f, err := goabnf.ParseForest(c.in, lg, "a")
	if err != nil {
		t.Failf("ParseForest: %v", err)
	}
	b, err := goabnf.ParseBSR(c.in, lg, "a")
	if err != nil {
		t.Failf("ParseBSR: %v", err)
	}
	return f, b
}

func scaleVerdict(t *T) {
	c := scale(t, 70000)
	t.Eval()
	if !c.noVal {
		if got, err := c.lib(t).IsValid("a", c.in); err != nil || got != c.want {
			t.Failf("IsValid: %v, %v, want %v", got, err, c.want)
		}
	}
	if c.forest {
		f, b := c.both(t)
		if f.Valid() != c.want || b.Valid() != c.want {
			t.Failf("Valid: ParseForest %v, ParseBSR %v, want %v", f.Valid(), b.Valid(), c.want)
		}
	}
	if c.want {
		t.Nontrivial(c.key())
	}
}

func scaleCount(t *T) {
	c := scale(t, 70000)
	t.Eval()
	if !c.forest {
		return
	}
	f, b := c.both(t)
	if x, y := f.NumTrees(), b.NumTrees(); x.Cmp(c.trees) != 0 || y.Cmp(c.trees) != 0 {
		t.Failf("NumTrees: ParseForest %.40v, ParseBSR %.40v, want %.40v", x, y, c.trees)
	}
	amb := c.trees.Cmp(big.NewInt(1)) > 0
	if f.Ambiguous() != amb || b.Ambiguous() != amb {
		t.Failf("Ambiguous: ParseForest %v, ParseBSR %v, want %v", f.Ambiguous(), b.Ambiguous(), amb)
	}
	if amb {
		t.Nontrivial(c.key())
	}
}

func scaleTree(t *T) {
	c := scale(t, 70000)
	t.Eval()
	if !c.forest {
		return
	}
	f, b := c.both(t)
	ft, bt := f.Tree(), b.Tree()
	if !c.want {
		if ft != nil || bt != nil {
			t.Failf("a tree for a rejected input: forest %v, bsr %v", ft != nil, bt != nil)
		}
		return
	}
	if e := checkTree(c.g, "a", c.in, fromLibTree(ft)); e != "" {
		t.Failf("Forest.Tree is no derivation: %.300s", e)
	}
	if e := checkTree(c.g, "a", c.in, fromLibTree(bt)); e != "" {
		t.Failf("BSRForest.Tree is no derivation: %.300s", e)
	}
	t.Nontrivial(c.key())
}

func scaleError(t *T) {
	c := scale(t, 70000)
	t.Eval()
	if !c.forest {
		return
	}
	f, _ := c.both(t)
	pe := f.ParseError()
	if c.want {
		if pe != nil {
			t.Failf("an accepted input has a ParseError: %v", pe)
		}
		return
	}
	if pe == nil {
		t.Failf("a rejected input has no ParseError")
	}
	if pe.Offset != c.far || pe.Line != 1 {
		t.Failf("ParseError at offset %d, line %d, want offset %d, line 1", pe.Offset, pe.Line, c.far)
	}
	t.Nontrivial(c.key())
}
