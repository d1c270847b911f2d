package main

// A neighbour of a grammar differs from it by one small edit (a bound moved by
// one, an element dropped, doubled or swapped with the next, a range widened, a
// string's case-sensitivity flipped ...). Words of a neighbour are the inputs on
// which a small slip in how an element is handled shows; the oracle for them
// remains the reference for the grammar itself.

func copyAlts(a []Cat) []Cat {
	out := make([]Cat, len(a))
	for i, c := range a {
		out[i] = make(Cat, len(c))
		for j, r := range c {
			e := *r.E
			e.Alts = copyAlts(r.E.Alts)
			e.Runes = append([]rune(nil), r.E.Runes...)
			e.Vals = append([]uint64(nil), r.E.Vals...)
			r.E = &e
			out[i][j] = r
		}
	}
	return out
}

// neighbour returns a copy of the part of g reachable from root with one edit.
func (g *G) neighbour(t *T, root string) *G {
	rules, _ := g.reach(root)
	n := &G{}
	for _, r := range rules {
		n.Rules = append(n.Rules, &Rule{r.Name, copyAlts(r.Alts)})
	}
	type place struct {
		in []Cat
		i  int // concatenation
	}
	var places []place
	var collect func(a []Cat)
	collect = func(a []Cat) {
		for i, c := range a {
			if len(c) > 0 {
				places = append(places, place{a, i})
			}
			for _, r := range c {
				collect(r.E.Alts)
			}
		}
	}
	for _, r := range n.Rules {
		collect(r.Alts)
	}
	if len(places) == 0 {
		return n
	}
	if bad := n.badVals(); len(bad) > 0 && t.Pct(40) {
		// values that are no characters, taken for what encoders put in their place
		for _, v := range bad {
			*v = 0xFFFD
		}
		return n
	}
	p := places[t.N(len(places))]
	c := p.in[p.i]
	j := t.N(len(c))
	r := c[j]
	cut := func() { p.in[p.i] = append(append(Cat(nil), c[:j]...), c[j+1:]...) }
	switch t.N(8) {
	case 0: // one more
		if r.Max != Inf {
			r.Max++
			r.Min = max(r.Min, r.Max) // use it
			c[j] = r
		} else {
			cut()
		}
	case 1: // one fewer
		if r.Min > 0 {
			r.Min--
			r.Max = r.Min
			c[j] = r
		} else {
			r.Min, r.Max = 1, Inf
			c[j] = r
		}
	case 2:
		cut()
	case 3: // doubled
		p.in[p.i] = append(append(append(Cat(nil), c[:j+1]...), r), c[j+1:]...)
	case 4: // swapped
		if j+1 < len(c) {
			c[j], c[j+1] = c[j+1], c[j]
		} else {
			c[0], c[j] = c[j], c[0]
		}
	case 5: // another concatenation's elements after or instead of these
		o := places[t.N(len(places))]
		x := copyAlts(o.in[o.i : o.i+1])[0]
		if t.Bool() {
			p.in[p.i] = append(append(Cat(nil), c...), x...)
		} else {
			p.in[p.i] = x
		}
	default: // the element itself
		e := r.E
		switch e.K {
		case KStr:
			switch {
			case e.Sens && t.Bool():
				e.Sens = false
			case len(e.Runes) > 0:
				k := t.N(len(e.Runes))
				switch t.N(4) {
				case 0:
					e.Runes[k]++
				case 1:
					e.Runes[k] ^= 0x20
					e.Sens = true
				case 2:
					e.Runes = append(e.Runes[:k], e.Runes[k+1:]...)
				case 3:
					e.Runes = append(e.Runes, e.Runes[k])
				}
			default:
				e.Runes = []rune{'a'}
			}
		case KNum:
			k := t.N(len(e.Vals))
			if e.Range && t.Bool() {
				if k == 0 {
					e.Vals[1] = e.Vals[0]
				} else {
					e.Vals[0] = e.Vals[1]
				}
			}
			if t.Bool() {
				e.Vals[k]++
			} else if e.Vals[k] > 0 {
				e.Vals[k]--
			}
			if e.Range && e.Vals[0] > e.Vals[1] {
				e.Vals[0], e.Vals[1] = e.Vals[1], e.Vals[0]
			}
		case KOpt:
			e.K = KGroup
		case KGroup:
			e.K = KOpt
		case KRef:
			x := n.Rules[t.N(len(n.Rules))]
			e.Name = x.Name
		}
	}
	return n
}

// badVals are the values of num-vals that are no characters.
func (g *G) badVals() (out []*uint64) {
	for _, r := range g.Rules {
		walkAlts(r.Alts, func(e *Elem, _ Rep) {
			for i := range e.Vals {
				if !scalar(e.Vals[i]) {
					out = append(out, &e.Vals[i])
				}
			}
		})
	}
	return
}

// metaWord draws a text from a neighbour of the grammar of ABNF, preferably one
// that is not ABNF any more.
func metaWord(t *T) []byte {
	roots := []string{"rulelist", "rule", "elements", "alternation", "concatenation", "repetition", "element", "char-val", "num-val", "group", "option", "prose-val", "comment", "defined-as", "c-wsp"}
	root := roots[t.N(len(roots))]
	pre, post := "", ""
	switch root {
	case "rulelist", "rule":
	case "comment":
		pre = "a = b "
		if t.Bool() {
			pre = "a = b\r\n"
		}
	case "c-wsp":
		pre, post = "a = b", "c\r\n"
	case "defined-as":
		pre, post = "a", "b\r\n"
	default:
		pre, post = "a = ", "\r\n"
		if t.Pct(20) {
			pre, post = "a = b ", " c\r\n"
		}
	}
	n := metaG.neighbour(t, root)
	var src []byte
	for k := 0; k < 4; k++ {
		w, ok := n.derive(t, root, 6+t.N(30))
		if !ok {
			break
		}
		src = []byte(pre + string(w) + post)
		if _, legal := readABNF(src); !legal {
			break
		}
	}
	if src == nil {
		src = []byte(pre + post)
	}
	return src
}
