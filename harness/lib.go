package main

import (
	"fmt"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
)

// Bridges between the model and the library's public values.

// libInf is the library's representation of "no upper bound".
var libInf = func() int {
	g, err := goabnf.ParseABNF([]byte("a = *\"x\"\r\n"))
	if err != nil {
		return -1
	}
	return g.Rulemap["a"].Alternation.Concatenations[0].Repetitions[0].Max
}()

// parse hands the grammar's canonical text to the library; a rejection of a
// well-formed, well-defined grammar is a failure of the case.
func (g *G) parse(t *T, opts ...goabnf.ABNFOption) *goabnf.Grammar {
	if g.Beyond {
		opts = append(opts[:len(opts):len(opts)], goabnf.WithValidation(false))
	}
	lg, err := goabnf.ParseABNF([]byte(g.Text()), opts...)
	if err != nil {
		t.Failf("grammar rejected: %v", err)
	}
	return lg
}

// build makes the library's grammar value directly, through its public types.
func (g *G) build() *goabnf.Grammar {
	mp := map[string]*goabnf.Rule{}
	for _, r := range g.Rules {
		mp[r.Name] = &goabnf.Rule{Name: r.Name, Alternation: buildAlts(r.Alts)}
	}
	return &goabnf.Grammar{Rulemap: mp}
}

func buildAlts(a []Cat) goabnf.Alternation {
	var out goabnf.Alternation
	for _, c := range a {
		var lc goabnf.Concatenation
		for _, r := range c {
			mx := r.Max
			if mx == Inf {
				mx = libInf
			}
			lc.Repetitions = append(lc.Repetitions, goabnf.Repetition{Min: r.Min, Max: mx, Element: buildElem(r.E)})
		}
		out.Concatenations = append(out.Concatenations, lc)
	}
	return out
}

func buildElem(e *Elem) goabnf.ElemItf {
	switch e.K {
	case KRef:
		return goabnf.ElemRulename{Name: e.Name}
	case KGroup:
		return goabnf.ElemGroup{Alternation: buildAlts(e.Alts)}
	case KOpt:
		return goabnf.ElemOption{Alternation: buildAlts(e.Alts)}
	case KStr:
		return goabnf.ElemCharVal{Sensitive: e.Sens, Values: append([]rune{}, e.Runes...)}
	case KNum:
		st := goabnf.StatSeries
		if e.Range {
			st = goabnf.StatRange
		}
		var el []string
		for i, v := range e.Vals {
			d := digits(v, e.Base)
			if e.Huge != nil && e.Huge[i] != "" {
				d = e.Huge[i]
			}
			el = append(el, d)
		}
		return goabnf.ElemNumVal{Base: string(e.Base), Status: st, Elems: el}
	}
	panic("prose-val has no public constructor")
}

// fromLib reads a library grammar through its public fields.
func fromLib(lg *goabnf.Grammar) (*G, error) {
	g := &G{}
	for k, r := range lg.Rulemap {
		if r == nil {
			return nil, fmt.Errorf("nil rule under %q", k)
		}
		if r.Name != k {
			return nil, fmt.Errorf("rule %q stored under %q", r.Name, k)
		}
		a, err := altsFromLib(r.Alternation)
		if err != nil {
			return nil, err
		}
		g.Rules = append(g.Rules, &Rule{Name: r.Name, Alts: a})
	}
	return g, nil
}

func altsFromLib(a goabnf.Alternation) ([]Cat, error) {
	var out []Cat
	for _, c := range a.Concatenations {
		mc := Cat{}
		for _, r := range c.Repetitions {
			e, err := elemFromLib(r.Element)
			if err != nil {
				return nil, err
			}
			mx := r.Max
			if mx == libInf {
				mx = Inf
			}
			mc = append(mc, Rep{r.Min, mx, e})
		}
		out = append(out, mc)
	}
	return out, nil
}

func elemFromLib(e goabnf.ElemItf) (*Elem, error) {
	switch v := e.(type) {
	case goabnf.ElemRulename:
		return ref(v.Name), nil
	case goabnf.ElemGroup:
		a, err := altsFromLib(v.Alternation)
		return &Elem{K: KGroup, Alts: a}, err
	case goabnf.ElemOption:
		a, err := altsFromLib(v.Alternation)
		return &Elem{K: KOpt, Alts: a}, err
	case goabnf.ElemCharVal:
		return &Elem{K: KStr, Sens: v.Sensitive, Runes: v.Values}, nil
	case goabnf.ElemNumVal:
		if v.Base == "" {
			return nil, fmt.Errorf("num-val without base")
		}
		m := &Elem{K: KNum, Base: strings.ToLower(v.Base)[0], Range: v.Status == goabnf.StatRange}
		for _, s := range v.Elems {
			d, huge, err := parseDigits(s, m.Base)
			if err != nil {
				return nil, err
			}
			m.Vals = append(m.Vals, d)
			if huge {
				if m.Huge == nil {
					m.Huge = make([]string, len(v.Elems))
				}
				m.Huge[len(m.Vals)-1] = strings.TrimLeft(s, "0")
			}
		}
		return m, nil
	case goabnf.ElemProseVal:
		s := v.String()
		if len(s) < 2 || s[0] != '<' || s[len(s)-1] != '>' {
			return nil, fmt.Errorf("prose-val prints as %q", s)
		}
		return prose(s[1 : len(s)-1]), nil
	}
	return nil, fmt.Errorf("unknown element type %T", e)
}

// parseDigits reads a number; huge reports that it does not fit (value saturated).
func parseDigits(s string, base byte) (v uint64, huge bool, err error) {
	b := map[byte]uint64{'b': 2, 'd': 10, 'x': 16}[base]
	if s == "" {
		return 0, false, fmt.Errorf("empty number")
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		var d uint64
		switch {
		case c >= '0' && c <= '9':
			d = uint64(c - '0')
		case c >= 'a' && c <= 'f':
			d = uint64(c-'a') + 10
		case c >= 'A' && c <= 'F':
			d = uint64(c-'A') + 10
		default:
			return 0, false, fmt.Errorf("bad digit %q", c)
		}
		if d >= b {
			return 0, false, fmt.Errorf("bad digit %q for base %c", c, base)
		}
		if huge || v > (1<<62)/b {
			huge = true
			v = 1 << 63
			continue
		}
		v = v*b + d
	}
	return v, huge, nil
}

// --- structural comparison ---------------------------------------------------

func sameGrammar(a, b *G) string {
	if len(a.Rules) != len(b.Rules) {
		return fmt.Sprintf("%d rules vs %d", len(a.Rules), len(b.Rules))
	}
	for _, r := range a.Rules {
		q := b.find(r.Name)
		if q == nil {
			return fmt.Sprintf("rule %q missing", r.Name)
		}
		if d := sameAlts(r.Alts, q.Alts); d != "" {
			return fmt.Sprintf("rule %s: %s (%s vs %s)", r.Name, d, altsText(r.Alts), altsText(q.Alts))
		}
	}
	return ""
}

func sameAlts(a, b []Cat) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d alternatives vs %d", len(a), len(b))
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return fmt.Sprintf("alternative %d: %d items vs %d", i, len(a[i]), len(b[i]))
		}
		for j := range a[i] {
			x, y := a[i][j], b[i][j]
			if x.Min != y.Min || x.Max != y.Max {
				return fmt.Sprintf("bounds %d,%d vs %d,%d", x.Min, x.Max, y.Min, y.Max)
			}
			if d := sameElem(x.E, y.E); d != "" {
				return d
			}
		}
	}
	return ""
}

func sameElem(x, y *Elem) string {
	if x.K != y.K {
		return fmt.Sprintf("element kind %d vs %d", x.K, y.K)
	}
	switch x.K {
	case KRef:
		if !strings.EqualFold(x.Name, y.Name) {
			return fmt.Sprintf("reference %q vs %q", x.Name, y.Name)
		}
	case KStr:
		if string(x.Runes) != string(y.Runes) || x.Sens != y.Sens {
			return fmt.Sprintf("string %q sensitive=%v vs %q sensitive=%v", string(x.Runes), x.Sens, string(y.Runes), y.Sens)
		}
	case KNum:
		if x.Range != y.Range || len(x.Vals) != len(y.Vals) {
			return "num-val shape"
		}
		for i := range x.Vals {
			if x.Vals[i] != y.Vals[i] {
				return fmt.Sprintf("num-val value %d vs %d", x.Vals[i], y.Vals[i])
			}
			if x.Huge != nil && y.Huge != nil && x.Base == y.Base && !strings.EqualFold(x.Huge[i], y.Huge[i]) {
				return "num-val literal"
			}
		}
	case KProse:
		if x.Prose != y.Prose {
			return fmt.Sprintf("prose %q vs %q", x.Prose, y.Prose)
		}
	case KGroup, KOpt:
		return sameAlts(x.Alts, y.Alts)
	}
	return ""
}
