package main

import (
	"math"
	"strings"
)

// ---------------------------------------------------------------------------
// An independent reader of ABNF text (RFC 5234 section 4 with erratum 3076's
// `elements = alternation *WSP`, and RFC 7405), written by hand as a
// deterministic recursive descent: each choice is decided by the next
// characters, white space is taken greedily and given back when what follows
// does not fit.
// ---------------------------------------------------------------------------

type Def struct {
	Name string
	Inc  bool
	Alts []Cat
}

type synErr struct{}

type synP struct {
	s string
	i int
}

// readABNF returns the definitions of a rulelist, in order; ok=false: not ABNF.
func readABNF(src []byte) (defs []Def, ok bool) {
	p := &synP{s: string(src)}
	defer func() {
		switch v := recover().(type) {
		case nil:
		case synErr:
			defs, ok = nil, false
		default:
			panic(v)
		}
	}()
	if p.s == "" {
		return nil, false
	}
	for p.i < len(p.s) {
		if isAlpha(p.peek()) {
			defs = append(defs, p.rule())
			continue
		}
		for p.wsp() {
		}
		if !p.cnl() {
			return nil, false
		}
	}
	return defs, true
}

func isAlpha(c int) bool { return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' }
func isDigit(c int) bool { return c >= '0' && c <= '9' }
func isHex(c int) bool   { return isDigit(c) || c >= 'A' && c <= 'F' || c >= 'a' && c <= 'f' }

func (p *synP) peek() int {
	if p.i >= len(p.s) {
		return -1
	}
	return int(p.s[p.i])
}
func (p *synP) fail() { panic(synErr{}) }
func (p *synP) eat(c byte) bool {
	if p.peek() == int(c) {
		p.i++
		return true
	}
	return false
}
func (p *synP) need(c byte) {
	if !p.eat(c) {
		p.fail()
	}
}
func (p *synP) wsp() bool { return p.eat(' ') || p.eat('\t') }

func (p *synP) crlf() bool {
	if strings.HasPrefix(p.s[p.i:], "\r\n") {
		p.i += 2
		return true
	}
	return false
}

// cnl: comment / CRLF; nothing is consumed when neither fits.
func (p *synP) cnl() bool {
	at := p.i
	if p.eat(';') {
		for c := p.peek(); c == '\t' || c >= 0x20 && c <= 0x7E; c = p.peek() {
			p.i++
		}
	}
	if p.crlf() {
		return true
	}
	p.i = at
	return false
}

// cwsps takes every c-wsp there is and returns how many.
func (p *synP) cwsps() int {
	for n := 0; ; n++ {
		if p.wsp() {
			continue
		}
		at := p.i
		if p.cnl() && p.wsp() {
			continue
		}
		p.i = at
		return n
	}
}

func (p *synP) rulename() string {
	at := p.i
	if !isAlpha(p.peek()) {
		p.fail()
	}
	for c := p.peek(); isAlpha(c) || isDigit(c) || c == '-'; c = p.peek() {
		p.i++
	}
	return p.s[at:p.i]
}

func (p *synP) rule() Def {
	d := Def{Name: p.rulename()}
	p.cwsps()
	p.need('=')
	d.Inc = p.eat('/')
	p.cwsps()
	d.Alts = p.alternation()
	for p.wsp() {
	}
	if !p.cnl() {
		p.fail()
	}
	return d
}

func (p *synP) alternation() []Cat {
	out := []Cat{p.concatenation()}
	for {
		at := p.i
		p.cwsps()
		if !p.eat('/') {
			p.i = at
			return out
		}
		p.cwsps()
		out = append(out, p.concatenation())
	}
}

func (p *synP) startsRepetition() bool {
	c := p.peek()
	return isAlpha(c) || isDigit(c) || c >= 0 && strings.ContainsRune(`*(["%<`, rune(c))
}

func (p *synP) concatenation() Cat {
	out := Cat{p.repetition()}
	for {
		at := p.i
		if p.cwsps() == 0 || !p.startsRepetition() {
			p.i = at
			return out
		}
		out = append(out, p.repetition())
	}
}

func (p *synP) digits(ok func(int) bool) string {
	at := p.i
	for ok(p.peek()) {
		p.i++
	}
	return p.s[at:p.i]
}

// satInt reads a decimal count, saturating at the largest int.
func satInt(s string) int {
	v := 0
	for _, c := range s {
		d := int(c - '0')
		if v > (math.MaxInt-d)/10 {
			return math.MaxInt
		}
		v = v*10 + d
	}
	return v
}

func (p *synP) repetition() Rep {
	r := Rep{1, 1, nil}
	d := p.digits(isDigit)
	if p.eat('*') {
		r.Min, r.Max = 0, Inf
		if d != "" {
			r.Min = satInt(d)
		}
		if e := p.digits(isDigit); e != "" {
			r.Max = satInt(e)
		}
	} else if d != "" {
		r.Min = satInt(d)
		r.Max = r.Min
	}
	r.E = p.element()
	return r
}

func (p *synP) quoted(sens bool) *Elem {
	p.need('"')
	at := p.i
	for c := p.peek(); c >= 0x20 && c <= 0x7E && c != '"'; c = p.peek() {
		p.i++
	}
	e := &Elem{K: KStr, Runes: []rune(p.s[at:p.i]), Sens: sens}
	p.need('"')
	return e
}

func (p *synP) element() *Elem {
	c := p.peek()
	switch {
	case isAlpha(c):
		return ref(p.rulename())
	case c == '(' || c == '[':
		p.i++
		p.cwsps()
		a := p.alternation()
		p.cwsps()
		if c == '(' {
			p.need(')')
			return &Elem{K: KGroup, Alts: a}
		}
		p.need(']')
		return &Elem{K: KOpt, Alts: a}
	case c == '"':
		return p.quoted(false)
	case c == '<':
		p.i++
		at := p.i
		for c := p.peek(); c >= 0x20 && c <= 0x7E && c != '>'; c = p.peek() {
			p.i++
		}
		e := prose(p.s[at:p.i])
		p.need('>')
		return e
	case c == '%':
		p.i++
		k := p.peek()
		if k >= 'A' && k <= 'Z' {
			k += 32
		}
		p.i++
		switch k {
		case 'i':
			return p.quoted(false)
		case 's':
			return p.quoted(true)
		case 'b', 'd', 'x':
			return p.numval(byte(k))
		}
	}
	p.fail()
	return nil
}

func (p *synP) numval(base byte) *Elem {
	ok := isHex
	switch base {
	case 'b':
		ok = func(c int) bool { return c == '0' || c == '1' }
	case 'd':
		ok = isDigit
	}
	e := &Elem{K: KNum, Base: base}
	take := func() {
		s := p.digits(ok)
		if s == "" {
			p.fail()
		}
		v, huge, err := parseDigits(s, base)
		if err != nil {
			p.fail()
		}
		e.Vals = append(e.Vals, v)
		if huge {
			s = strings.TrimLeft(s, "0")
		} else {
			s = ""
		}
		e.Huge = append(e.Huge, s)
	}
	take()
	switch {
	case p.eat('-'):
		e.Range = true
		take()
	default:
		for p.eat('.') {
			take()
		}
	}
	any := false
	for _, h := range e.Huge {
		any = any || h != ""
	}
	if !any {
		e.Huge = nil
	}
	return e
}

// ---------------------------------------------------------------------------
// Definition discipline
// ---------------------------------------------------------------------------

// refErr names a refusal: "duplicate", "core", "unknown" (incremental
// definition of an undefined rule), "dependency", "repetition", "numeral".
type refErr struct{ Kind, Name string }

// evalDefs folds definitions into a grammar, or returns the first refusal.
func evalDefs(defs []Def, redefineCore bool) (*G, *refErr) {
	g := &G{}
	for _, d := range defs {
		core := coreByName[strings.ToUpper(d.Name)]
		if core != nil && !redefineCore {
			return nil, &refErr{"core", d.Name}
		}
		have := g.find(d.Name)
		if !d.Inc {
			if have != nil {
				return nil, &refErr{"duplicate", d.Name}
			}
			g.Rules = append(g.Rules, &Rule{Name: d.Name, Alts: d.Alts})
			continue
		}
		if have == nil && core != nil {
			have = &Rule{Name: d.Name, Alts: append([]Cat(nil), core.Alts...)}
			g.Rules = append(g.Rules, have)
		}
		if have == nil {
			return nil, &refErr{"unknown", d.Name}
		}
		have.Alts = append(have.Alts[:len(have.Alts):len(have.Alts)], d.Alts...)
	}
	return g, nil
}

// flaws lists everything semantic validation has to refuse.
func flaws(g *G) (out []refErr) {
	for _, r := range g.Rules {
		walkAlts(r.Alts, func(e *Elem, rp Rep) {
			if rp.Max != Inf && rp.Min > rp.Max {
				out = append(out, refErr{"repetition", repText(rp)})
			}
			switch e.K {
			case KRef:
				if g.lookup(e.Name) == nil {
					out = append(out, refErr{"dependency", e.Name})
				}
			case KNum:
				for i, v := range e.Vals {
					if v > 0x10FFFF || (e.Huge != nil && e.Huge[i] != "") {
						out = append(out, refErr{"numeral", digits(v, e.Base)})
					}
				}
			}
		})
	}
	return
}

// ---------------------------------------------------------------------------
// Styled rendering: the same grammar in one of the many spellings RFC 5234
// allows.
// ---------------------------------------------------------------------------

type styler struct {
	t    *T
	b    strings.Builder
	wild int // percent of fancy choices
}

var commentTexts = []string{"", " a comment", " =/ \"x\" / b", ";;", " %x41 <prose> (", "\ttab", " a = b", " \"unclosed"}

func (s *styler) comment() { s.b.WriteString(";" + commentTexts[s.t.N(len(commentTexts))] + "\r\n") }

// cwsp writes n or more c-wsp; in simple style one space when need.
func (s *styler) cwsp(need bool) {
	if !s.t.Pct(s.wild) {
		if need {
			s.b.WriteString(" ")
		}
		return
	}
	n := s.t.N(4)
	if need && n == 0 {
		n = 1
	}
	for ; n > 0; n-- {
		switch s.t.W(50, 15, 20, 15) {
		case 0:
			s.b.WriteString(" ")
		case 1:
			s.b.WriteString("\t")
		case 2:
			s.b.WriteString("\r\n" + []string{" ", "\t"}[s.t.N(2)])
		case 3:
			s.comment()
			s.b.WriteString([]string{" ", "\t"}[s.t.N(2)])
		}
	}
}

func (s *styler) blank() {
	for s.t.Pct(s.wild) {
		for k := s.t.N(3); k > 0; k-- {
			s.b.WriteString([]string{" ", "\t"}[s.t.N(2)])
		}
		if s.t.Bool() {
			s.comment()
		} else {
			s.b.WriteString("\r\n")
		}
	}
}

// styled renders g; rules may be split into incremental definitions.
func styled(t *T, g *G, wild int) []byte {
	s := &styler{t: t, wild: wild}
	s.blank()
	type part struct {
		name string
		inc  bool
		alts []Cat
	}
	var later []part
	def := func(p part) {
		s.b.WriteString(p.name)
		s.cwsp(s.t.Pct(80))
		s.b.WriteString("=")
		if p.inc {
			s.b.WriteString("/")
		}
		s.cwsp(s.t.Pct(80))
		s.alts(p.alts)
		for s.t.Pct(s.wild / 2) {
			s.b.WriteString([]string{" ", "\t"}[s.t.N(2)])
		}
		if s.t.Pct(s.wild / 3) {
			s.comment()
		} else {
			s.b.WriteString("\r\n")
		}
		s.blank()
	}
	for _, r := range g.Rules {
		a := r.Alts
		if len(a) > 1 && t.Pct(wild/2) {
			k := 1 + t.N(len(a)-1)
			def(part{r.Name, false, a[:k]})
			p := part{casing(t, r.Name), true, a[k:]}
			if t.Bool() {
				def(p)
			} else {
				later = append(later, p)
			}
			continue
		}
		def(part{r.Name, false, a})
	}
	for _, p := range later {
		def(p)
	}
	return []byte(s.b.String())
}

func (s *styler) alts(a []Cat) {
	for i, c := range a {
		if i > 0 {
			s.cwsp(s.t.Pct(80))
			s.b.WriteString("/")
			s.cwsp(s.t.Pct(80))
		}
		for j, r := range c {
			if j > 0 {
				s.cwsp(true)
			}
			s.b.WriteString(s.repeat(r))
			s.elem(r.E)
		}
	}
}

func (s *styler) zeros() string {
	if s.t.Pct(s.wild / 3) {
		return strings.Repeat("0", 1+s.t.N(3))
	}
	return ""
}

func (s *styler) repeat(r Rep) string {
	z := func(v int) string {
		d := digits(uint64(v), 'd')
		if v == math.MaxInt && s.t.Pct(60) { // what no machine word holds
			d = []string{"9223372036854775808", "18446744073709551617", "99999999999999999999", "1000000000000000000000000000000000000001"}[s.t.N(4)]
		}
		return s.zeros() + d
	}
	if r.Min == r.Max {
		switch {
		case r.Min == 1 && !s.t.Pct(s.wild/4):
			return ""
		case r.Min == 0 && s.t.Pct(s.wild/2):
			return "*" + z(0)
		case s.t.Pct(s.wild / 2):
			return z(r.Min) + "*" + z(r.Max)
		}
		return z(r.Min)
	}
	out := ""
	if r.Min != 0 || s.t.Pct(s.wild/2) {
		out = z(r.Min)
	}
	out += "*"
	if r.Max != Inf {
		out += z(r.Max)
	}
	return out
}

func (s *styler) anyCase(x string) string {
	b := []byte(x)
	for i, c := range b {
		if isAlpha(int(c)) && s.t.Pct(s.wild/2) {
			b[i] = c ^ 0x20
		}
	}
	return string(b)
}

func (s *styler) elem(e *Elem) {
	switch e.K {
	case KRef:
		s.b.WriteString(e.Name)
	case KGroup, KOpt:
		o := "()"
		if e.K == KOpt {
			o = "[]"
		}
		s.b.WriteString(o[:1])
		s.cwsp(s.t.Pct(s.wild))
		s.alts(e.Alts)
		s.cwsp(s.t.Pct(s.wild))
		s.b.WriteString(o[1:])
	case KStr:
		p := ""
		if e.Sens {
			p = s.anyCase("%s")
		} else if s.t.Pct(s.wild / 3) {
			p = s.anyCase("%i")
		}
		s.b.WriteString(p + `"` + string(e.Runes) + `"`)
	case KNum:
		sep := "."
		if e.Range {
			sep = "-"
		}
		s.b.WriteString(s.anyCase("%" + string(e.Base)))
		for i, v := range e.Vals {
			if i > 0 {
				s.b.WriteString(sep)
			}
			d := digits(v, e.Base)
			if e.Huge != nil && e.Huge[i] != "" {
				d = e.Huge[i]
			}
			s.b.WriteString(s.zeros() + s.anyCase(d))
		}
	case KProse:
		s.b.WriteString("<" + e.Prose + ">")
	}
}
