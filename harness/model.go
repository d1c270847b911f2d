package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

// ---------------------------------------------------------------------------
// The harness's own grammar model. Nothing here is taken from the library: the
// generator builds these values, the renderer writes ABNF text for them, and the
// reference implementations (ref.go, abnfsyn.go) interpret them.
// ---------------------------------------------------------------------------

type Kind int

const (
	KStr Kind = iota
	KNum
	KRef
	KGroup
	KOpt
	KProse
)

type Elem struct {
	K     Kind
	Name  string // KRef
	Alts  []Cat  // KGroup, KOpt
	Runes []rune // KStr
	Sens  bool   // KStr
	Base  byte   // KNum: 'b', 'd' or 'x'
	Range bool   // KNum
	Vals  []uint64
	Huge  []string // KNum: literal digits, when they do not fit 64 bits (else nil)
	Prose string
}

type Rep struct {
	Min, Max int // Max == -1: unbounded
	E        *Elem
}

type Cat []Rep

type Rule struct {
	Name string
	Alts []Cat
}

type G struct {
	Rules  []*Rule
	Beyond bool // has numbers above U+10FFFF, which the validation refuses
}

const Inf = -1

func (g *G) find(name string) *Rule {
	for _, r := range g.Rules {
		if strings.EqualFold(r.Name, name) {
			return r
		}
	}
	return nil
}

// lookup resolves a rule name the way RFC 5234 asks for: names are
// case-insensitive, and the Appendix B core rules are always available.
func (g *G) lookup(name string) *Rule {
	if r := g.find(name); r != nil {
		return r
	}
	return coreByName[strings.ToUpper(name)]
}

// --- constructors -----------------------------------------------------------

func str(s string) *Elem   { return &Elem{K: KStr, Runes: []rune(s)} }
func strS(s string) *Elem  { return &Elem{K: KStr, Runes: []rune(s), Sens: true} }
func ref(n string) *Elem   { return &Elem{K: KRef, Name: n} }
func grp(a ...Cat) *Elem   { return &Elem{K: KGroup, Alts: a} }
func opt(a ...Cat) *Elem   { return &Elem{K: KOpt, Alts: a} }
func prose(s string) *Elem { return &Elem{K: KProse, Prose: s} }
func rng(lo, hi uint64) *Elem {
	return &Elem{K: KNum, Base: 'x', Range: true, Vals: []uint64{lo, hi}}
}
func ser(v ...uint64) *Elem       { return &Elem{K: KNum, Base: 'x', Vals: v} }
func one(e *Elem) Rep             { return Rep{1, 1, e} }
func rep(lo, hi int, e *Elem) Rep { return Rep{lo, hi, e} }
func cat(r ...Rep) Cat            { return Cat(r) }
func cat1(e ...*Elem) Cat {
	var c Cat
	for _, x := range e {
		c = append(c, one(x))
	}
	return c
}

// --- RFC 5234 Appendix B.1, transcribed by hand ------------------------------

var coreRulesRFC = []*Rule{
	{"ALPHA", []Cat{cat1(rng(0x41, 0x5A)), cat1(rng(0x61, 0x7A))}},
	{"BIT", []Cat{cat1(str("0")), cat1(str("1"))}},
	{"CHAR", []Cat{cat1(rng(0x01, 0x7F))}},
	{"CR", []Cat{cat1(ser(0x0D))}},
	{"CRLF", []Cat{cat1(ref("CR"), ref("LF"))}},
	{"CTL", []Cat{cat1(rng(0x00, 0x1F)), cat1(ser(0x7F))}},
	{"DIGIT", []Cat{cat1(rng(0x30, 0x39))}},
	{"DQUOTE", []Cat{cat1(ser(0x22))}},
	{"HEXDIG", []Cat{cat1(ref("DIGIT")), cat1(str("A")), cat1(str("B")), cat1(str("C")), cat1(str("D")), cat1(str("E")), cat1(str("F"))}},
	{"HTAB", []Cat{cat1(ser(0x09))}},
	{"LF", []Cat{cat1(ser(0x0A))}},
	{"LWSP", []Cat{cat(rep(0, Inf, grp(cat1(ref("WSP")), cat1(ref("CRLF"), ref("WSP")))))}},
	{"OCTET", []Cat{cat1(rng(0x00, 0xFF))}},
	{"SP", []Cat{cat1(ser(0x20))}},
	{"VCHAR", []Cat{cat1(rng(0x21, 0x7E))}},
	{"WSP", []Cat{cat1(ref("SP")), cat1(ref("HTAB"))}},
}

var coreByName = func() map[string]*Rule {
	m := map[string]*Rule{}
	for _, r := range coreRulesRFC {
		m[r.Name] = r
	}
	return m
}()

var coreNames = func() []string {
	var s []string
	for _, r := range coreRulesRFC {
		s = append(s, r.Name)
	}
	sort.Strings(s)
	return s
}()

// ---------------------------------------------------------------------------
// Plain canonical rendering
// ---------------------------------------------------------------------------

func (g *G) Text() string {
	var b strings.Builder
	for _, r := range g.Rules {
		b.WriteString(r.Name + " = " + altsText(r.Alts) + "\r\n")
	}
	return b.String()
}

// Show is Text with LF line ends, for case descriptions.
func (g *G) Show() string {
	return strings.TrimRight(strings.ReplaceAll(g.Text(), "\r\n", " ⏎ "), " ⏎")
}

func altsText(a []Cat) string {
	p := make([]string, len(a))
	for i, c := range a {
		q := make([]string, len(c))
		for j, r := range c {
			q[j] = repText(r)
		}
		p[i] = strings.Join(q, " ")
	}
	return strings.Join(p, " / ")
}

func repText(r Rep) string { return repeatText(r) + elemText(r.E) }

func repeatText(r Rep) string {
	switch {
	case r.Min == 1 && r.Max == 1:
		return ""
	case r.Min == r.Max:
		return fmt.Sprint(r.Min)
	}
	s := ""
	if r.Min != 0 {
		s = fmt.Sprint(r.Min)
	}
	s += "*"
	if r.Max != Inf {
		s += fmt.Sprint(r.Max)
	}
	return s
}

func digits(v uint64, base byte) string {
	switch base {
	case 'b':
		return fmt.Sprintf("%b", v)
	case 'd':
		return fmt.Sprintf("%d", v)
	}
	return fmt.Sprintf("%X", v)
}

func elemText(e *Elem) string {
	switch e.K {
	case KRef:
		return e.Name
	case KGroup:
		return "(" + altsText(e.Alts) + ")"
	case KOpt:
		return "[" + altsText(e.Alts) + "]"
	case KStr:
		p := ""
		if e.Sens {
			p = "%s"
		}
		return p + `"` + string(e.Runes) + `"`
	case KNum:
		sep := "."
		if e.Range {
			sep = "-"
		}
		var p []string
		for i, v := range e.Vals {
			d := digits(v, e.Base)
			if e.Huge != nil && e.Huge[i] != "" {
				d = e.Huge[i]
			}
			p = append(p, d)
		}
		return "%" + string(e.Base) + strings.Join(p, sep)
	case KProse:
		return "<" + e.Prose + ">"
	}
	panic("kind")
}

// ---------------------------------------------------------------------------
// Traversals
// ---------------------------------------------------------------------------

func walkAlts(a []Cat, f func(*Elem, Rep)) {
	for _, c := range a {
		for _, r := range c {
			f(r.E, r)
			walkAlts(r.E.Alts, f)
		}
	}
}

// reach returns the rules reachable from name, in discovery order; nil entries
// never occur (undefined names are reported in undef).
func (g *G) reach(name string) (rules []*Rule, undef []string) {
	seen := map[*Rule]bool{}
	var visit func(n string)
	visit = func(n string) {
		r := g.lookup(n)
		if r == nil {
			undef = append(undef, n)
			return
		}
		if seen[r] {
			return
		}
		seen[r] = true
		rules = append(rules, r)
		walkAlts(r.Alts, func(e *Elem, _ Rep) {
			if e.K == KRef {
				visit(e.Name)
			}
		})
	}
	visit(name)
	return
}

// cyclic reports whether a rule reachable from name (itself included) depends on
// itself, directly or not.
func (g *G) cyclic(name string) bool {
	state := map[*Rule]int{}
	var visit func(r *Rule) bool
	visit = func(r *Rule) bool {
		if r == nil {
			return false
		}
		switch state[r] {
		case 1:
			return true
		case 2:
			return false
		}
		state[r] = 1
		c := false
		walkAlts(r.Alts, func(e *Elem, _ Rep) {
			if e.K == KRef && !c {
				c = visit(g.lookup(e.Name))
			}
		})
		state[r] = 2
		return c
	}
	return visit(g.lookup(name))
}

// ---------------------------------------------------------------------------
// Random grammars
// ---------------------------------------------------------------------------

type GenOpt struct {
	MaxRules   int
	MaxDepth   int
	MaxAlts    int
	MaxCats    int
	Acyclic    bool
	Core       bool // references to core rules
	Prose      bool
	MaxCount   int  // largest repetition bound
	BigCounts  bool // occasionally bounds up to 40
	Direct     bool // char-vals may hold any rune (grammar built as values, not text)
	Alpha      []rune
	NoOpt      bool
	NoSens     bool
	NoInf      bool
	WideRange  bool // ranges spanning UTF-8 length boundaries
	Surrogates bool // ranges/series touching D800-DFFF
	BadRange   bool // min > max ranges
	NoEmpty    bool // no "" literals
	LessNull   bool // few elements that can vanish
	Inject     bool // add (hidden) left recursion to a share of the grammars
}

var alphabets = [][]rune{
	{'a', 'b'},
	{'a', 'b', 'A', 'B'},
	{'a', 'é', '€', '😀', 'b'},
	{'0', '1', '+', '(', ')'},
	{'k', 'K', 0x212A, 's', 'S', 0x17F},
	{'@', 'A', 'Z', '[', '`', 'a', 'z', '{'},
	{0x00, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF},
	{'a', 'b', 'c', ' ', '\t', '\r', '\n'},
	{'"', '\\', '`', '\'', '%', 'n', '~', '!'},
	{'a', 'c', 'd', 'f', 'b', 'e', 'h'},
	{'+', '-', '.', '0', '2', '3', '5', '_', ','},
}

// pickAlpha picks the alphabet for a whole grammar.
func pickAlpha(t *T) []rune { return alphabets[t.W(30, 20, 14, 12, 8, 8, 6, 5, 6, 6, 6)] }

type gen struct {
	t     *T
	o     GenOpt
	names []string
	cur   int
	size  int
	hot   int // 1 + the rule most references are to in this grammar, 0: none
	over  int // dimension that is oversized in this grammar, 0: none
}

// Dimensions genGrammar oversizes now and then.
const (
	overAlts = 1 + iota
	overCats
	overStr
	overSeries
	overRules
	overDepth
	overCount
)

var ruleNames = []string{"a", "b", "c", "Foo", "bar-1", "x", "q2", "zed", "rule-nine", "k", "m", "n"}

func genGrammar(t *T, o GenOpt) *G {
	if o.Alpha == nil {
		o.Alpha = pickAlpha(t)
	}
	if o.MaxRules == 0 {
		o.MaxRules = 4
	}
	if o.MaxDepth == 0 {
		o.MaxDepth = 3
	}
	if o.MaxAlts == 0 {
		o.MaxAlts = 3
	}
	if o.MaxCats == 0 {
		o.MaxCats = 3
	}
	if o.MaxCount == 0 {
		o.MaxCount = 4
	}
	n := 1 + t.N(o.MaxRules)
	gg := &gen{t: t, o: o}
	if t.Pct(7) {
		gg.over = 1 + t.N(overCount)
	}
	if gg.over == overRules {
		n += t.N(24)
	}
	gg.names = nameRules(t, n)
	if gg.over == overDepth {
		o.MaxDepth += 2 + t.N(8)
	}
	if n > 1 && t.Pct(12) {
		gg.hot = 1 + t.N(n)
		if o.Acyclic {
			gg.hot = 2 + t.N(n-1)
		}
	}
	g := &G{}
	for i := 0; i < n; i++ {
		gg.cur = i
		gg.size = 0
		g.Rules = append(g.Rules, &Rule{Name: gg.names[i], Alts: gg.alts(o.MaxDepth)})
	}
	if o.Inject && t.Pct(25) {
		gg.injectLeft(g)
	}
	if t.Pct(2) {
		gg.chain(g)
	}
	return g
}

// chain puts a long chain of rules between a reference and its rule.
func (g *gen) chain(gr *G) {
	t := g.t
	var l []*Elem
	for _, r := range gr.Rules {
		walkAlts(r.Alts, func(e *Elem, _ Rep) {
			if e.K == KRef {
				l = append(l, e)
			}
		})
	}
	if len(l) == 0 {
		return
	}
	e := l[t.N(len(l))]
	to := e.Name
	n := []int{6, 10, 18, 30}[t.N(4)]
	n += t.N(n)
	var links []*Rule
	twice := 3
	for i := 0; i < n; i++ {
		next := to
		if i+1 < n {
			next = fmt.Sprintf("k%d", i+1)
		}
		r := &Rule{Name: fmt.Sprintf("k%d", i), Alts: []Cat{cat1(ref(casing(t, next)))}}
		switch t.N(12) {
		case 0:
			r.Alts = []Cat{cat1(grp(cat1(ref(next))))}
		case 1, 2:
			if twice--; twice >= 0 {
				r.Alts = []Cat{cat1(ref(next)), cat1(ref(next), ref(next))}
			}
		case 3:
			if twice--; twice >= 0 {
				r.Alts = []Cat{{rep(1, 1+t.N(2), ref(next))}}
			}
		}
		links = append(links, r)
	}
	e.Name = "k0"
	switch t.N(3) {
	case 0: // callers last
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			links[i], links[j] = links[j], links[i]
		}
	case 1: // anyhow
		for i := n - 1; i > 0; i-- {
			j := t.N(i + 1)
			links[i], links[j] = links[j], links[i]
		}
	}
	k := 1 + t.N(len(gr.Rules))
	gr.Rules = append(gr.Rules[:k:k], append(links, gr.Rules[k:]...)...)
	t.Label("chain")
}

// nameRules gives n names; a share of the grammars has unusual ones.
func nameRules(t *T, n int) []string {
	if n <= len(ruleNames) && !t.Pct(12) {
		return ruleNames[:n]
	}
	var names []string
	common := ""
	if t.Pct(30) { // names that differ at the end only
		common = "a-rather-long-rule-name-such-as-are-found-in-protocol-specifications-"[:1+t.N(60)]
	}
	for i := 0; len(names) < n; i++ {
		x := ""
		switch {
		case i == 0:
			x = "a"
		case common != "":
			x = fmt.Sprintf("%s%d", common, t.N(2*n))
		case t.Pct(25):
			x = []string{"type", "func", "len", "string", "nil", "range", "main", "go", "Parse", "Result", "init", "error", "byte", "rune", "make", "int", "true", "input", "root", "start", "Tree", "rule", "emptyNode", "flowchart", "end"}[t.N(25)]
		case t.Pct(25):
			x = []string{"digits", "alpha1", "cr-lf", "c", "CRL", "o-ctet", "LWS", "Bits", "vchar-"}[t.N(9)]
		case t.Pct(30):
			x = "a" + strings.Repeat([]string{"-", "1", "a", "-x", "Z9"}[t.N(5)], 1+t.N(3))
		case t.Pct(20):
			x = "a-rather-long-rule-name-such-as-are-found-in-protocol-specifications-"[:20+t.N(50)] + string(rune('a'+t.N(3)))
		default:
			x = fmt.Sprintf("r%d", i)
		}
		dup := false
		for _, y := range names {
			dup = dup || strings.EqualFold(x, y)
		}
		if !dup {
			names = append(names, x)
		}
	}
	return names
}

// injectLeft makes a rule left-recursive behind something that can vanish, or
// through another rule.
func (g *gen) injectLeft(gr *G) {
	t := g.t
	rl := gr.Rules[t.N(len(gr.Rules))]
	to := gr.Rules[t.N(len(gr.Rules))]
	var c Cat
	for k := t.N(3); k > 0; k-- {
		x := &Elem{K: KStr, Runes: []rune{g.rune()}}
		if !printable(x.Runes[0]) && !g.o.Direct {
			x.Runes[0] = 'a'
		}
		switch t.N(10) {
		case 7:
			c = append(c, rep(0, 0, x))
		case 8, 9: // a rule that can vanish
			v := &Rule{Name: fmt.Sprintf("v%d", len(gr.Rules))}
			for i := t.N(3); i >= 0; i-- {
				v.Alts = append(v.Alts, cat(g.vanish(gr, x), g.vanish(gr, x))[:1+t.N(2)])
			}
			if t.Bool() {
				v.Alts = append(v.Alts, cat1(x))
			}
			gr.Rules = append(gr.Rules, v)
			c = append(c, one(ref(casing(t, v.Name))))
		case 0:
			c = append(c, one(opt(cat1(x))))
		case 1:
			c = append(c, rep(0, Inf, x))
		case 2:
			c = append(c, one(ref("LWSP")))
		case 3:
			c = append(c, one(str("")))
		case 4:
			c = append(c, rep(0, 1+t.N(3), x))
		case 5:
			c = append(c, one(grp(cat1(opt(cat1(x)), str("")))))
		case 6:
			c = append(c, rep(0, t.N(3), ref(to.Name)))
		}
	}
	self := one(ref(rl.Name))
	switch t.N(6) {
	case 1:
		self = one(ref(to.Name))
		to.Alts = append(to.Alts, cat(one(ref(rl.Name)), g.rep(0)))
	case 2:
		self = one(grp(cat1(ref(rl.Name))))
	case 3:
		self = rep(t.N(2), Inf, ref(rl.Name))
	case 4:
		self = one(opt(cat1(ref(rl.Name))))
	}
	c = append(c, self)
	if t.Pct(80) {
		c = append(c, g.rep(0))
	}
	at := t.N(len(rl.Alts) + 1)
	rl.Alts = append(rl.Alts[:at:at], append([]Cat{c}, rl.Alts[at:]...)...)
	if t.Pct(70) {
		rl.Alts = append(rl.Alts, cat1(g.strElem()))
	}
}

// vanish is something that can be empty.
func (g *gen) vanish(gr *G, x *Elem) Rep {
	t := g.t
	switch t.N(8) {
	case 0:
		return rep(0, 0, x)
	case 1:
		return rep(0, Inf, x)
	case 2:
		return one(opt(cat1(x)))
	case 3:
		return rep(1+t.N(3), 3, str(""))
	case 4:
		return one(grp(cat1(x), cat(rep(0, 1+t.N(2), x))))
	case 5:
		return one(ref("LWSP"))
	case 6:
		return rep(t.N(3), Inf, opt(cat1(x)))
	}
	if l := gr.Rules[len(gr.Rules)-1]; strings.HasPrefix(l.Name, "v") {
		return one(ref(l.Name))
	}
	return one(str(""))
}

func (g *gen) alts(d int) []Cat {
	n := 1 + g.t.N(g.o.MaxAlts)
	if g.over == overAlts && g.size < 12 && g.t.Pct(35) {
		n += g.t.N(18)
		d = 0
	}
	var out []Cat
	for i := 0; i < n; i++ {
		if n > 3 && g.over == overAlts && !g.o.NoEmpty && !g.o.LessNull && g.t.Pct(6) {
			out = append(out, cat(one(str(""))))
			continue
		}
		out = append(out, g.cat(d))
	}
	return out
}

func (g *gen) cat(d int) Cat {
	n := 1 + g.t.N(g.o.MaxCats)
	if g.over == overCats && g.size < 12 && g.t.Pct(35) {
		n += g.t.N(12)
		d = 0
	}
	var c Cat
	for i := 0; i < n; i++ {
		c = append(c, g.rep(d))
	}
	return c
}

func (g *gen) rep(d int) Rep {
	t := g.t
	lo, hi := 1, 1
	switch t.W(60, 10, 6, 12, 12) {
	case 1:
		lo, hi = 0, Inf
	case 2:
		lo, hi = 1, Inf
	case 3: // n or m*
		lo = t.N(g.o.MaxCount + 1)
		hi = lo
		if t.Bool() {
			hi = Inf
		}
	case 4:
		lo = t.N(g.o.MaxCount + 1)
		hi = lo + t.N(g.o.MaxCount+1-min(lo, g.o.MaxCount))
		if g.o.BigCounts && t.Pct(20) {
			hi += t.N(30)
		}
		if g.over == overCount && t.Pct(50) {
			hi += t.N(30)
			lo += t.N(hi - lo + 1)
		}
	}
	if g.o.LessNull && lo == 0 && (hi == Inf || hi > 0) && t.Pct(75) {
		lo = 1
	}
	if g.o.NoInf && hi == Inf {
		hi = lo + t.N(3)
	}
	return Rep{lo, hi, g.elem(d)}
}

func (g *gen) rune() rune { return g.o.Alpha[g.t.N(len(g.o.Alpha))] }

func (g *gen) elem(d int) *Elem {
	t := g.t
	g.size++
	ws := []int{34, 18, 26, 12, 10, 0}
	if g.o.Prose {
		ws[5] = 3
	}
	if g.o.LessNull {
		ws[4] = 3
	}
	if g.o.NoOpt {
		ws[4] = 0
	}
	if d <= 0 || g.size > 30 {
		ws[3], ws[4] = 0, 0
	}
	if g.o.Acyclic && g.cur == len(g.names)-1 {
		ws[2] = 0
		if g.o.Core {
			ws[2] = 6
		}
	}
	hot := g.hot > 0 && (!g.o.Acyclic || g.hot-1 > g.cur)
	if hot {
		ws[2] = 60
	}
	switch t.W(ws...) {
	case 0:
		return g.strElem()
	case 1:
		return g.numElem()
	case 2:
		if hot && t.Pct(70) {
			return ref(casing(t, g.names[g.hot-1]))
		}
		if g.o.Core && (t.Pct(25) || (g.o.Acyclic && g.cur == len(g.names)-1)) {
			return ref(casing(t, []string{"DIGIT", "ALPHA", "BIT", "HEXDIG", "WSP", "CRLF", "SP", "VCHAR", "LWSP", "OCTET", "CHAR", "CTL", "DQUOTE", "HTAB", "CR", "LF"}[t.N(16)]))
		}
		lo := 0
		if g.o.Acyclic {
			lo = g.cur + 1
		}
		return ref(casing(t, g.names[lo+t.N(len(g.names)-lo)]))
	case 3:
		return &Elem{K: KGroup, Alts: g.alts(d - 1)}
	case 4:
		return &Elem{K: KOpt, Alts: g.alts(d - 1)}
	}
	return prose("some prose " + string(rune('a'+t.N(3))))
}

// casing varies the letter case of a reference to a rule.
func casing(t *T, n string) string {
	switch t.W(80, 10, 10) {
	case 1:
		return strings.ToUpper(n)
	case 2:
		return strings.ToLower(n)
	}
	return n
}

func printable(r rune) bool { return r >= 0x20 && r <= 0x7E && r != '"' }

func (g *gen) strElem() *Elem {
	t := g.t
	n := []int{1, 2, 3, 0, 4}[t.W(60, 18, 8, 10, 4)]
	if (g.o.NoEmpty || g.o.LessNull) && n == 0 {
		n = 1
	}
	long := g.over == overStr && t.Pct(30)
	if long {
		n = 5 + t.N([]int{36, 36, 36, 120}[t.N(4)])
	}
	e := &Elem{K: KStr, Runes: []rune{}}
	for i := 0; i < n; i++ {
		r := g.rune()
		if long && t.Pct(8) {
			r = ' '
		}
		if !printable(r) && !g.o.Direct {
			r = 'a' + rune(t.N(2))
		}
		e.Runes = append(e.Runes, r)
	}
	if g.o.Direct && n > 0 && t.Pct(25) {
		// letters among characters beyond ASCII, some of which Unicode folds to letters
		for k := 1 + t.N(2); k > 0; k-- {
			i := t.N(len(e.Runes) + 1)
			x := []rune{0xE9, 0xC9, 0x212A, 0x17F, 0x130, 0x1F600, 'K', 's'}[t.N(8)]
			e.Runes = append(e.Runes[:i:i], append([]rune{x}, e.Runes[i:]...)...)
		}
	}
	if !g.o.NoSens {
		e.Sens = t.Pct(30) || long && n > 9 && t.Pct(70)
	}
	return e
}

func (g *gen) numElem() *Elem {
	t := g.t
	e := &Elem{K: KNum, Base: "xdb"[t.W(70, 20, 10)]}
	if t.Bool() {
		n := 1
		if t.Pct(35) {
			n = 2 + t.N(2)
		}
		if g.over == overSeries && t.Pct(50) {
			n = 4 + t.N(14)
		}
		for i := 0; i < n; i++ {
			v := uint64(g.rune())
			if g.o.Surrogates && t.Pct(12) {
				v = 0xD800 + uint64(t.N(0x800))
			}
			e.Vals = append(e.Vals, v)
		}
		return e
	}
	e.Range = true
	lo := uint64(g.rune())
	hi := lo
	switch t.W(40, 40, 20) {
	case 1:
		hi = lo + uint64(t.N(4))
	case 2:
		hi = uint64(g.rune())
	}
	if g.o.WideRange && t.Pct(20) {
		hi = lo + uint64(t.N([]int{150, 3000}[t.N(2)]))
	}
	if g.o.Surrogates && t.Pct(15) {
		lo = []uint64{0xD7FC, 0xDFFA}[t.N(2)] + uint64(t.N(8))
		hi = lo + uint64([]int{0, 1, 2, 8, 0x7FC, 0x804, 0x810}[t.N(7)])
	}
	if hi > 0x10FFFF {
		hi = 0x10FFFF
	}
	if lo > hi && !g.o.BadRange {
		lo, hi = hi, lo
	}
	e.Vals = []uint64{lo, hi}
	return e
}

// addBeyond puts numbers above the characters in some num-vals: no text matches
// them, and ranges are cut at U+10FFFF.
func addBeyond(t *T, g *G) {
	set := func(e *Elem, i int) {
		vs := []uint64{0x110000, 0x110041, 1<<31 - 1, 1<<31 + 0x61, 1<<32 + 0x41, 1<<32 + 0x61, 1 << 40, 1<<63 + 0x61, 1<<64 - 1}
		e.Vals[i] = vs[t.N(len(vs))]
		if t.Pct(30) { // 2^64 and a letter
			if e.Huge == nil {
				e.Huge = make([]string, len(e.Vals))
			}
			e.Vals[i] = 1<<64 - 1
			switch e.Base {
			case 'x':
				e.Huge[i] = "100000000000000" + []string{"41", "61"}[t.N(2)]
			case 'd':
				e.Huge[i] = []string{"18446744073709551681", "18446744073709551713"}[t.N(2)]
			case 'b':
				e.Huge[i] = "1" + strings.Repeat("0", 57) + "1100001"
			}
		}
	}
	var nums []*Elem
	for _, r := range g.Rules {
		walkAlts(r.Alts, func(e *Elem, _ Rep) {
			if e.K == KNum {
				nums = append(nums, e)
			}
		})
	}
	if len(nums) == 0 || t.Pct(30) {
		e := &Elem{K: KNum, Base: "xdb"[t.N(3)], Vals: []uint64{uint64('a' + t.N(2))}}
		if t.Bool() {
			e.Range = true
			e.Vals = append(e.Vals, 'b')
		}
		r := g.Rules[t.N(len(g.Rules))]
		at := t.N(len(r.Alts) + 1)
		r.Alts = append(r.Alts[:at:at], append([]Cat{cat1(e)}, r.Alts[at:]...)...)
		nums = append(nums, e)
	}
	for k := 1 + t.N(2); k > 0; k-- {
		e := nums[t.N(len(nums))]
		if !e.Range {
			set(e, t.N(len(e.Vals)))
			continue
		}
		set(e, 1)
		if t.Pct(25) {
			set(e, 0)
			if e.Vals[0] > e.Vals[1] || e.Huge != nil && e.Huge[0] != "" {
				e.Vals[0], e.Huge = 0x110000, nil
				e.Vals[1] = max(e.Vals[1], 0x110000)
			}
		}
	}
	g.Beyond = true
}

// ---------------------------------------------------------------------------
// Sentences
// ---------------------------------------------------------------------------

const huge = 1 << 30

// costs computes, for every rule, the least number of rule expansions plus
// characters of a finite word (huge: no finite word).
type costs map[*Rule]int

func (g *G) costs(root string) costs {
	rules, _ := g.reach(root)
	m := costs{}
	for _, r := range rules {
		m[r] = huge
	}
	for ch := true; ch; {
		ch = false
		for _, r := range rules {
			if c := g.costAlts(m, r.Alts); c < m[r] {
				m[r] = c
				ch = true
			}
		}
	}
	return m
}

func (g *G) costAlts(m costs, a []Cat) int {
	best := huge
	for _, c := range a {
		best = min(best, g.costCat(m, c))
	}
	return best
}

func (g *G) costCat(m costs, c Cat) int {
	s := 0
	for _, r := range c {
		if r.Max != Inf && r.Min > r.Max {
			return huge
		}
		if r.Min == 0 {
			continue
		}
		x := g.costElem(m, r.E)
		if x >= huge || x > 0 && (r.Min >= huge || x*r.Min >= huge) {
			return huge
		}
		s += x * r.Min
		if s >= huge {
			return huge
		}
	}
	return s
}

func (g *G) costElem(m costs, e *Elem) int {
	switch e.K {
	case KRef:
		r := g.lookup(e.Name)
		if r == nil {
			return huge
		}
		return min(huge, 1+m[r])
	case KGroup:
		return g.costAlts(m, e.Alts)
	case KOpt:
		return 0
	case KStr:
		return len(string(e.Runes))
	case KNum:
		if !e.productive() {
			return huge
		}
		if e.Range {
			return len(string(rune(e.Vals[0]))) // 3 for a surrogate as well
		}
		n := 0
		for _, v := range e.Vals {
			n += len(string(rune(v)))
		}
		return n
	}
	return huge
}

// scalar reports whether v is a Unicode scalar value: the only values a
// UTF-8 text can hold.
func scalar(v uint64) bool { return v <= 0x10FFFF && !(v >= 0xD800 && v <= 0xDFFF) }

// productive reports whether a num-val denotes at least one UTF-8 text.
func (e *Elem) productive() bool {
	if e.Range {
		lo, hi := e.Vals[0], e.Vals[1]
		if lo > hi || lo > 0x10FFFF {
			return false
		}
		return !(lo >= 0xD800 && hi <= 0xDFFF)
	}
	for _, v := range e.Vals {
		if !scalar(v) {
			return false
		}
	}
	return true
}

func encode(v uint64) []byte {
	var b [4]byte
	n := utf8.EncodeRune(b[:], rune(v))
	return b[:n]
}

// terminal draws a spelling of a string or num-val.
func terminal(t *T, e *Elem, vary bool) (out []byte) {
	switch e.K {
	case KStr:
		for _, r := range e.Runes {
			if !e.Sens && vary && t.Pct(30) {
				if r >= 'a' && r <= 'z' {
					r -= 32
				} else if r >= 'A' && r <= 'Z' {
					r += 32
				}
			}
			out = append(out, string(r)...)
		}
	case KNum:
		if !e.Range {
			for _, v := range e.Vals {
				out = append(out, encode(v)...)
			}
			return
		}
		lo, hi := e.Vals[0], min(e.Vals[1], 0x10FFFF)
		v := lo
		switch t.N(3) {
		case 1:
			v = hi
		case 2:
			v = lo + uint64(t.N(int(hi-lo)+1))
		}
		if !scalar(v) {
			if lo < 0xD800 {
				v = 0xD7FF
			} else {
				v = 0xE000
			}
		}
		out = append(out, encode(v)...)
	}
	return
}

// derive draws a word of the rule; ok=false when the rule has none.
func (g *G) derive(t *T, root string, fuel int) (out []byte, ok bool) {
	m := g.costs(root)
	r := g.lookup(root)
	if r == nil || m[r] >= huge || m[r] > 3000 {
		return nil, false
	}
	var alts func(a []Cat)
	var elem func(e *Elem)
	alts = func(a []Cat) {
		var ok []int
		best, bc := -1, huge
		for i, c := range a {
			x := g.costCat(m, c)
			if x < huge && x < 2000 {
				ok = append(ok, i)
			}
			if x < bc {
				best, bc = i, x
			}
		}
		i := best
		if fuel > 0 && len(ok) > 0 {
			i = ok[t.N(len(ok))]
		}
		for _, r := range a[i] {
			n := r.Min
			if fuel > 0 && g.costElem(m, r.E) < 2000 {
				hi := r.Max
				if hi == Inf || hi > r.Min+6 {
					hi = r.Min + 4
				}
				n += t.N(hi - r.Min + 1)
			}
			if g.costElem(m, r.E) == 0 {
				n = min(n, 200) // the occurrences left out are empty ones
			}
			for k := 0; k < n; k++ {
				elem(r.E)
			}
		}
	}
	elem = func(e *Elem) {
		fuel--
		switch e.K {
		case KRef:
			alts(g.lookup(e.Name).Alts)
		case KGroup:
			alts(e.Alts)
		case KOpt:
			if fuel > 0 && g.costAlts(m, e.Alts) < 2000 && t.Bool() {
				alts(e.Alts)
			}
		default:
			out = append(out, terminal(t, e, fuel > 0)...)
		}
	}
	out = []byte{}
	fuel = fuel + 1
	alts(r.Alts)
	return out, true
}

// alphabetOf lists the characters that matter to the grammar, plus neighbours.
func (g *G) alphabetOf(root string) []rune {
	seen := map[rune]bool{}
	rules, _ := g.reach(root)
	add := func(v uint64) {
		if scalar(v) {
			seen[rune(v)] = true
		}
	}
	for _, r := range rules {
		walkAlts(r.Alts, func(e *Elem, _ Rep) {
			switch e.K {
			case KStr:
				for _, r := range e.Runes {
					add(uint64(r))
					if r >= 'a' && r <= 'z' {
						add(uint64(r - 32))
					}
					if r >= 'A' && r <= 'Z' {
						add(uint64(r + 32))
					}
				}
			case KNum:
				for _, v := range e.Vals {
					add(v)
					if e.Range {
						add(v + 1)
						if v > 0 {
							add(v - 1)
						}
					}
				}
			}
		})
	}
	out := make([]rune, 0, len(seen))
	for r := range seen {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	if len(out) == 0 {
		out = []rune{'a'}
	}
	return out
}

// genInput draws an input for the rule: a word of the language, a mutated word,
// or a random text over the grammar's characters.
func (g *G) genInput(t *T, root string, maxLen int) []byte {
	al := g.alphabetOf(root)
	var in []byte
	kind := t.W(45, 20, 20, 15)
	if kind != 2 {
		from := g
		if kind == 3 {
			from = g.neighbour(t, root)
		}
		w, ok := from.derive(t, root, 4+t.N(24))
		if !ok {
			kind = 2
		} else {
			in = w
		}
	}
	if kind == 1 {
		in = mutate(t, in, al)
	}
	if kind == 2 {
		n := t.N(7)
		for i := 0; i < n; i++ {
			in = append(in, string(al[t.N(len(al))])...)
		}
	}
	if len(in) > maxLen {
		in = in[:maxLen]
	}
	return in
}

func mutate(t *T, in []byte, al []rune) []byte {
	out := append([]byte(nil), in...)
	for k := 1 + t.N(2); k > 0; k-- {
		switch t.N(9) {
		case 8: // a character next to it
			if l := []rune(string(out)); len(l) > 0 && utf8.Valid(out) {
				i := t.N(len(l))
				l[i] = max(0, l[i]+rune([]int{-2, -1, 1, 2}[t.N(4)]))
				out = []byte(string(l))
			}
		case 7: // another letter by Unicode's folding, not ASCII's
			if l := []rune(string(out)); len(l) > 0 && utf8.Valid(out) {
				i := t.N(len(l))
				l[i] = unicode.SimpleFold(l[i])
				out = []byte(string(l))
			}
		case 0:
			if len(out) > 0 {
				i := t.N(len(out))
				out = append(out[:i], out[i+1:]...)
			}
		case 1:
			i := t.N(len(out) + 1)
			out = splice(out, i, i, []byte(string(al[t.N(len(al))])))
		case 2:
			if len(out) > 0 {
				i := t.N(len(out))
				out[i] ^= 0x20
			}
		case 3:
			if len(out) > 0 {
				i := t.N(len(out))
				j := i + t.N(len(out)-i+1)
				out = splice(out, j, j, append([]byte(nil), out[i:j]...))
			}
		case 4:
			if len(out) > 0 {
				out = out[:t.N(len(out))]
			}
		case 5:
			if len(out) > 0 {
				i := t.N(len(out))
				out[i] = byte(t.N(256))
			}
		case 6:
			out = append(out, string(al[t.N(len(al))])...)
		}
	}
	return out
}

func splice(b []byte, i, j int, ins []byte) []byte {
	out := append([]byte(nil), b[:i]...)
	out = append(out, ins...)
	return append(out, b[j:]...)
}
