package main

// Structural features of a grammar, used for labels and non-triviality rules.

type Feats struct {
	LeftRec, HiddenLeft, Recursive, Counted, Nullable, NonASCII, Core, Sens, Insens, Groups, Opts bool
}

func (g *G) nullable(root string) map[*Rule]bool {
	rules, _ := g.reach(root)
	m := map[*Rule]bool{}
	for ch := true; ch; {
		ch = false
		for _, r := range rules {
			if !m[r] && g.nullAlts(m, r.Alts) {
				m[r] = true
				ch = true
			}
		}
	}
	return m
}

func (g *G) nullAlts(m map[*Rule]bool, a []Cat) bool {
	for _, c := range a {
		all := true
		for _, r := range c {
			if !(r.Min == 0 || g.nullElem(m, r.E)) || (r.Max != Inf && r.Max < r.Min) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

func (g *G) nullElem(m map[*Rule]bool, e *Elem) bool {
	switch e.K {
	case KOpt:
		return true
	case KGroup:
		return g.nullAlts(m, e.Alts)
	case KRef:
		return m[g.lookup(e.Name)]
	case KStr:
		return len(e.Runes) == 0
	}
	return false
}

func (g *G) feats(root string) (f Feats) {
	rules, _ := g.reach(root)
	null := g.nullable(root)
	f.Nullable = null[g.lookup(root)]
	lc := map[*Rule]map[*Rule]bool{}
	for _, r := range rules {
		lc[r] = map[*Rule]bool{}
		var left func(a []Cat)
		left = func(a []Cat) {
			for _, c := range a {
				for i, rp := range c {
					switch rp.E.K {
					case KRef:
						if x := g.lookup(rp.E.Name); x != nil {
							lc[r][x] = true
							if i > 0 && x == r {
								f.HiddenLeft = true
							}
						}
					case KGroup, KOpt:
						left(rp.E.Alts)
					}
					if !(rp.Min == 0 || g.nullElem(null, rp.E)) {
						break
					}
				}
			}
		}
		left(r.Alts)
		walkAlts(r.Alts, func(e *Elem, rp Rep) {
			if rp.Max > 1 || (rp.Max == Inf && rp.Min > 1) {
				f.Counted = true
			}
			switch e.K {
			case KStr:
				if e.Sens {
					f.Sens = true
				} else {
					f.Insens = true
				}
			case KNum:
				for _, v := range e.Vals {
					if v > 0x7F {
						f.NonASCII = true
					}
				}
			case KGroup:
				f.Groups = true
			case KOpt:
				f.Opts = true
			case KRef:
				if g.find(e.Name) == nil {
					f.Core = true
				}
			}
		})
	}
	for ch := true; ch; {
		ch = false
		for _, r := range rules {
			for x := range lc[r] {
				for y := range lc[x] {
					if !lc[r][y] {
						lc[r][y] = true
						ch = true
					}
				}
			}
		}
	}
	for _, r := range rules {
		if lc[r][r] {
			f.LeftRec = true
		}
	}
	f.Recursive = g.cyclic(root)
	return
}

func (t *T) labelFeats(f Feats) {
	for k, v := range map[string]bool{"left-recursive": f.LeftRec, "hidden-left": f.HiddenLeft, "recursive": f.Recursive,
		"counted-rep": f.Counted, "nullable-root": f.Nullable, "non-ascii": f.NonASCII, "core-refs": f.Core, "case-sensitive": f.Sens,
		"groups": f.Groups, "options": f.Opts} {
		if v {
			t.Label(k)
		}
	}
}
