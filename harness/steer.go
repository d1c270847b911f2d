package main

// steer recognises the words a recursive generator may give under a depth and
// a length budget: once over one of them, every choice is a cheapest one to
// finish. An alternative's cost is its fewest bytes plus rule references;
// repetitions stay at their minimum and options are not taken.
type steer struct {
	g                *G
	m                costs
	in               []byte
	maxDepth, maxLen int
	most             func(Rep) int // bound of a repetition
	memo             map[steerKey]uint64
	round            map[steerKey]int
	n, work          int
	changed          bool
}

type steerKey struct {
	a    *Cat
	d, p int
}

const (
	steerLen  = 60 // longest word
	steerWork = 200000
)

// steered tells whether the generator may give the word; ok=false when this
// takes too long to find out. A negative depth is no bound.
func (g *G) steered(root string, m costs, in []byte, maxDepth, maxLen int, most func(Rep) int) (may, ok bool) {
	if len(in) > steerLen {
		return false, false
	}
	s := &steer{g: g, m: m, in: in, maxDepth: maxDepth, maxLen: maxLen, most: most, memo: map[steerKey]uint64{}, round: map[steerKey]int{}}
	for {
		s.n++
		s.changed = false
		if s.alts(g.lookup(root).Alts, 0, 0)>>len(in)&1 == 1 {
			return true, true
		}
		if s.work > steerWork {
			return false, false
		}
		if !s.changed {
			return false, true
		}
	}
}

func (s *steer) over(d, p int) bool { return s.maxDepth >= 0 && d >= s.maxDepth || p >= s.maxLen }

func (s *steer) alts(a []Cat, d, p int) uint64 {
	if len(a) == 0 {
		return 0
	}
	d = max(0, min(d, s.maxDepth))
	k := steerKey{&a[0], d, p}
	if s.round[k] == s.n || s.work > steerWork {
		return s.memo[k]
	}
	s.round[k] = s.n
	s.work++
	over, best := s.over(d, p), huge-1
	if over {
		best = min(best, s.g.costAlts(s.m, a))
	}
	res := s.memo[k]
	for _, c := range a {
		if s.g.costCat(s.m, c) > best {
			continue
		}
		cur := uint64(1) << p
		for _, r := range c {
			var next uint64
			for q := p; q <= len(s.in); q++ {
				if cur>>q&1 == 1 {
					next |= s.rep(r, d, q)
				}
			}
			cur = next
		}
		res |= cur
	}
	if res != s.memo[k] {
		s.memo[k] = res
		s.changed = true
	}
	return res
}

func (s *steer) rep(r Rep, d, p int) uint64 {
	cur := uint64(1) << p
	if s.g.costElem(s.m, r.E) >= huge {
		return cur // then it is not mandatory
	}
	step := func(cur uint64, optional bool) (next uint64) {
		for q := p; q <= len(s.in); q++ {
			if cur>>q&1 == 1 && !(optional && s.over(d, q)) {
				next |= s.elem(r.E, d, q)
			}
		}
		return
	}
	for i := 0; i < r.Min && cur != 0; i++ {
		next := step(cur, false)
		if next == cur {
			break
		}
		cur = next
	}
	out := cur
	for i := r.Min; i < s.most(r) && cur != 0; i++ {
		cur = step(cur, true) &^ out
		out |= cur
	}
	return out
}

func (s *steer) elem(e *Elem, d, p int) uint64 {
	switch e.K {
	case KRef:
		if r := s.g.lookup(e.Name); r != nil {
			return s.alts(r.Alts, d+1, p)
		}
		return 0
	case KGroup:
		return s.alts(e.Alts, d, p)
	case KOpt:
		out := uint64(1) << p
		if !s.over(d, p) {
			out |= s.alts(e.Alts, d, p)
		}
		return out
	}
	if l := termMatch(e, s.in[p:]); l >= 0 {
		return 1 << (p + l)
	}
	return 0
}
