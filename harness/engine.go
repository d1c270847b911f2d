package main

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// The engine: every check is one function over a choice sequence (a "tape" of
// integers). In search mode the choices come from a PRNG that depends only on
// (VERIF_SEED, property, case index) and are recorded; a failing tape is shrunk
// by deleting and lowering choices, and the shrunk tape is the replay file.

type T struct {
	rng    uint64
	tape   []uint64 // recorded choices (after reduction)
	replay []uint64 // choices to reuse; nil in search mode
	isRep  bool
	pos    int

	Tier    string
	thor    bool
	index   int
	desc    []string
	keys    []uint64
	labels  map[string]int
	samples []string
	evals   int
	began   time.Time
	hint    []uint64 // a smaller tape worth trying first when the case failed
}

type failure struct{ msg string }
type discard struct{}

func newT(seed uint64, prop string, index int) *T {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, index)
	return &T{rng: h.Sum64() | 1, index: index, began: time.Now(), labels: map[string]int{}}
}

func replayT(tape []uint64) *T {
	return &T{replay: tape, isRep: true, began: time.Now(), labels: map[string]int{}}
}

func (t *T) next() uint64 {
	// splitmix64
	t.rng += 0x9e3779b97f4a7c15
	z := t.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N draws from [0,n). 0 is always the simplest choice.
func (t *T) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint64
	if t.isRep {
		if t.pos < len(t.replay) {
			v = t.replay[t.pos]
		}
		t.pos++
		if v >= uint64(n) {
			v = uint64(n - 1)
		}
	} else {
		v = t.next() % uint64(n)
	}
	t.tape = append(t.tape, v)
	if len(t.tape) > 400000 {
		panic(discard{})
	}
	return int(v)
}

func (t *T) Range(lo, hi int) int { return lo + t.N(hi-lo+1) }
func (t *T) Bool() bool           { return t.N(2) == 1 }

// Pct is true with probability p percent; false is the simple choice.
func (t *T) Pct(p int) bool { return t.N(100) >= 100-p }

// W picks an index with the given weights.
func (t *T) W(ws ...int) int {
	s := 0
	for _, w := range ws {
		s += w
	}
	v := t.N(s)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return len(ws) - 1
}

func (t *T) Failf(f string, a ...any) {
	panic(failure{fmt.Sprintf(f, a...)})
}

// Say appends to the case description kept in the replay file.
func (t *T) Say(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	descMu.Lock()
	t.desc = append(t.desc, s)
	descMu.Unlock()
}

// descMu guards the description, which the watchdog reads when a case hangs.
var descMu sync.Mutex

func (t *T) Label(l string) { t.labels[l]++ }

// Nontrivial counts a distinct non-trivial case under key.
func (t *T) Nontrivial(key ...any) {
	h := fnv.New64a()
	for _, k := range key {
		fmt.Fprintf(h, "%v\x00", k)
	}
	t.keys = append(t.keys, h.Sum64())
}

// Tired says that a case has run for long: a loop of further probes then ends,
// so that many slow answers are not taken for a hang.
func (t *T) Tired() bool {
	if time.Since(t.began) > 6*time.Second {
		t.Label("cut-short")
		return true
	}
	return false
}

func (t *T) Eval() { t.evals++ }

func (t *T) Sample(f string, a ...any) {
	if len(t.samples) < 2 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		t.samples = append(t.samples, s)
	}
}

func (t *T) Discard() { panic(discard{}) }

// Outcome of running one case.
type outcome struct {
	fail    string // "" when the case passed
	discard bool
}

func runCase(p *Prop, t *T) (o outcome) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch v := r.(type) {
		case failure:
			o.fail = v.msg
		case discard:
			o.discard = true
		default:
			st := string(debug.Stack())
			// A panic in the code under test (or propagated through it).
			o.fail = fmt.Sprintf("panic: %v\n%s", r, trimStack(st))
		}
	}()
	p.Check(t)
	return
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "go-abnf.") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// harnessPanic tells a panic of the harness itself from one of the code under
// test: no frame of the library on the stack.
func harnessPanic(msg string) bool {
	return strings.HasPrefix(msg, "panic:") && !strings.Contains(msg, "/repo/") && !strings.Contains(msg, "go-abnf.")
}

// ---------------------------------------------------------------------------
// Shrinking
// ---------------------------------------------------------------------------

// shrink lowers tape while fails(tape) stays true. more() bounds the effort.
func shrink(tape []uint64, fails func([]uint64) ([]uint64, bool), more func() bool) []uint64 {
	best := append([]uint64(nil), tape...)
	try := func(c []uint64) bool {
		if used, ok := fails(c); ok {
			if len(used) < len(c) {
				c = used
			}
			best = append([]uint64(nil), c...)
			return true
		}
		return false
	}
	for improved := true; improved && more(); {
		improved = false
		// delete blocks
		for size := len(best) / 2; size >= 1 && more(); size /= 2 {
			for i := 0; i+size <= len(best) && more(); {
				c := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if try(c) {
					improved = true
				} else {
					i += max(1, size/2)
				}
			}
		}
		// zero blocks
		for size := 8; size >= 1 && more(); size /= 2 {
			for i := 0; i+size <= len(best) && more(); i += size {
				z := true
				for _, v := range best[i : i+size] {
					z = z && v == 0
				}
				if z {
					continue
				}
				c := append([]uint64(nil), best...)
				for k := i; k < i+size; k++ {
					c[k] = 0
				}
				if try(c) {
					improved = true
				}
			}
		}
		// lower single values
		for i := 0; i < len(best) && more(); i++ {
			lo, hi := uint64(0), best[i]
			for lo < hi && more() && i < len(best) {
				mid := lo + (hi-lo)/2
				c := append([]uint64(nil), best...)
				c[i] = mid
				if try(c) {
					improved = true
					if i >= len(best) {
						break
					}
					hi = best[i]
				} else {
					lo = mid + 1
				}
			}
		}
	}
	return best
}
