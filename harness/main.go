package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Prop is one checked property.
type Prop struct {
	ID       string
	Rule     string // what a case is, and what makes it non-trivial
	Quick    int    // cases, quick tier
	Thorough int    // cases, thorough tier
	Workers  int    // 0 == default
	CPULimit float64
	Check    func(t *T)
	// Setup runs once in the parent before the workers (builds binaries into
	// scratch); env is handed to the workers.
	Setup func(scratch string) (env []string, err error)
	// Known are listed findings that are re-demonstrated on every run.
	Known       []Known
	Assumptions []string
	SlowShrink  bool
}

// Known is a recorded finding: Probe reports whether it still reproduces.
type Known struct {
	Text  string
	Probe func() bool
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

const (
	exitOK    = 0
	exitViol  = 1
	exitError = 2
	wFail     = 10
	wHang     = 98
	wRace     = 66 // GORACE exitcode, set by check.sh
	wMem      = 97
	wHarness  = 96
)

type report struct {
	Prop    string   `json:"property"`
	Tier    string   `json:"tier"`
	Seed    uint64   `json:"seed"`
	Index   int      `json:"case_index"`
	Kind    string   `json:"kind"`
	Msg     string   `json:"message"`
	Desc    []string `json:"case"`
	Tape    []uint64 `json:"tape"`
	Hint    []uint64 `json:"hint,omitempty"`
	OrigLen int      `json:"unshrunk_tape_len,omitempty"`
}

type workerStats struct {
	Evals    int            `json:"evals"`
	Cases    int            `json:"cases"`
	Discards int            `json:"discards"`
	Labels   map[string]int `json:"labels"`
	Samples  []string       `json:"samples"`
	MaxMS    int64          `json:"max_ms"`
	MaxIdx   int            `json:"max_idx"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vprop run|worker|shrink|replay|case ...")
		os.Exit(exitError)
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	dir := fs.String("dir", "", "")
	file := fs.String("file", "", "")
	cases := fs.Int("cases", 0, "")
	budget := fs.Float64("budget", 0, "")
	index := fs.Int("index", 0, "")
	root := fs.String("root", "/verif", "")
	_ = fs.Parse(os.Args[2:])
	var p *Prop
	if *id != "" {
		p = props[*id]
		if p == nil {
			fmt.Fprintln(os.Stderr, "unknown property", *id)
			os.Exit(exitError)
		}
	}
	switch mode {
	case "run":
		os.Exit(runParent(p, *tier, *seed, *cases, *budget, *root))
	case "worker":
		os.Exit(runWorker(p, *tier, *seed, *shard, *shards, *dir, *cases, *budget))
	case "shrink":
		os.Exit(runShrink(p, *tier, *file, *budget))
	case "replay":
		os.Exit(runReplay(*file))
	case "case":
		t := newT(*seed, p.ID, *index)
		setTier(t, *tier)
		runtime.GOMAXPROCS(2)
		startWatchdog(*dir, p)
		wdStart(*index, t)
		if f := os.Getenv("VPROF"); f != "" {
			w, _ := os.Create(f)
			_ = pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
		o := runCase(p, t)
		wdStop()
		fmt.Println(strings.Join(t.desc, "\n"))
		fmt.Println("fail:", o.fail, "discard:", o.discard, "evals:", t.evals, "labels:", t.labels)
		if o.fail != "" {
			os.Exit(1)
		}
	case "list":
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	default:
		os.Exit(exitError)
	}
}

func setTier(t *T, tier string) {
	t.Tier = tier
	t.thor = tier == "thorough"
}

// ---------------------------------------------------------------------------
// Watchdog: attributes hangs and memory blow-ups to the case in flight.
// ---------------------------------------------------------------------------

var (
	wdMu    sync.Mutex
	wdIdx   int
	wdCPU   float64
	wdLive  bool
	wdCase  *T
	rssMax  = int64(4) << 30
	wdLimit = 60.0
)

func cpuSeconds() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec) + float64(ru.Utime.Usec)/1e6 + float64(ru.Stime.Sec) + float64(ru.Stime.Usec)/1e6
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func startWatchdog(dir string, p *Prop) {
	if p.CPULimit > 0 {
		wdLimit = p.CPULimit
	}
	debug.SetMaxStack(768 << 20)
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			wdMu.Lock()
			live, idx, c0, ct := wdLive, wdIdx, wdCPU, wdCase
			wdMu.Unlock()
			if !live {
				continue
			}
			if cpuSeconds()-c0 > wdLimit {
				os.Stderr.WriteString(fmt.Sprintf("HANG case %d\n%s\n", idx, inFlight(ct)))
				os.Exit(wHang)
			}
			if rss() > rssMax {
				os.Stderr.WriteString(fmt.Sprintf("MEMORY case %d\n%s\n", idx, inFlight(ct)))
				os.Exit(wMem)
			}
		}
	}()
}

// inFlight describes the case that runs.
func inFlight(t *T) string {
	if t == nil {
		return ""
	}
	descMu.Lock()
	defer descMu.Unlock()
	s := strings.Join(t.desc, "\n")
	if len(s) > 6000 {
		s = s[:2000] + " ... " + s[len(s)-4000:]
	}
	return s
}

func wdStart(i int, t *T) {
	wdMu.Lock()
	wdLive, wdIdx, wdCPU, wdCase = true, i, cpuSeconds(), t
	wdMu.Unlock()
}

func wdStop() {
	wdMu.Lock()
	wdLive = false
	wdMu.Unlock()
}

// ---------------------------------------------------------------------------
// Worker
// ---------------------------------------------------------------------------

func runWorker(p *Prop, tier string, seed uint64, shard, shards int, dir string, cases int, budget float64) int {
	runtime.GOMAXPROCS(2)
	startWatchdog(dir, p)
	deadline := time.Now().Add(time.Duration(budget * float64(time.Second)))
	st := workerStats{Labels: map[string]int{}}
	base := filepath.Join(dir, fmt.Sprintf("w%d", shard))
	inflight, err := os.Create(base + ".inflight")
	if err != nil {
		return wHarness
	}
	kf, err := os.Create(base + ".keys")
	if err != nil {
		return wHarness
	}
	kw := bufio.NewWriter(kf)
	flush := func() {
		kw.Flush()
		kf.Close()
		b, _ := json.Marshal(st)
		_ = os.WriteFile(base+".stats", b, 0o644)
	}
	for i := shard; i < cases; i += shards {
		if time.Now().After(deadline) {
			break
		}
		fmt.Fprintf(&sliceWriter{inflight}, "%-20d", i)
		t := newT(seed, p.ID, i)
		setTier(t, tier)
		t0 := time.Now()
		wdStart(i, t)
		o := runCase(p, t)
		wdStop()
		if ms := time.Since(t0).Milliseconds(); ms > st.MaxMS {
			st.MaxMS, st.MaxIdx = ms, i
		}
		st.Cases++
		st.Evals += t.evals
		for k, v := range t.labels {
			st.Labels[k] += v
		}
		if o.discard {
			st.Discards++
			continue
		}
		if len(st.Samples) < 3 && len(t.keys) > 0 {
			st.Samples = append(st.Samples, t.samples...)
		}
		for _, k := range t.keys {
			fmt.Fprintf(kw, "%x\n", k)
		}
		if o.fail != "" {
			kind := "fail"
			if harnessPanic(o.fail) {
				fmt.Fprintln(os.Stderr, "harness panic in case", i, o.fail)
				flush()
				return wHarness
			}
			r := report{Prop: p.ID, Tier: tier, Seed: seed, Index: i, Kind: kind, Msg: o.fail, Desc: t.desc, Tape: t.tape, Hint: t.hint}
			b, _ := json.Marshal(r)
			_ = os.WriteFile(base+".fail", b, 0o644)
			flush()
			return wFail
		}
	}
	flush()
	return 0
}

type sliceWriter struct{ f *os.File }

func (s *sliceWriter) Write(b []byte) (int, error) { return s.f.WriteAt(b, 0) }

// ---------------------------------------------------------------------------
// Parent
// ---------------------------------------------------------------------------

func runParent(p *Prop, tier string, seed uint64, cases int, budget float64, root string) int {
	start := time.Now()
	if cases == 0 {
		cases = p.Quick
		if tier == "thorough" {
			cases = p.Thorough
		}
	}
	if budget == 0 {
		budget = 240
		if tier == "thorough" {
			budget = 3600
		}
	}
	workers := p.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
		if workers > 8 {
			workers = 8
		}
	}
	scratch, err := os.MkdirTemp("", "vprop-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	defer os.RemoveAll(scratch)
	env := append(os.Environ(), "VPROP_SCRATCH="+scratch, "VPROP_SEED="+strconv.FormatUint(seed, 10))
	if p.Setup != nil {
		e, err := p.Setup(scratch)
		if err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			return exitError
		}
		env = append(env, e...)
	}
	evPath := filepath.Join(root, "evidence", p.ID+".json")
	_ = os.MkdirAll(filepath.Dir(evPath), 0o755)
	_ = os.Remove(evPath)

	for _, k := range p.Known {
		if k.Probe() {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.Text)
		}
	}

	self, _ := os.Executable()
	type res struct {
		shard, code int
		stderr      string
	}
	ch := make(chan res, workers)
	cmds := make([]*exec.Cmd, workers)
	for s := 0; s < workers; s++ {
		c := exec.Command(self, "worker", "-prop", p.ID, "-tier", tier, "-seed", strconv.FormatUint(seed, 10),
			"-shard", strconv.Itoa(s), "-shards", strconv.Itoa(workers), "-dir", scratch,
			"-cases", strconv.Itoa(cases), "-budget", fmt.Sprint(budget))
		c.Env = env
		var eb bytes.Buffer
		c.Stderr = &limitBuf{b: &eb, max: 1 << 16}
		c.Stdout = os.Stderr
		if err := c.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitError
		}
		cmds[s] = c
		go func(s int) {
			err := c.Wait()
			code := 0
			if err != nil {
				code = c.ProcessState.ExitCode()
				if code == 0 {
					code = wHarness
				}
			}
			ch <- res{s, code, eb.String()}
		}(s)
	}
	var bad []res
	for n := 0; n < workers; n++ {
		r := <-ch
		if r.code != 0 {
			bad = append(bad, r)
			if len(bad) == 1 {
				for i, c := range cmds {
					if i != r.shard && c.Process != nil {
						_ = c.Process.Kill()
					}
				}
			}
		}
	}

	// Merge statistics.
	tot := workerStats{Labels: map[string]int{}}
	keys := map[string]struct{}{}
	for s := 0; s < workers; s++ {
		base := filepath.Join(scratch, fmt.Sprintf("w%d", s))
		var st workerStats
		if b, err := os.ReadFile(base + ".stats"); err == nil && json.Unmarshal(b, &st) == nil {
			tot.Cases += st.Cases
			tot.Evals += st.Evals
			tot.Discards += st.Discards
			for k, v := range st.Labels {
				tot.Labels[k] += v
			}
			if len(tot.Samples) < 12 {
				tot.Samples = append(tot.Samples, st.Samples...)
			}
			if st.MaxMS > tot.MaxMS {
				tot.MaxMS, tot.MaxIdx = st.MaxMS, st.MaxIdx
			}
		}
		if f, err := os.Open(base + ".keys"); err == nil {
			sc := bufio.NewScanner(f)
			for sc.Scan() {
				keys[sc.Text()] = struct{}{}
			}
			f.Close()
		}
	}

	exit := exitOK
	violations := 0
	if len(bad) > 0 {
		r := bad[0]
		rep, verdict := classify(p, tier, seed, r.code, r.stderr, r.shard, scratch, env)
		if verdict == exitViol {
			violations = 1
			exit = exitViol
			var path string
			path, rep = writeReplay(root, p, rep, env, scratch)
			fmt.Printf("%s\n", rep.Msg)
			for _, d := range rep.Desc {
				fmt.Println("  ", d)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		} else {
			fmt.Fprintf(os.Stderr, "check error (worker exit %d): %s\n", r.code, r.stderr)
			exit = exitError
		}
	}
	if tot.Evals == 0 {
		tot.Evals = tot.Cases
	}
	if len(tot.Samples) > 12 {
		tot.Samples = tot.Samples[:12]
	}
	smp := make([]any, 0, len(tot.Samples))
	for _, s := range tot.Samples {
		smp = append(smp, s)
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         tot.Evals,
			"cases":               tot.Cases,
			"cases_planned":       cases,
			"discarded":           tot.Discards,
			"distinct_nontrivial": len(keys),
			"rule":                p.Rule,
			"samples":             smp,
			"labels":              tot.Labels,
			"slowest_case_ms":     tot.MaxMS,
			"slowest_case":        tot.MaxIdx,
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(evPath, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	if exit == exitOK {
		fmt.Printf("ok %s tier=%s seed=%d cases=%d evaluations=%d distinct_nontrivial=%d discards=%d slowest=%dms(#%d) wall=%.1fs\n",
			p.ID, tier, seed, tot.Cases, tot.Evals, len(keys), tot.Discards, tot.MaxMS, tot.MaxIdx, time.Since(start).Seconds())
	}
	return exit
}

type limitBuf struct {
	b   *bytes.Buffer
	max int
}

func (l *limitBuf) Write(p []byte) (int, error) {
	if l.b.Len() < l.max {
		n := min(len(p), l.max-l.b.Len())
		l.b.Write(p[:n])
	}
	return len(p), nil
}

// classify turns a worker's abnormal end into a violation or a check error.
func classify(p *Prop, tier string, seed uint64, code int, stderr string, shard int, scratch string, env []string) (report, int) {
	base := filepath.Join(scratch, fmt.Sprintf("w%d", shard))
	if code == wFail {
		var rep report
		b, err := os.ReadFile(base + ".fail")
		if err != nil || json.Unmarshal(b, &rep) != nil {
			return rep, exitError
		}
		return rep, exitViol
	}
	kind := ""
	switch {
	case code == wHang:
		kind = "hang"
	case code == wMem:
		kind = "memory"
	case code == 2 && strings.Contains(stderr, "stack overflow") && libFrames(stderr):
		kind = "stack overflow"
	case code == 2 && strings.Contains(stderr, "fatal error:") && libFrames(stderr) &&
		!strings.Contains(stderr, "out of memory"):
		kind = "fatal error"
	case code == 2 && strings.Contains(stderr, "panic:") && libFrames(stderr):
		kind = "panic in a goroutine"
	case code == wRace && strings.Contains(stderr, "DATA RACE") && libFrames(stderr):
		kind = "data race"
	default:
		return report{}, exitError
	}
	b, err := os.ReadFile(base + ".inflight")
	if err != nil {
		return report{}, exitError
	}
	idx, err := strconv.Atoi(strings.TrimSpace(string(b)))
	if err != nil {
		return report{}, exitError
	}
	where := fmt.Sprintf("re-run: vprop case -prop %s -tier %s -seed %d -index %d", p.ID, tier, seed, idx)
	if kind == "data race" {
		// The detector only reports accesses that happened; no need to repeat.
		return report{Prop: p.ID, Tier: tier, Seed: seed, Index: idx, Kind: kind,
			Msg: "data race: two goroutines use the library at the same time\n" + headLines(stderr, 60), Desc: []string{where}}, exitViol
	}
	// Confirm alone: the case must end the same way again.
	self, _ := os.Executable()
	c := exec.Command(self, "case", "-prop", p.ID, "-tier", tier, "-seed", strconv.FormatUint(seed, 10), "-index", strconv.Itoa(idx), "-dir", scratch)
	c.Env = env
	var eb bytes.Buffer
	c.Stderr = &limitBuf{b: &eb, max: 1 << 16}
	c.Stdout = &limitBuf{b: &bytes.Buffer{}, max: 1 << 16}
	_ = c.Run()
	if c.ProcessState == nil {
		return report{}, exitError
	}
	if again := c.ProcessState.ExitCode(); again != code && !(code != 2 && (again == wHang || again == wMem)) {
		return report{}, exitError
	}
	msg := fmt.Sprintf("%s: the case does not finish (%s)\n%s", kind, kind, headLines(stderr, 12))
	if kind == "hang" {
		msg = fmt.Sprintf("hang: one case used more than %.0f s of CPU time, twice\n%s", limitOf(p), headLines(stderr, 30))
	}
	return report{Prop: p.ID, Tier: tier, Seed: seed, Index: idx, Kind: kind, Msg: msg,
		Desc: []string{where}}, exitViol
}

// libFrames: the library is on some stack of a crash report.
func libFrames(stderr string) bool {
	return strings.Contains(stderr, "pandatix/go-abnf.") || strings.Contains(stderr, "/repo/")
}

func limitOf(p *Prop) float64 {
	if p.CPULimit > 0 {
		return p.CPULimit
	}
	return wdLimit
}

func headLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func writeReplay(root string, p *Prop, rep report, env []string, scratch string) (string, report) {
	dir := filepath.Join(root, "replays")
	_ = os.MkdirAll(dir, 0o755)
	if rep.Kind == "fail" {
		f := filepath.Join(scratch, "toshrink.json")
		b, _ := json.Marshal(rep)
		_ = os.WriteFile(f, b, 0o644)
		self, _ := os.Executable()
		c := exec.Command(self, "shrink", "-prop", p.ID, "-tier", rep.Tier, "-file", f, "-budget", "25")
		c.Env = env
		c.Stderr = os.Stderr
		done := make(chan error, 1)
		if c.Start() == nil {
			go func() { done <- c.Wait() }()
			select {
			case <-done:
			case <-time.After(90 * time.Second):
				_ = c.Process.Kill()
			}
		}
		var r2 report
		if b, err := os.ReadFile(f); err == nil && json.Unmarshal(b, &r2) == nil && r2.Prop == rep.Prop {
			rep = r2
		}
	}
	h := fnv.New32a()
	fmt.Fprintf(h, "%v%v", rep.Tape, rep.Msg)
	path := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", p.ID, h.Sum32()))
	b, _ := json.MarshalIndent(rep, "", " ")
	_ = os.WriteFile(path, b, 0o644)
	return path, rep
}

func failClass(msg string) string {
	if i := strings.IndexAny(msg, ":\n"); i > 0 {
		return msg[:i]
	}
	return msg
}

func runShrink(p *Prop, tier, file string, budget float64) int {
	startWatchdog("", p)
	b, err := os.ReadFile(file)
	if err != nil {
		return exitError
	}
	var rep report
	if json.Unmarshal(b, &rep) != nil {
		return exitError
	}
	deadline := time.Now().Add(time.Duration(budget * float64(time.Second)))
	tries := 0
	limit := 20000
	if p.SlowShrink {
		limit = 120
	}
	class := failClass(rep.Msg)
	rep.OrigLen = len(rep.Tape)
	save := func() {
		b, _ := json.Marshal(rep)
		_ = os.WriteFile(file+".tmp", b, 0o644)
		_ = os.Rename(file+".tmp", file)
	}
	try := func(tape []uint64) ([]uint64, bool) {
		tries++
		t := replayT(tape)
		setTier(t, tier)
		wdStart(tries, t)
		o := runCase(p, t)
		wdStop()
		if o.fail == "" || failClass(o.fail) != class || harnessPanic(o.fail) {
			return nil, false
		}
		rep.Msg, rep.Desc, rep.Tape = o.fail, t.desc, append([]uint64(nil), t.tape...)
		save()
		return t.tape, true
	}
	start := rep.Tape
	if h := rep.Hint; h != nil {
		rep.Hint = nil
		if used, ok := try(h); ok {
			start = used
		}
	}
	shrink(start, try, func() bool { return time.Now().Before(deadline) && tries < limit })
	save()
	return 0
}

func runReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	var rep report
	if err := json.Unmarshal(b, &rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	p := props[rep.Prop]
	if p == nil {
		return exitError
	}
	var t *T
	if len(rep.Tape) > 0 {
		t = replayT(rep.Tape)
	} else {
		t = newT(rep.Seed, rep.Prop, rep.Index)
	}
	setTier(t, rep.Tier)
	if p.Setup != nil {
		scratch, err := os.MkdirTemp("", "vprop-replay-")
		if err != nil {
			return exitError
		}
		defer os.RemoveAll(scratch)
		os.Setenv("VPROP_SCRATCH", scratch)
		env, err := p.Setup(scratch)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitError
		}
		for _, e := range env {
			k, v, _ := strings.Cut(e, "=")
			os.Setenv(k, v)
		}
	}
	o := runCase(p, t)
	fmt.Println(strings.Join(t.desc, "\n"))
	if o.fail != "" {
		fmt.Println(o.fail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Prop, file)
		return exitViol
	}
	fmt.Println("the replayed case passes")
	return exitOK
}
