package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	goabnf "github.com/pandatix/go-abnf"
)

// C21: the command-line tools give what the library gives.

func init() {
	register(&Prop{
		ID: "C21", Quick: 900, Thorough: 30000,
		Setup: setupCLI,
		Rule: "a case is a grammar text (random, styled, mutated or from the totality generator) and six command lines of pap (validate, generate, regex, transition-graph) or abnf-gen with random flags, the text given on stdin or in a file. " +
			"Oracle: the library called in this process with the same text and options: same output and exit 0, or exit 1, nothing on stdout and the error on stderr; output files exactly the generated parser, or untouched on an error. " +
			"Non-trivial: the command succeeds with output; distinct by grammar and command line.",
		Check:    checkC21,
		CPULimit: 120,
	})
}

func setupCLI(scratch string) ([]string, error) {
	repo := os.Getenv("VPROP_REPO")
	if repo == "" {
		repo = "/repo"
	}
	c := exec.Command("go", "build", "-o", scratch+"/", "./cmd/pap", "./cmd/abnf-gen")
	c.Dir = repo
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOWORK=") && !strings.HasPrefix(e, "GOFLAGS=") {
			c.Env = append(c.Env, e)
		}
	}
	c.Env = append(c.Env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=")
	if out, err := c.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("building the tools: %v: %s", err, out)
	}
	return nil, nil
}

type cliResult struct {
	out, err []byte
	code     int
}

func runCLI(t *T, stdin []byte, name string, args ...string) cliResult {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, filepath.Join(os.Getenv("VPROP_SCRATCH"), name), args...)
	var o, e bytes.Buffer
	c.Stdin, c.Stdout, c.Stderr = bytes.NewReader(stdin), &o, &e
	err := c.Run()
	if ctx.Err() != nil {
		t.Failf("no end within 100 s")
	}
	var x *exec.ExitError
	if err != nil && !errors.As(err, &x) {
		// the tool may end without reading its input
		if c.ProcessState == nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
	}
	return cliResult{o.Bytes(), e.Bytes(), c.ProcessState.ExitCode()}
}

// mermaidSig: a flowchart up to the names of its nodes and the order of its lines.
func mermaidSig(s string) string {
	type node struct {
		label string
		col   uint64
		next  []string
		prev  []string
	}
	nodes := map[string]*node{}
	at := func(id string) *node {
		if nodes[id] == nil {
			nodes[id] = &node{}
		}
		return nodes[id]
	}
	var rest []string
	var ids [][]string
	lines := strings.Split(s, "\n")
	for _, l := range lines {
		f := uuidRe.FindAllString(l, -1)
		ids = append(ids, f)
		if len(f) == 2 {
			at(f[0]).next = append(at(f[0]).next, f[1])
			at(f[1]).prev = append(at(f[1]).prev, f[0])
		} else if len(f) == 1 {
			n := at(f[0])
			n.label += uuidRe.ReplaceAllString(l, "ID")
		}
	}
	h := func(parts ...any) uint64 {
		x := fnv.New64a()
		fmt.Fprint(x, parts...)
		return x.Sum64()
	}
	for _, n := range nodes {
		n.col = h(n.label)
	}
	cols := func(l []string) []uint64 {
		var c []uint64
		for _, x := range l {
			c = append(c, nodes[x].col)
		}
		sort.Slice(c, func(i, j int) bool { return c[i] < c[j] })
		return c
	}
	for k := 0; k < min(len(nodes), 12); k++ {
		nc := map[string]uint64{}
		for id, n := range nodes {
			nc[id] = h(n.col, cols(n.next), "|", cols(n.prev))
		}
		for id, c := range nc {
			nodes[id].col = c
		}
	}
	for i, l := range lines {
		for _, id := range ids[i] {
			l = strings.Replace(l, id, fmt.Sprintf("<%x>", nodes[id].col), 1)
		}
		rest = append(rest, l)
	}
	sort.Strings(rest)
	return strings.Join(rest, "\n")
}

func checkC21(t *T) {
	if t.Pct(2) { // no seed: a random one, out of 256 at the least
		t.Eval()
		t.Say("command: pap generate --rulename=a (no seed)")
		got := map[string]bool{}
		for k := 0; k < 6; k++ {
			r := runCLI(t, []byte("a = 24ALPHA\r\n"), "pap", "generate", "--rulename=a")
			if r.code != 0 {
				t.Failf("exit %d (%.300q)", r.code, r.err)
			}
			got[string(r.out)] = true
		}
		if len(got) == 1 {
			t.Failf("6 runs without a seed all give %v", got)
		}
		return
	}
	var text []byte
	var rules []string
	kind := t.W(50, 15, 20, 15)
	g := genGrammar(t, GenOpt{MaxRules: 3, MaxDepth: 2, MaxAlts: 2, MaxCats: 3, Core: true, MaxCount: 3, Acyclic: t.Pct(75), Prose: t.Pct(6)})
	for _, r := range g.Rules {
		rules = append(rules, r.Name)
	}
	switch kind {
	case 0:
		text = []byte(g.Text())
	case 1:
		text = styled(t, g, 20)
	case 2:
		text = mutateText(t, []byte(g.Text()))
	case 3: // what only validation refuses, or core rules given anew
		text = []byte(g.Text() + []string{"zz = undefined-rule\r\n", "zz = %x110000\r\n", "zz = 3*1\"a\"\r\n", "ALPHA = \"a\"\r\n", "zz = zz\r\n", "a = \"b\"\r\n", "zz = %x43-41\r\n"}[t.N(7)])
		rules = append(rules, "zz")
	}
	if t.Pct(4) { // a longer text
		text = append(text, []byte(strings.Repeat(";"+strings.Repeat("-", 90)+"\r\n", 8))...)
	}
	t.Say("grammar text: %.400q", text)
	dir, err := os.MkdirTemp(os.Getenv("VPROP_SCRATCH"), "cli-")
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "g.abnf")
	if err := os.WriteFile(file, text, 0o600); err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	for k := 0; k < 6; k++ {
		if t.Tired() {
			return
		}
		cliOnce(t, text, rules, dir, file)
	}
}

// boolFlag writes a flag that may be left out, and gives its value.
func boolFlag(t *T, name string, deflt bool) ([]string, bool) {
	switch t.N(4) {
	case 0:
		return nil, deflt
	case 1:
		return []string{"--" + name + "=false"}, false
	case 2:
		return []string{"--" + name}, true
	}
	return []string{"--" + name + "=true"}, true
}

func cliOnce(t *T, text []byte, rules []string, dir, file string) {
	// the input
	var args []string
	var stdin []byte
	gone := false
	rule := casing(t, rules[t.N(len(rules))])
	if t.Pct(6) {
		rule = "no-such-rule"
	}
	if t.Pct(5) {
		rule = "digit"
	}
	cmd := t.W(25, 25, 20, 25, 25)
	if cmd < 4 {
		switch t.W(40, 15, 40, 5) {
		case 0:
			stdin = text
		case 1:
			stdin, args = text, []string{"--input", "-"}
		case 2:
			args = []string{"--input", file}
			stdin = []byte("x = %%% not this\r\n")
		case 3:
			args, gone = []string{"--input=" + filepath.Join(dir, "absent")}, true
		}
	}
	if cmd >= 1 && cmd < 4 {
		if t.Bool() {
			args = append(args, "--rulename", rule)
		} else {
			args = append([]string{"--rulename=" + rule}, args...)
		}
	}
	var want string // on success
	var wantErr error
	norm := func(s string) string { return s }
	check := func(r cliResult) {}
	parse := func(opts ...goabnf.ABNFOption) *goabnf.Grammar {
		if gone {
			wantErr = errors.New("absent")
			return nil
		}
		var lg *goabnf.Grammar
		lg, wantErr = goabnf.ParseABNF(text, opts...)
		return lg
	}
	name := "pap"
	switch cmd {
	case 0:
		f, v := boolFlag(t, "sem-val", true)
		args = append(append([]string{"validate"}, args...), f...)
		if lg := parse(goabnf.WithValidation(v)); lg != nil {
			want = lg.PrettyPrint() + "\n"
		}
		norm = linesSorted
	case 1:
		args = append([]string{"generate"}, args...)
		var opts []goabnf.GenerateOption
		if t.Pct(40) {
			v := []int{0, 1, 2, 3, 5, 20, -1}[t.N(7)]
			args = append(args, "--rep-max="+strconv.Itoa(v))
			opts = append(opts, goabnf.WithRepMax(v))
		}
		if t.Pct(40) {
			v := []int{0, 1, 2, 3, 10, 64, -1}[t.N(7)]
			args = append(args, "--threshold", strconv.Itoa(v))
			if v < 0 {
				args = append(args[:len(args)-2], "--threshold="+strconv.Itoa(v))
			}
			opts = append(opts, goabnf.WithThreshold(v))
		}
		seeded := t.Pct(85)
		seed := []int64{0, 1, 2, -1, 255, 256, 1 << 40, -1 << 63, 1<<63 - 1}[t.N(9)]
		if t.Bool() {
			seed = int64(t.N(1 << 30))
		}
		if seeded {
			args = append(args, "--seed="+strconv.FormatInt(seed, 10))
		}
		if lg := parse(); lg != nil {
			if heavyRule(lg, rule) {
				return
			}
			var w []byte
			w, wantErr = lg.Generate(seed, rule, opts...)
			want = string(w) + "\n"
			if !seeded && wantErr == nil {
				norm = nil
				check = func(r cliResult) {
					o := r.out
					if len(o) == 0 || o[len(o)-1] != '\n' {
						t.Failf("output %.200q is no line", o)
					}
					if len(o) < 60 {
						if ok, err := lg.IsValid(rule, o[:len(o)-1]); err != nil || !ok {
							t.Failf("%q was generated, which the rule does not derive (%v)", o, err)
						}
					}
				}
			}
		}
	case 2:
		args = append([]string{"regex"}, args...)
		if lg := parse(); lg != nil {
			if _, err := lg.Regex(rule, goabnf.WithMaxRegexLen(100000)); err != nil {
				var tl *goabnf.ErrRegexTooLarge
				if errors.As(err, &tl) {
					return
				}
			}
			want, wantErr = lg.Regex(rule)
			want += "\n"
		}
	case 3:
		args = append([]string{"transition-graph"}, args...)
		var o tgOpts
		f, v := boolFlag(t, "deflate-rules", false)
		args, o.rules = append(args, f...), v
		f, v = boolFlag(t, "deflate-charvals", false)
		args, o.chars = append(args, f...), v
		f, v = boolFlag(t, "deflate-numvals", false)
		args, o.nums = append(args, f...), v
		opts := []goabnf.TGOption{goabnf.WithDeflateRules(o.rules), goabnf.WithDeflateCharVals(o.chars), goabnf.WithDeflateNumVals(o.nums)}
		if t.Pct(40) {
			n := []int{0, 1, 2, 3, 100, 1000}[t.N(6)]
			args = append(args, "--repetition-threshold="+strconv.Itoa(n))
			opts = append(opts, goabnf.WithRepetitionThreshold(n))
		}
		if lg := parse(); lg != nil {
			_, err := lg.TransitionGraph(rule, append(opts, goabnf.WithMaxNodes(300))...)
			var tl *goabnf.ErrMaxNodesExceeded
			if errors.As(err, &tl) {
				return
			}
			var tg *goabnf.TransitionGraph
			tg, wantErr = lg.TransitionGraph(rule, opts...)
			if wantErr == nil {
				want = tg.ToMermaid() + "\n"
			}
		}
		norm = mermaidSig
	case 4:
		name = "abnf-gen"
		pkg := []string{"p", "parser", "x9", "not-a-name", "func", "_"}[t.W(40, 20, 20, 4, 4, 4)]
		in := file
		if t.Pct(5) {
			in, gone = filepath.Join(dir, "absent"), true
		}
		args = []string{"-in", in, "-root=" + rule, "-pkg", pkg}
		var opts []goabnf.ABNFOption
		switch t.N(4) {
		case 0:
			args = append(args, "-no-validate")
			opts = append(opts, goabnf.WithValidation(false))
		case 1:
			args = append(args, "-no-validate=false")
		}
		var code []byte
		if gone {
			wantErr = errors.New("absent")
		} else {
			code, wantErr = goabnf.GenerateGoParserFromABNF(text, rule, pkg, opts...)
		}
		want = string(code)
		if t.Bool() {
			out := filepath.Join(dir, "out.go")
			old := []byte("// old\n")
			if t.Bool() {
				old = bytes.Repeat([]byte("// an older, longer file\n"), 4000)
			}
			bad := t.Pct(6)
			if bad {
				out = filepath.Join(dir, "no-such-folder", "out.go")
			} else if err := os.WriteFile(out, old, 0o600); err != nil {
				panic(fmt.Sprintf("harness: %v", err))
			}
			fresh := !bad && t.Pct(30)
			if fresh {
				os.Remove(out)
			}
			args = append(args, "-out="+out)
			want = ""
			if bad && wantErr == nil {
				wantErr = errors.New("no-such-folder")
			}
			failed := wantErr != nil
			check = func(r cliResult) {
				got, err := os.ReadFile(out)
				switch {
				case bad:
				case failed && fresh:
					if err == nil {
						t.Failf("an output file is made in spite of the error")
					}
				case failed:
					if !bytes.Equal(got, old) {
						t.Failf("the output file changed in spite of the error")
					}
				case !bytes.Equal(got, code):
					t.Failf("the output file (%d bytes) is not the generated parser (%d bytes)", len(got), len(code))
				}
			}
		} else if t.Bool() {
			args = append(args, "-out", "-")
		}
	}
	misuse := ""
	if t.Pct(4) { // command lines that cannot be carried out
		switch k := t.N(3); {
		case k == 0:
			misuse = "--no-such-flag"
			args = append(args, misuse)
		case k == 1 && cmd == 1:
			misuse = "--rep-max=many"
			args = append(args, misuse)
		default:
			var rest []string
			for i := 0; i < len(args); i++ {
				switch {
				case args[i] == "--rulename":
					i++
					misuse = "no rulename"
				case strings.HasPrefix(args[i], "--rulename="), strings.HasPrefix(args[i], "-root="):
					misuse = "no rulename"
				default:
					rest = append(rest, args[i])
				}
			}
			args = rest
		}
	}
	t.Eval()
	line := name + " " + strings.Join(args, " ")
	r := runCLI(t, stdin, name, args...)
	defer func() {
		if x := recover(); x != nil {
			t.Say("command: %s", line)
			panic(x)
		}
	}()
	if misuse != "" {
		if r.code == 0 || len(bytes.TrimSpace(r.err)) == 0 {
			t.Failf("%s: exit %d, message %.200q", misuse, r.code, r.err)
		}
		t.Label("misuse")
		return
	}
	if wantErr != nil {
		if r.code != 1 {
			t.Failf("exit %d where the library reports %v", r.code, wantErr)
		}
		if len(r.out) != 0 {
			t.Failf("output %.200q in spite of the error %v", r.out, wantErr)
		}
		if len(bytes.TrimSpace(r.err)) == 0 {
			t.Failf("no message for the error %v", wantErr)
		}
		check(r)
		t.Label(args[0] + "-error")
		return
	}
	if r.code != 0 {
		t.Failf("exit %d (%.300q) where the library succeeds", r.code, r.err)
	}
	if norm != nil {
		if a, b := norm(string(r.out)), norm(want); a != b {
			t.Failf("output %.300q, the library gives %.300q", r.out, want)
		}
	}
	check(r)
	if cmd == 4 {
		t.Label("abnf-gen")
	} else {
		t.Label(args[0])
	}
	t.Nontrivial(string(text), strings.Join(strings.Split(line, dir), ""))
	t.Sample("%s | %.120q", strings.Join(strings.Split(line, dir), "DIR"), r.out)
}
