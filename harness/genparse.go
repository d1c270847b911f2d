package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Compiling and running generated parsers. Every parser becomes its own
// package; the packages of one batch and a driver are compiled with
// "go tool compile" against the standard library's export data and linked once,
// all inside the scratch directory.

func goEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOFLAGS=-mod=mod")
}

// setupStd writes the import configuration of the standard library.
func setupStd(scratch string) ([]string, error) {
	cfg := filepath.Join(scratch, "importcfg")
	mod := filepath.Join(scratch, "stdmod")
	if err := os.MkdirAll(mod, 0o755); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(mod, "go.mod"), []byte("module std0\ngo 1.24\n"), 0o644); err != nil {
		return nil, err
	}
	c := exec.Command("go", "list", "-export", "-deps", "-f", "{{if .Export}}packagefile {{.ImportPath}}={{.Export}}{{end}}",
		"errors", "math/big", "unicode/utf8", "fmt", "encoding/json", "bufio", "os", "time", "syscall", "bytes", "strings", "strconv", "sort", "unicode", "sync")
	c.Dir = mod
	c.Env = goEnv()
	var eb bytes.Buffer
	c.Stderr = &eb
	out, err := c.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, eb.String())
	}
	if err := os.WriteFile(cfg, out, 0o644); err != nil {
		return nil, err
	}
	return []string{"VPROP_IMPORTCFG=" + cfg}, nil
}

type gpQuery struct {
	P     int    `json:"p"`
	In    []byte `json:"in"`
	Max   int    `json:"max"` // MaxElements for this call; -1: leave
	Twice bool   `json:"twice"`
}

type gpAnswer struct {
	Err   string `json:"err"`
	Big   bool   `json:"big"` // ErrTooLarge
	Valid bool   `json:"valid"`
	Amb   bool   `json:"amb"`
	Trees string `json:"trees"`
	Tree  *PTree `json:"tree"`
	Elems int    `json:"elems"`
	Panic string `json:"panic"`
	Hang  bool   `json:"hang"`
}

const gpDriverHead = `package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"syscall"
	"time"
`

const gpDriverTail = `
type PTree struct {
	Rule       string
	Start, End int
	Kids       []*PTree
}

type query struct {
	P     int    ` + "`json:\"p\"`" + `
	In    []byte ` + "`json:\"in\"`" + `
	Max   int    ` + "`json:\"max\"`" + `
}

type answer struct {
	Err   string ` + "`json:\"err\"`" + `
	Big   bool ` + "`json:\"big\"`" + `
	Valid bool ` + "`json:\"valid\"`" + `
	Amb   bool ` + "`json:\"amb\"`" + `
	Trees string ` + "`json:\"trees\"`" + `
	Tree  *PTree ` + "`json:\"tree\"`" + `
	Elems int ` + "`json:\"elems\"`" + `
	Panic string ` + "`json:\"panic\"`" + `
	Hang  bool ` + "`json:\"hang\"`" + `
}

func cpu() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec) + float64(ru.Utime.Usec)/1e6
}

func main() {
	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	start := cpu()
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			if cpu()-start > 90 {
				fmt.Fprintln(os.Stderr, "HANG")
				os.Exit(98)
			}
		}
	}()
	for {
		var q query
		if err := dec.Decode(&q); err != nil {
			break
		}
		var a answer
		func() {
			defer func() {
				if r := recover(); r != nil {
					a.Panic = fmt.Sprint(r)
				}
			}()
			a = run[q.P](q.In, q.Max)
		}()
		_ = enc.Encode(a)
		w.Flush()
	}
}
`

const gpRunner = `
func conv%[1]d(t *p%[1]d.ParseTree) *PTree {
	if t == nil {
		return nil
	}
	o := &PTree{Rule: t.Rule, Start: t.Start, End: t.End}
	for _, c := range t.Children {
		o.Kids = append(o.Kids, conv%[1]d(c))
	}
	return o
}

func run%[1]d(in []byte, max int) (a answer) {
	old := p%[1]d.MaxElements
	if max >= 0 {
		p%[1]d.MaxElements = max
	}
	defer func() { p%[1]d.MaxElements = old }()
	r, err := p%[1]d.Parse(in)
	if err != nil {
		a.Err = err.Error()
		a.Big = err == p%[1]d.ErrTooLarge
		return
	}
	a.Valid, a.Amb, a.Trees, a.Elems = r.Valid(), r.Ambiguous(), r.NumTrees().String(), r.Elements()
	a.Tree = conv%[1]d(r.Tree())
	return
}
`

// gpBuild compiles the given sources (package p<i>) into one binary. bad is the
// index of a source that does not compile (-1: none), with the compiler's words.
func gpBuild(srcs [][]byte) (bin, dir string, bad int, msg string, err error) {
	dir, err = os.MkdirTemp(os.Getenv("VPROP_SCRATCH"), "gp-")
	if err != nil {
		return "", "", -1, "", err
	}
	std, err := os.ReadFile(os.Getenv("VPROP_IMPORTCFG"))
	if err != nil {
		return "", dir, -1, "", err
	}
	cfg := bytes.NewBuffer(std)
	var drv strings.Builder
	drv.WriteString(gpDriverHead)
	tool := func(a ...string) (string, error) {
		c := exec.Command("go", append([]string{"tool"}, a...)...)
		c.Dir = dir
		c.Env = goEnv()
		out, err := c.CombinedOutput()
		return string(out), err
	}
	for i, s := range srcs {
		f := filepath.Join(dir, fmt.Sprintf("p%d.go", i))
		if err = os.WriteFile(f, s, 0o644); err != nil {
			return "", dir, -1, "", err
		}
		o := filepath.Join(dir, fmt.Sprintf("p%d.a", i))
		out, cerr := tool("compile", "-p", fmt.Sprintf("gp/p%d", i), "-importcfg", os.Getenv("VPROP_IMPORTCFG"), "-pack", "-o", o, f)
		if cerr != nil {
			return "", dir, i, out, nil
		}
		fmt.Fprintf(cfg, "packagefile gp/p%d=%s\n", i, o)
		fmt.Fprintf(&drv, "\tp%d \"gp/p%d\"\n", i, i)
	}
	drv.WriteString(")\n")
	drv.WriteString("var run = []func([]byte, int) answer{")
	for i := range srcs {
		fmt.Fprintf(&drv, "run%d, ", i)
	}
	drv.WriteString("}\n")
	for i := range srcs {
		fmt.Fprintf(&drv, gpRunner, i)
	}
	drv.WriteString(gpDriverTail)
	mf := filepath.Join(dir, "main.go")
	cf := filepath.Join(dir, "cfg")
	if err = os.WriteFile(mf, []byte(drv.String()), 0o644); err != nil {
		return "", dir, -1, "", err
	}
	if err = os.WriteFile(cf, cfg.Bytes(), 0o644); err != nil {
		return "", dir, -1, "", err
	}
	mo := filepath.Join(dir, "main.a")
	if out, cerr := tool("compile", "-p", "main", "-importcfg", cf, "-pack", "-o", mo, mf); cerr != nil {
		return "", dir, -2, "the documented API of a generated parser is not there: " + out, nil
	}
	bin = filepath.Join(dir, "drv")
	if out, cerr := tool("link", "-importcfg", cf, "-s", "-w", "-o", bin, mo); cerr != nil {
		return "", dir, -1, "", fmt.Errorf("link: %s", out)
	}
	return bin, dir, -1, "", nil
}

// gpRun sends all queries to the driver.
func gpRun(bin string, qs []gpQuery) ([]gpAnswer, string, error) {
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, q := range qs {
		_ = enc.Encode(q)
	}
	c := exec.Command(bin)
	c.Stdin = &in
	c.Env = []string{"GOMEMLIMIT=3GiB"}
	var out, eb bytes.Buffer
	c.Stdout = &out
	c.Stderr = &limitBuf{b: &eb, max: 1 << 14}
	if err := c.Start(); err != nil {
		return nil, "", err
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(600 * time.Second):
		_ = c.Process.Kill()
		<-done
		return nil, "", fmt.Errorf("driver did not end within 600 s")
	}
	var ans []gpAnswer
	dec := json.NewDecoder(&out)
	for {
		var a gpAnswer
		if dec.Decode(&a) != nil {
			break
		}
		ans = append(ans, a)
	}
	if err != nil {
		return ans, eb.String(), nil
	}
	return ans, "", nil
}
