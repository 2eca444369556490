package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
)

// Native runs: the real code, compiled with the harness (or a confirmation program) overlaid.

var tmpDir string // scratch, removed at exit

func scratch() string {
	if tmpDir == "" {
		d, err := os.MkdirTemp("", "vengine")
		if err != nil {
			panic(err)
		}
		tmpDir = d
	}
	return tmpDir
}

func cleanup() {
	if tmpDir != "" {
		os.RemoveAll(tmpDir)
	}
}

var buildMu sync.Mutex
var buildN int

// buildTest compiles package sorty with files overlaid (an empty text hides a file).
func buildTest(files map[string]string, tags, goarch string, race bool) (string, error) {
	buildMu.Lock()
	buildN++
	dir := filepath.Join(scratch(), fmt.Sprint("b", buildN))
	buildMu.Unlock()
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	rep := map[string]string{}
	ts, _ := filepath.Glob(filepath.Join(repoDir, "*_test.go"))
	for _, t := range ts {
		rep[t] = ""
	}
	for k, v := range files {
		f := filepath.Join(dir, k)
		if err := os.WriteFile(f, []byte(v), 0o644); err != nil {
			return "", err
		}
		rep[filepath.Join(repoDir, k)] = f
	}
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(of, ov, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "t.test")
	args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", bin}
	if tags != "" {
		args = append(args, "-tags", tags)
	}
	cgo := "CGO_ENABLED=0"
	if race {
		args = append(args, "-race")
		cgo = "CGO_ENABLED=1"
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir = repoDir
	cmd.Env = goEnv("GOARCH="+goarch, cgo)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

// runTest runs a compiled test in a scratch directory; it is ended after limit.
func runTest(bin, test string, limit time.Duration, env ...string) (out string, timeout bool) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^"+test+"$", "-test.timeout", "0")
	cmd.Dir = filepath.Dir(bin)
	cmd.Env = append(os.Environ(), env...)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	cmd.WaitDelay = 2 * time.Second
	cmd.Run()
	return b.String(), ctx.Err() != nil
}

var harnessRe = regexp.MustCompile(`(?m)^func (v_\w+)\(\)\s*\{`)

type nativeBin struct {
	once sync.Once
	bin  string
	err  error
}

var natMu sync.Mutex
var natBins = map[*Program]*nativeBin{}

// harnessBin compiles the harness natively.
func harnessBin(P *Program) (string, error) {
	natMu.Lock()
	nb := natBins[P]
	if nb == nil {
		nb = &nativeBin{}
		natBins[P] = nb
	}
	natMu.Unlock()
	nb.once.Do(func() {
		files := map[string]string{}
		var reg strings.Builder
		reg.WriteString("package sorty\n\nimport \"testing\"\n\nfunc TestVRun(t *testing.T) {\n\tv_run(map[string]func(){\n")
		for k, v := range P.Files {
			files[k] = v
			for _, m := range harnessRe.FindAllStringSubmatch(v, -1) {
				fmt.Fprintf(&reg, "\t\t%q: %s,\n", m[1], m[1])
			}
		}
		reg.WriteString("\t})\n}\n")
		files["zz_v_reg_test.go"] = reg.String()
		nb.bin, nb.err = buildTest(files, P.tags, P.goarch, false)
	})
	return nb.bin, nb.err
}

type nativeResult struct {
	Fails []string
	Outs  []string
	Panic string
	Stop  string
	Done  bool
	Ran   bool
}

func writeJSON(v any) string {
	f, err := os.CreateTemp(scratch(), "j")
	if err != nil {
		panic(err)
	}
	b, _ := json.Marshal(v)
	f.Write(b)
	f.Close()
	return f.Name()
}

func runNative(P *Program, cases any, n int, limit time.Duration) ([]nativeResult, bool, error) {
	bin, err := harnessBin(P)
	if err != nil {
		return nil, false, err
	}
	out, to := runTest(bin, "TestVRun", limit, "VREPLAY="+writeJSON(cases))
	res := make([]nativeResult, n)
	cur := -1
	for _, l := range strings.Split(out, "\n") {
		k, v, _ := strings.Cut(l, " ")
		if k == "VCASE" {
			fmt.Sscan(v, &cur)
			res[cur].Ran = true
			continue
		}
		if cur < 0 {
			continue
		}
		r := &res[cur]
		switch k {
		case "VFAIL":
			r.Fails = append(r.Fails, v)
		case "VOUT":
			r.Outs = append(r.Outs, v)
		case "VPANIC":
			r.Panic = v
		case "VSTOP":
			r.Stop = v
		case "VDONE":
			r.Done = v == "true"
		case "fatal", "panic:":
			if r.Panic == "" {
				r.Panic = l
			}
		}
	}
	return res, to, nil
}
