package main

// Native replay: the same harness compiled against the real code.

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

type nativeRunner struct {
	bin   string
	dir   string
	once  sync.Once
	err   error
	build func() error
	mu    sync.Mutex
	n     int
	runs  int
}

type nativeLog struct {
	kind, label string
	a, b        float64
}

type nativeResult struct {
	ok        bool
	failed    bool
	failLabel string
	summary   string
	log       []nativeLog
}

// overlayFiles returns the overlay for the harness files of one property.
func overlayFiles(repo, pkgDir string, files []string) map[string]string {
	ov := map[string]string{}
	for _, f := range files {
		ov[filepath.Join(repo, pkgDir, "zz_verif_"+filepath.Base(f))] = f
	}
	return ov
}

func newNative(repo, pkgDir, pkgPath string, files []string, harnesses []string, scratch string) *nativeRunner {
	r := &nativeRunner{dir: scratch, bin: filepath.Join(scratch, "replay")}
	r.build = func() error {
		ov := overlayFiles(repo, pkgDir, files)
		var sb strings.Builder
		fmt.Fprintf(&sb, "package main\n\nimport deflect %q\n\nfunc main() {\n\tdeflect.VfMain(map[string]func(){\n", pkgPath)
		for _, h := range harnesses {
			fmt.Fprintf(&sb, "\t\t%q: deflect.%s,\n", h, h)
		}
		sb.WriteString("\t})\n}\n")
		mf := filepath.Join(scratch, "main.go")
		if err := os.WriteFile(mf, []byte(sb.String()), 0o644); err != nil {
			return err
		}
		ov[filepath.Join(repo, "zz_verif_cmd", "main.go")] = mf
		raw, _ := json.Marshal(map[string]any{"Replace": ov})
		of := filepath.Join(scratch, "overlay.json")
		if err := os.WriteFile(of, raw, 0o644); err != nil {
			return err
		}
		cmd := exec.Command("go", "build", "-overlay", of, "-o", r.bin, "./zz_verif_cmd")
		cmd.Dir = repo
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("native build: %v\n%s", err, out)
		}
		return nil
	}
	return r
}

func (r *nativeRunner) replay(rf *replayFile) nativeResult {
	r.once.Do(func() { r.err = r.build() })
	if r.err != nil {
		return nativeResult{summary: r.err.Error()}
	}
	r.mu.Lock()
	r.n++
	r.runs++
	f := filepath.Join(r.dir, fmt.Sprintf("in%d.json", r.n))
	r.mu.Unlock()
	raw, _ := json.Marshal(rf)
	os.WriteFile(f, raw, 0o644)
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin, f)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2GiB")
	out, err := cmd.Output()
	res := nativeResult{}
	if ctx.Err() != nil {
		return nativeResult{ok: true, failed: true, failLabel: "timeout", summary: "native run did not terminate within 20 s"}
	}
	for _, l := range strings.Split(string(out), "\n") {
		switch {
		case strings.HasPrefix(l, "LOG "):
			p := strings.SplitN(l, " ", 5)
			if len(p) < 5 {
				continue
			}
			a, _ := strconv.ParseUint(p[2], 16, 64)
			b, _ := strconv.ParseUint(p[3], 16, 64)
			res.log = append(res.log, nativeLog{p[1], p[4], math.Float64frombits(a), math.Float64frombits(b)})
		case strings.HasPrefix(l, "FAIL "):
			res.failed = true
			res.failLabel = strings.TrimPrefix(l, "FAIL ")
			for i := len(res.log) - 1; i >= 0; i-- {
				if res.log[i].label == res.failLabel && res.log[i].kind == "eq" {
					res.summary = fmt.Sprintf("%s: %.9g vs %.9g; ", res.failLabel, res.log[i].a, res.log[i].b)
				}
			}
		case strings.HasPrefix(l, "END "):
			res.ok = true
			res.summary += l
			if strings.HasPrefix(l, "END assume") && !res.failed {
				res.failed = false
				res.ok = false
			}
		}
	}
	if err != nil && !res.ok {
		res.summary = fmt.Sprintf("%v %s", err, out)
		if ee, ok := err.(*exec.ExitError); ok && len(ee.Stderr) > 0 {
			res.summary += string(ee.Stderr[:min(len(ee.Stderr), 400)])
			if strings.Contains(string(ee.Stderr), "fatal error: ") || strings.Contains(string(ee.Stderr), "panic:") {
				res.ok, res.failed, res.failLabel = true, true, "crash"
			}
		}
	}
	return res
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

func runCVC5(script string, ms int) satResult {
	cmd := exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-")
	cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + script + "(check-sat)\n")
	out, _ := cmd.Output()
	switch strings.TrimSpace(string(out)) {
	case "sat":
		return resSat
	case "unsat":
		return resUnsat
	}
	return resUnknown
}
