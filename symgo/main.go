package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var verbose bool

// pkgDir is the package under test: "deflect", or what a "// PACKAGE:" line of the harness says.
var pkgDir = "deflect"

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

// outDir is where evidence and replay files go (development runs on copies do not touch /verif).
func outDir() string {
	if repoDir != "/repo" {
		return filepath.Join(os.TempDir(), "symgo-dev")
	}
	return verifDir
}

func loadProgram(files []string) (*program, error) {
	ov := map[string][]byte{}
	for dst, src := range overlayFiles(repoDir, pkgDir, files) {
		raw, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = raw
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repoDir,
		Env:        append(goEnv(), "CGO_ENABLED=0"),
		BuildFlags: []string{"-tags=noasm,safe"},
		Overlay:    ov,
	}
	pkgs, err := packages.Load(cfg, "./"+pkgDir)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	mainPkgPath = pkgs[0].PkgPath
	prog, ssaPkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &program{prog: prog, main: ssaPkgs[0], sizes: pkgs[0].TypesSizes, allowed: map[*ssa.Package]bool{},
		encoded: map[string]bool{}, unsup: map[string]int{}}
	p.main.Build()
	for _, sp := range prog.AllPackages() {
		path := sp.Pkg.Path()
		if allowedPath(path) || path == "fmt" {
			sp.Build()
		}
		if allowedPath(path) && !strings.HasPrefix(path, "strconv") && path != "bytes" {
			p.allowed[sp] = true
		}
	}
	// the initialiser of the package under test runs those of its (allowed) imports
	p.initPkgs = []*ssa.Package{p.main}
	return p, nil
}

func harnessNames(p *program, prefix string) []string {
	var names []string
	for n, mem := range p.main.Members {
		if f, ok := mem.(*ssa.Function); ok && strings.HasPrefix(n, prefix) && f.Signature.Params().Len() == 0 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	return names
}

func harnessDoc(files []string) map[string]string { return map[string]string{} }

var _ = ast.Print

type options struct {
	fp       bool
	valid    int
	qt       int
	limit    int64
	thorough bool
}

func main() {
	flag.BoolVar(&verbose, "v", false, "verbose")
	only := flag.String("only", "", "run only harnesses with this prefix")
	budget := flag.Int("budget", 0, "seconds")
	workers := flag.Int("j", 8, "workers")
	flag.StringVar(&verifDir, "verif", "/verif", "verification directory")
	flag.StringVar(&repoDir, "repo", "/repo", "repository (development only)")
	replay := flag.String("replay", "", "replay a violation file natively")
	flag.Parse()
	if flag.NArg() < 1 {
		fmt.Println("usage: symgo [flags] PROPERTY")
		os.Exit(2)
	}
	os.Exit(check(flag.Arg(0), *only, *budget, *workers, *replay))
}

func check(prop, only string, budget, workers int, replay string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	thorough := tier == "thorough"
	if budget == 0 {
		budget = 240
		if thorough {
			budget = 780
		}
	}
	scratch, err := os.MkdirTemp("", "symgo-"+prop+"-")
	if err != nil {
		fmt.Println("cannot create scratch directory:", err)
		return 2
	}
	defer os.RemoveAll(scratch)

	own, _ := filepath.Glob(filepath.Join(verifDir, "harness", strings.ToLower(prop)+"_*.go"))
	sort.Strings(own)
	files := []string{filepath.Join(verifDir, "harness", "lib.go")}
	common := "common*.go"
	if dir := harnessPackage(own); dir != "" {
		lib, err := os.ReadFile(files[0])
		if err != nil {
			fmt.Println(err)
			return 2
		}
		pkgDir = dir
		common = dir + "_common*.go"
		files[0] = filepath.Join(scratch, "lib.go")
		if err := os.WriteFile(files[0], []byte(strings.Replace(string(lib), "package deflect", "package "+dir, 1)), 0o644); err != nil {
			fmt.Println(err)
			return 2
		}
	}
	more, _ := filepath.Glob(filepath.Join(verifDir, "harness", common))
	files = append(files, more...)
	files = append(files, own...)
	if len(own) == 0 {
		fmt.Println("no harness for", prop)
		return 2
	}
	ex := &explorer{prop: prop, hs: map[string]*harness{}, cands: map[string]int{}, knownHit: map[string]bool{},
		validCount: map[string]int{}, fnSeen: map[string]bool{}, seed: int64(seed), thorough: thorough,
		qTimeout: 5000, validMax: 4, rawBudget: 400}
	if thorough {
		ex.qTimeout, ex.validMax, ex.rawBudget = 20000, 20, 4000
	}
	ex.known = loadKnown(filepath.Join(verifDir, "known-findings.txt"))
	ev := &evidence{ex: ex, prop: prop, tier: tier, seed: seed, t0: t0, commit: repoCommit()}

	p, err := loadProgram(files)
	if err != nil {
		fmt.Println("REDUCED: the harness does not build against this tree:", err)
		ev.loadErr = err.Error()
		ev.write()
		return 0
	}
	ex.p = p
	hp := "vh" + strings.ToUpper(prop[:1]) + prop[1:] + "_"
	names := harnessNames(p, "V"+hp)
	if only != "" {
		names = harnessNames(p, "V"+hp+only)
	}
	ex.native = newNative(repoDir, pkgDir, mainPkgPath, files, harnessNames(p, "V"+hp), scratch)
	if replay != "" {
		return doReplay(ex, replay)
	}
	ex.deadline = t0.Add(time.Duration(budget) * time.Second)
	for _, n := range names {
		h := &harness{name: n, fn: p.main.Func(n), covers: map[string]int{}, stats: map[string]int64{}, inconcl: map[string]int{}}
		h.fp = strings.HasSuffix(n, "_FP")
		if strings.HasSuffix(n, "_Thorough") && !thorough {
			continue
		}
		ex.hs[n] = h
		ex.queue = append(ex.queue, job{h, nil})
	}
	ev.loadS = time.Since(t0).Seconds()
	go ex.native.once.Do(func() { ex.native.err = ex.native.build() })
	ex.run(workers)
	ev.write()
	for _, n := range sortedStrKeys(ex.hs) {
		h := ex.hs[n]
		fmt.Printf("%-44s paths=%d complete=%d asserts=%d %.1fs", n, h.paths, h.done, h.asserts, h.secs)
		for _, c := range sortedStrKeys(h.covers) {
			fmt.Printf(" %s=%d", c, h.covers[c])
		}
		fmt.Println()
		for _, s := range sortedStrKeys(h.inconcl) {
			fmt.Printf("    REDUCED (%d): %s\n", h.inconcl[s], s)
		}
		if h.done == 0 && ex.viol == nil {
			fmt.Printf("    VACUOUS: no path completes\n")
		}
	}
	for _, s := range ex.mismatch {
		fmt.Println("ENCODING-MISMATCH:", s)
	}
	fmt.Printf("%s: queries=%d (sat %d, unsat %d, unknown %d) solver=%.1fs validated=%d diverged=%d wall=%.1fs\n", prop,
		stats.queries, stats.sat, stats.unsat, stats.unknown, float64(stats.nanos)/1e9, ex.validated, ex.diverged, time.Since(t0).Seconds())
	for _, k := range sortedStrKeys(ex.knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	if ex.viol != nil {
		fmt.Printf("%s/%s: %s\n", ex.viol.harness, ex.viol.label, ex.viol.detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, ex.viol.replay)
		return 1
	}
	return 0
}

// harnessPackage returns the package named by a "// PACKAGE: dir" line.
func harnessPackage(files []string) string {
	for _, f := range files {
		raw, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(raw), "\n") {
			if d, ok := strings.CutPrefix(l, "// PACKAGE:"); ok {
				return strings.TrimSpace(d)
			}
		}
	}
	return ""
}

func doReplay(ex *explorer, path string) int {
	raw, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(raw, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	res := ex.native.replay(&rf)
	fmt.Println(res.summary)
	if res.failed {
		fmt.Println("reproduced:", res.failLabel)
		return 1
	}
	for _, l := range res.log {
		if rf.Small && l.kind == "eq" && l.label == rf.Label && math.Abs(l.a-l.b) > 1e-3*(math.Abs(l.a)+math.Abs(l.b)) {
			fmt.Printf("reproduced: %s: %.9g vs %.9g\n", l.label, l.a, l.b)
			return 1
		}
	}
	return 0
}

func repoCommit() string {
	out, err := exec.Command("git", "-C", repoDir, "rev-parse", "--short", "HEAD").Output()
	if err != nil {
		return "?"
	}
	return strings.TrimSpace(string(out))
}

func loadKnown(path string) []knownFinding {
	raw, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(raw), "\n") {
		// finding: property=C01 at=<harness/label prefix> text
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		f := strings.Fields(l)
		k := knownFinding{}
		for i, w := range f[1:] {
			switch {
			case strings.HasPrefix(w, "property="):
				k.Property = strings.TrimPrefix(w, "property=")
			case strings.HasPrefix(w, "at="):
				k.Pattern = strings.TrimPrefix(w, "at=")
				k.Text = strings.Join(f[i+2:], " ")
			}
		}
		out = append(out, k)
	}
	return out
}

type evidence struct {
	ex      *explorer
	prop    string
	tier    string
	seed    int
	t0      time.Time
	loadS   float64
	loadErr string
	commit  string
}

func (e *evidence) write() {
	ex := e.ex
	var fns []string
	for f := range ex.fnSeen {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var own, dep []string
	for _, f := range fns {
		if strings.Contains(f, ".Vvh") || strings.Contains(f, ".vx") {
			continue
		}
		if strings.Contains(f, "lubgr/deflect") {
			own = append(own, strings.ReplaceAll(f, "github.com/lubgr/deflect/", ""))
		} else {
			dep = append(dep, f)
		}
	}
	hs := map[string]any{}
	var reduced []string
	var asserts int64
	for n, h := range ex.hs {
		hs[n] = map[string]any{"paths": h.paths, "complete": h.done, "assertions_decided": h.asserts, "reachability_witnesses": h.covers,
			"infeasible_paths": h.stats["infeasible"], "cpu_s": h.secs}
		asserts += h.asserts
		for s, c := range h.inconcl {
			reduced = append(reduced, fmt.Sprintf("%s: %s (%d)", n, s, c))
		}
		if h.done == 0 {
			reduced = append(reduced, n+": no path completed")
		}
	}
	sort.Strings(reduced)
	sort.Strings(ex.mismatch)
	samples := ex.samples
	if samples == nil {
		samples = []any{}
	}
	if len(samples) == 0 {
		for n := range ex.hs {
			samples = append(samples, "harness "+n)
			break
		}
	}
	cov := map[string]any{
		"states":                            ex.states,
		"transitions":                       ex.transitions,
		"traces_validated_against_impl":     ex.validated,
		"samples":                           samples,
		"states_are":                        "decision points reached by symbolic execution (branches, choices, iteration orders)",
		"transitions_are":                   "SSA instructions executed symbolically",
		"harnesses":                         hs,
		"assertions_decided":                asserts,
		"queries":                           map[string]any{"total": stats.queries, "sat": stats.sat, "unsat": stats.unsat, "unknown": stats.unknown},
		"identities_confirmed_on_raw_terms": ex.rawOK,
		"identities_raw_unknown":            ex.rawUnk,
		"solver":                            "z3 5.3.2 (z3-new -in), cvc5 1.1.2 for unknowns",
		"solver_s":                          float64(stats.nanos) / 1e9,
		"load_s":                            e.loadS,
		"functions_encoded":                 own,
		"dependency_functions_encoded":      len(dep),
		"native_replays":                    0,
		"reduced":                           reduced,
		"encoding_mismatches":               ex.mismatch,
		"native_traces_diverged":            ex.diverged,
		"repo_commit":                       e.commit,
	}
	if ex.native != nil {
		cov["native_replays"] = ex.native.runs
	}
	if e.loadErr != "" {
		cov["reduced"] = []string{"harness does not build against this tree: " + e.loadErr}
	}
	if b := boundsOf(e.prop); b != "" {
		cov["bounds"] = b
	}
	if ex.strForced != 0 {
		cov["string_candidates"] = "strings the code looks inside take these values only: a name of their own, a constant or string they were compared with, and (two of them per path) a, A, ab, empty, 1, é"
	}
	out := map[string]any{"property": e.prop, "tier": e.tier, "seed": e.seed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(e.t0).Seconds()}
	raw, _ := json.MarshalIndent(out, "", " ")
	os.MkdirAll(filepath.Join(outDir(), "evidence"), 0o755)
	os.WriteFile(filepath.Join(outDir(), "evidence", e.prop+".json"), raw, 0o644)
}

// boundsOf extracts the "// BOUNDS:" comment block of the harness files.
func boundsOf(prop string) string {
	own, _ := filepath.Glob(filepath.Join(verifDir, "harness", strings.ToLower(prop)+"_*.go"))
	var sb []string
	for _, f := range own {
		raw, _ := os.ReadFile(f)
		in := false
		for _, l := range strings.Split(string(raw), "\n") {
			if strings.HasPrefix(l, "// BOUNDS:") {
				in = true
				sb = append(sb, strings.TrimSpace(strings.TrimPrefix(l, "// BOUNDS:")))
				continue
			}
			if in && strings.HasPrefix(l, "//") {
				sb = append(sb, strings.TrimSpace(strings.TrimPrefix(l, "//")))
				continue
			}
			in = false
		}
	}
	return strings.Join(sb, " ")
}

var _ = types.Identical
