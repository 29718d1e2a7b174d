package main

// Path exploration: every path is re-executed from the start with a prefix of decisions.

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type job struct {
	h      *harness
	prefix []int
}

type harness struct {
	name    string
	fn      *ssa.Function
	fp      bool
	paths   int64
	done    int64
	vacuous bool
	asserts int64
	covers  map[string]int
	stats   map[string]int64
	inconcl map[string]int
	pending int64
	running int // workers on it now
	secs    float64
	limit   int64
	cut     int64
}

type violation struct {
	harness, label string
	replay         string
	detail         string
}

type explorer struct {
	strForced int32 // the code looked inside symbolic strings
	p        *program
	prop     string
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []job
	active   int
	stop     bool
	deadline time.Time
	hs       map[string]*harness
	viol     *violation
	cands    map[string]int // candidates per label that did not reproduce
	known    []knownFinding
	knownHit map[string]bool
	native   *nativeRunner
	samples  []any
	transitions int64
	states      int64
	validated   int64
	diverged    int64
	mismatch    []string
	validMax    int
	validCount  map[string]int
	qTimeout    int
	thorough    bool
	rawOK, rawUnk int64
	normOK        int64
	trivOK        int64
	seed     int64
	fnSeen   map[string]bool
	funcsMu  sync.Mutex
	rawBudget int64
}

type worker struct {
	s   solver
	rnd *rand.Rand
}

func (ex *explorer) push(j job) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, j)
	atomic.AddInt64(&j.h.pending, 1)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *explorer) run(nworkers int) {
	ex.cond = sync.NewCond(&ex.mu)
	var wg sync.WaitGroup
	for i := 0; i < nworkers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &worker{rnd: rand.New(rand.NewSource(ex.seed*1000 + int64(i)))}
			defer w.s.close()
			for {
				ex.mu.Lock()
				for len(ex.queue) == 0 && ex.active > 0 && !ex.stop {
					ex.cond.Wait()
				}
				if ex.stop || len(ex.queue) == 0 {
					ex.mu.Unlock()
					ex.cond.Broadcast()
					return
				}
				j := ex.pick(w)
				ex.active++
				ex.mu.Unlock()
				if time.Now().After(ex.deadline) {
					ex.note(j.h, "time budget exhausted: path not explored")
					atomic.AddInt64(&j.h.cut, 1)
				} else if j.h.limit > 0 && atomic.LoadInt64(&j.h.paths) >= j.h.limit {
					ex.note(j.h, "path budget exhausted: path not explored")
					atomic.AddInt64(&j.h.cut, 1)
				} else {
					ex.runPath(w, j)
				}
				ex.mu.Lock()
				ex.active--
				j.h.running--
				atomic.AddInt64(&j.h.pending, -1)
				ex.mu.Unlock()
				ex.cond.Broadcast()
			}
		}(i)
	}
	wg.Wait()
}

// pick takes the next path from the queue: one of the harness that used the least time so far, so that
// an expensive harness does not starve the others; its latest path or, every second time, any of its
// paths, so that a search which is cut short has seen different parts of the space.
func (ex *explorer) pick(w *worker) job {
	var best *harness
	last, n := -1, 0
	for i, j := range ex.queue {
		load := j.h.secs + float64(j.h.running)
		if best == nil || (j.h != best && load < best.secs+float64(best.running)) {
			best, n = j.h, 0
		}
		if j.h == best {
			last = i
			n++
		}
	}
	at := last
	if w.rnd.Intn(2) == 0 {
		k := w.rnd.Intn(n)
		for i, j := range ex.queue {
			if j.h == best {
				if k == 0 {
					at = i
					break
				}
				k--
			}
		}
	}
	j := ex.queue[at]
	ex.queue = append(ex.queue[:at], ex.queue[at+1:]...)
	best.running++
	return j
}

func (ex *explorer) note(h *harness, s string) {
	ex.mu.Lock()
	h.inconcl[s]++
	ex.mu.Unlock()
}

func (ex *explorer) halt() {
	ex.mu.Lock()
	ex.stop = true
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

func (ex *explorer) newMachine(w *worker, h *harness, prefix []int) *machine {
	m := &machine{p: ex.p, ex: ex, w: w, c: newTctx(), fpMode: h.fp,
		globals: map[*ssa.Global]*value{}, prefix: prefix, maxStep: 6000000,
		names: map[string]int{}, mapPol: "fixed", fnSeen: map[*ssa.Function]bool{}, harness: h.name}
	m.c.g.budget = 40000000
	return m
}

func (ex *explorer) runPath(w *worker, j job) {
	t0 := time.Now()
	h := j.h
	m := ex.newMachine(w, h, j.prefix)
	outcome := m.execute(h)
	atomic.AddInt64(&h.paths, 1)
	atomic.AddInt64(&ex.states, int64(len(m.trace)-len(j.prefix)+1))
	atomic.AddInt64(&ex.transitions, int64(m.steps))
	ex.mu.Lock()
	h.secs += time.Since(t0).Seconds()
	for f := range m.fnSeen {
		ex.fnSeen[f.String()] = true
	}
	ex.mu.Unlock()
	if verbose {
		fmt.Printf("  path %s len=%d %s (%.2fs, %d steps)\n", h.name, len(m.trace), outcome, time.Since(t0).Seconds(), m.steps)
	}
	switch {
	case outcome == "done":
		atomic.AddInt64(&h.done, 1)
		ex.maybeValidate(m, h)
	case outcome == "infeasible":
		ex.mu.Lock()
		h.stats["infeasible"]++
		ex.mu.Unlock()
	case strings.HasPrefix(outcome, "panic"):
	default:
		ex.note(h, outcome)
	}
}

// execute runs the harness along one path.
func (m *machine) execute(h *harness) (outcome string) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathInfeasible:
				outcome = "infeasible"
			case pathUnsupported:
				outcome = "unsupported: " + r.msg
			case pathStop:
				outcome = "stopped: " + r.msg
			case engineErr:
				outcome = "engine error: " + r.msg
			case targetPanic:
				outcome = m.uncaught(h, r)
			default:
				if os.Getenv("SYMGO_DEBUG") != "" {
					panic(r)
				}
				outcome = fmt.Sprintf("engine error: %v", r)
			}
		}
	}()
	m.phase = "init"
	m.initPackages()
	m.phase = "run"
	m.fnSeen = map[*ssa.Function]bool{}
	m.callSSA(nil, 0, h.fn, nil, nil)
	return "done"
}

func (m *machine) uncaught(h *harness, tp targetPanic) (outcome string) {
	if m.phase == "init" {
		return "unsupported: panic in init: " + m.render(tp.v)
	}
	defer func() {
		if r := recover(); r != nil {
			outcome = fmt.Sprintf("unsupported: after panic: %v", r)
		}
	}()
	msg := m.render(tp.v)
	if strings.HasPrefix(msg, "vf:") {
		return "unsupported: " + msg
	}
	m.candidate("panic", nil, "panic: "+msg+" at "+tp.pos)
	return "panic " + msg
}

func (m *machine) initPackages() {
	for _, p := range m.p.initPkgs {
		m.runInit(p)
	}
}

func (m *machine) runInit(p *ssa.Package) {
	fn := p.Func("init")
	if fn == nil {
		return
	}
	m.callSSA(nil, 0, fn, nil, nil)
}

// decisions -----------------------------------------------------------------------------------------

// next returns a recorded decision.
func (m *machine) next() (int, bool) {
	i := len(m.trace)
	if i < len(m.prefix) {
		m.trace = append(m.trace, m.prefix[i])
		return m.prefix[i], true
	}
	return 0, false
}

func (m *machine) fork(alts ...int) {
	for _, a := range alts {
		p := append(append([]int{}, m.trace...), a)
		m.ex.push(job{m.ex.hs[m.harness], p})
	}
}

func (m *machine) truth(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return m.branch(v)
	case opaque:
		panic(pathUnsupported{"branch on opaque value " + v.s})
	}
	panic(pathUnsupported{fmt.Sprintf("branch on %T", v)})
}

func (m *machine) addPC(t *Term) {
	if t == m.c.tTrue {
		return
	}
	m.pc = append(m.pc, t)
	m.c.learn(t, true)
}

func (m *machine) check(t *Term, timeout int) satResult {
	script, _ := m.c.buildScript(m.pc, []*Term{t}, nil, nil)
	r, _ := m.w.s.run(script, timeout, nil)
	return r
}

func (m *machine) branch(t *Term) bool {
	if v, ok := m.c.decided(t); ok {
		return v
	}
	if d, ok := m.next(); ok {
		if d == 1 {
			m.addPC(t)
			return true
		}
		m.addPC(m.c.not(t))
		return false
	}
	m.timeCheck()
	nt := m.c.not(t)
	rt := m.check(t, m.ex.qTimeout)
	var rf satResult
	if rt == resUnsat {
		rf = resSat // PC is satisfiable
	} else {
		rf = m.check(nt, m.ex.qTimeout)
	}
	switch {
	case rt == resUnsat && rf == resUnsat:
		panic(pathInfeasible{})
	case rt == resUnsat:
		m.trace = append(m.trace, 0)
		m.addPC(nt)
		return false
	case rf == resUnsat:
		m.trace = append(m.trace, 1)
		m.addPC(t)
		return true
	}
	m.fork(0)
	m.trace = append(m.trace, 1)
	m.addPC(t)
	return true
}

func (m *machine) timeCheck() {
	if time.Now().After(m.ex.deadline) {
		panic(pathStop{"time budget exhausted"})
	}
	m.ex.mu.Lock()
	s := m.ex.stop
	m.ex.mu.Unlock()
	if s {
		panic(pathStop{"stopped"})
	}
}

func (m *machine) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	if d, ok := m.next(); ok {
		return d
	}
	m.timeCheck()
	for k := n - 1; k >= 1; k-- {
		m.fork(k)
	}
	m.trace = append(m.trace, 0)
	return 0
}

func (m *machine) assume(v value) {
	t := m.toTerm(v)
	if b, ok := m.c.decided(t); ok {
		if !b {
			panic(pathInfeasible{})
		}
		return
	}
	if _, ok := m.next(); ok {
		m.addPC(t)
		return
	}
	if m.check(t, m.ex.qTimeout) == resUnsat {
		panic(pathInfeasible{})
	}
	m.trace = append(m.trace, 1)
	m.addPC(t)
}

// assertions ----------------------------------------------------------------------------------------

// assert decides "cond holds on this path"; diff (optional) is a real term that must vanish.
func (m *machine) assertTerm(label string, t *Term, a, b *Term) {
	h := m.ex.hs[m.harness]
	if _, ok := m.next(); ok {
		return // already discharged on the path this one was forked from
	}
	m.trace = append(m.trace, 1)
	atomic.AddInt64(&h.asserts, 1)
	if t == m.c.tTrue {
		atomic.AddInt64(&m.ex.trivOK, 1)
		return
	}
	if t != m.c.tFalse {
		nt := m.c.not(t)
		if v, ok := m.c.decided(t); ok && v && a != nil {
			// equal normal forms: let the solver confirm on the raw terms where it can
			m.rawConfirm(a, b)
			if len(m.c.eqs) > 0 && t.op == OpEq && len(m.c.atomPoly(t)) > 0 {
				// zero only modulo the equalities of the path
				atomic.AddInt64(&m.ex.normOK, 1)
				return
			}
			script, _ := m.c.buildScript(m.pc, []*Term{nt}, nil, nil)
			if r, _ := m.w.s.run(script, m.ex.qTimeout, nil); r == resUnsat {
				atomic.AddInt64(&m.ex.normOK, 1)
				return
			}
		}
		script, _ := m.c.buildScript(m.pc, []*Term{nt}, nil, nil)
		r, _ := m.w.s.run(script, m.ex.qTimeout*2, nil)
		if r == resUnsat {
			atomic.AddInt64(&m.ex.normOK, 1)
			return
		}
		if r == resUnknown {
			r = m.retryUnknown(nt)
			if r == resUnsat {
				atomic.AddInt64(&m.ex.normOK, 1)
				m.addPC(t)
				return
			}
		}
	}
	if a != nil && os.Getenv("SYMGO_CAND") != "" {
		fmt.Println("   a =", a, "\n   b =", b)
	}
	m.candidate(label, t, "", a, b)
	if t == m.c.tFalse {
		panic(pathStop{"assertion fails on the whole path: " + label})
	}
	if m.check(t, m.ex.qTimeout) == resUnsat {
		panic(pathStop{"assertion fails on the whole path: " + label})
	}
	m.addPC(t)
}

func (m *machine) retryUnknown(nt *Term) satResult {
	script, _ := m.c.buildScript(m.pc, []*Term{nt}, nil, nil)
	for _, tac := range []string{"(check-sat-using (then simplify propagate-values solve-eqs qfnra-nlsat))", "cvc5"} {
		if tac == "cvc5" {
			if r := runCVC5(script, m.ex.qTimeout*2); r != resUnknown {
				return r
			}
			continue
		}
		s := &m.w.s
		r, _ := s.run(script+tac+"\n", m.ex.qTimeout*2, nil)
		if r != resUnknown {
			return r
		}
	}
	return resUnknown
}

// rawConfirm asks the solver to confirm an identity on the un-normalised terms (bounded effort).
func (m *machine) rawConfirm(a, b *Term) {
	if atomic.AddInt64(&m.ex.rawBudget, -1) < 0 {
		return
	}
	if a.sort != SReal || a.isSpecial() || b.isSpecial() || len(m.c.defs) > 0 {
		return
	}
	defer func() { recover() }()
	sc := m.c.newScript()
	sa, sb := sc.valSMT(a), sc.valSMT(b)
	if len(sc.lets) > 400 {
		return
	}
	var head strings.Builder
	var names []string
	for _, v := range sortedSet(sc.rvars) {
		names = append(names, m.c.g.vars[v].name)
	}
	full, _ := m.c.buildScript(m.pc, []*Term{m.c.tTrue}, nil, names)
	// declarations of full must cover the raw variables: add missing ones
	head.WriteString(full)
	head.WriteString(sc.defs.String())
	// denominators are non-zero
	for _, d := range collectDens(a, b) {
		fmt.Fprintf(&head, "(assert (not (= %s 0.0)))\n", sc.valSMT(d))
	}
	fmt.Fprintf(&head, "(assert (not (= %s %s)))\n", sa, sb)
	r, _ := m.w.s.run(head.String(), 250, nil)
	switch r {
	case resUnsat:
		atomic.AddInt64(&m.ex.rawOK, 1)
	case resUnknown:
		atomic.AddInt64(&m.ex.rawUnk, 1)
	case resSat:
		m.ex.mu.Lock()
		m.ex.mismatch = append(m.ex.mismatch, "raw query of a normalised identity is satisfiable: "+m.harness)
		m.ex.mu.Unlock()
	}
}

func collectDens(ts ...*Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			rec(a)
		}
		if t.op == OpDiv && !t.args[1].isC() {
			out = append(out, t.args[1])
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return out
}

// counterexamples -----------------------------------------------------------------------------------

type replayFile struct {
	Property string             `json:"property"`
	Harness  string             `json:"harness"`
	Label    string             `json:"label"`
	Detail   string             `json:"detail"`
	Repeat   int                `json:"repeat"`
	Floats   map[string]string  `json:"floats"` // hex float
	Shown    map[string]float64 `json:"shown,omitempty"`
	Ints     map[string]int     `json:"ints"`
	Strs     map[string]string  `json:"strs"`
	Bools    map[string]bool    `json:"bools"`
	Failing  string             `json:"failing,omitempty"`
	Small    bool               `json:"small,omitempty"` // the deviation is below the absolute tolerance
}

// candidate: PC and not(t) may be satisfiable (t nil: PC alone). Find a model and replay it natively.
func (m *machine) candidate(label string, t *Term, detail string, sides ...*Term) {
	ex := m.ex
	key := m.harness + "/" + label
	ex.mu.Lock()
	n := ex.cands[key]
	ex.cands[key]++
	ex.mu.Unlock()
	if n >= 12 {
		ex.note(ex.hs[m.harness], "more unreproduced candidates for "+label)
		return
	}
	if os.Getenv("SYMGO_CAND") != "" {
		fmt.Printf("candidate %s: %v %s\n", key, t, detail)
		for _, p := range m.pc {
			fmt.Println("   pc", p)
		}
	}
	tried := map[string]bool{}
	for attempt := 0; attempt < 8; attempt++ {
		env := m.findModel(t, attempt)
		if env == nil {
			continue
		}
		rf := m.makeReplay(env, label, detail)
		raw, _ := json.Marshal(rf)
		if tried[string(raw)] {
			continue
		}
		tried[string(raw)] = true
		res := ex.native.replay(rf)
		if !res.failed && res.ok && (attempt < 4 || attempt > 5) && len(sides) == 2 && sides[0] != nil && sides[1] != nil {
			m.smallDeviation(rf, &res, label, m.evalF(sides[0], env), m.evalF(sides[1], env))
		}
		if res.failed {
			rf.Failing = res.failLabel
			ex.report(rf, res)
			return
		}
		if os.Getenv("SYMGO_CAND") != "" {
			fmt.Printf("unreproduced candidate %s attempt %d: %s\n   native: %s\n", key, attempt, raw, res.summary)
		}
	}
	ex.note(ex.hs[m.harness], "candidate not reproduced natively: "+label+" "+detail)
}

// smallDeviation accepts a native run whose deviation is within the comparator's absolute tolerance,
// if it is the deviation that the model predicts: large compared to the values themselves, far above
// rounding noise, and met by the native values to three digits.
func (m *machine) smallDeviation(rf *replayFile, res *nativeResult, label string, a, b float64) {
	dev := math.Abs(a - b)
	scale := 1.0
	for _, v := range rf.Shown {
		scale = max(scale, math.Abs(v))
	}
	if !(dev > 1e-3*(math.Abs(a)+math.Abs(b))) || !(dev > 1e-12*scale) || math.IsInf(dev, 0) {
		return
	}
	for _, l := range res.log {
		if l.kind == "eq" && l.label == label && math.Abs(l.a-a) <= 1e-3*dev && math.Abs(l.b-b) <= 1e-3*dev {
			res.failed, res.failLabel = true, label
			res.summary = fmt.Sprintf("%s: %.9g vs %.9g; %s", label, l.a, l.b, res.summary)
			rf.Small = true
			return
		}
	}
}

func (m *machine) makeReplay(env map[string]any, label, detail string) *replayFile {
	rf := &replayFile{Property: m.ex.prop, Harness: m.harness, Label: label, Detail: detail, Repeat: 1,
		Floats: map[string]string{}, Ints: map[string]int{}, Strs: map[string]string{}, Bools: map[string]bool{}, Shown: map[string]float64{}}
	if m.mapPol != "fixed" {
		rf.Repeat = 200
	}
	put := func(n string, f float64) {
		rf.Floats[n] = fmt.Sprintf("%x", math.Float64bits(f))
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			rf.Shown[n] = f
		}
	}
	for _, in := range m.inputs {
		switch in.kind {
		case "int":
			rf.Ints[in.name] = in.i
		case "bool":
			rf.Bools[in.name] = in.b
		case "real", "fp":
			put(in.name, m.evalF(in.t, env))
		case "str":
			if s, ok := env[in.t.name].(string); ok {
				rf.Strs[in.name] = s
			}
		}
	}
	return rf
}

// evalF evaluates a real/fp term numerically under a model.
func (m *machine) evalF(t *Term, env map[string]any) float64 {
	memo := map[int]float64{}
	return m.evalMemo(t, env, memo, 0)
}

func (m *machine) evalMemo(t *Term, env map[string]any, memo map[int]float64, depth int) float64 {
	if depth > 5000 {
		return math.NaN()
	}
	if v, ok := memo[t.id]; ok {
		return v
	}
	var r float64
	ev := func(i int) float64 { return m.evalMemo(t.args[i], env, memo, depth+1) }
	switch t.op {
	case OpVar:
		if t.sort == SReal {
			if s := m.c.g.vars[t.vid].subst; s != nil {
				r = m.evalRF(s, env)
				break
			}
		}
		if v, ok := env[t.name]; ok {
			r, _ = v.(float64)
		} else {
			r = m.defaultVal(t)
		}
	case OpConst:
		if t.sort == SFP {
			r = t.f
		} else {
			r, _ = t.rat.Float64()
		}
	case OpNaN:
		r = math.NaN()
	case OpPInf:
		r = math.Inf(1)
	case OpNInf:
		r = math.Inf(-1)
	case OpAdd:
		r = ev(0) + ev(1)
	case OpSub:
		r = ev(0) - ev(1)
	case OpMul:
		r = ev(0) * ev(1)
	case OpDiv:
		r = ev(0) / ev(1)
	case OpNeg:
		r = -ev(0)
	case OpAbs:
		r = math.Abs(ev(0))
	case OpSqrt:
		r = math.Sqrt(ev(0))
	default:
		r = math.NaN()
	}
	memo[t.id] = r
	return r
}

// defaultVal: variables not constrained by the query.
func (m *machine) defaultVal(t *Term) float64 {
	if t.sort == SFP {
		return 1
	}
	vi := m.c.g.vars[t.vid]
	h := 0
	for _, ch := range t.name {
		h = h*31 + int(ch)
	}
	if h < 0 {
		h = -h
	}
	v := 0.5 + float64(h%13)*0.25
	if vi.hasR {
		// c default handled elsewhere; derive from the rule
		x := m.evalPoly(vi.rule, map[string]any{})
		return math.Sqrt(math.Max(x, 0))
	}
	if m.isCos(t) {
		return 0.6
	}
	if !vi.pos && !vi.nn && h%2 == 0 {
		v = -v
	}
	return v
}

func (m *machine) isCos(t *Term) bool {
	return strings.HasSuffix(t.name, ".c") || strings.HasSuffix(t.name, ".ux") || strings.HasSuffix(t.name, ".uy")
}

func (m *machine) evalPoly(p Poly, env map[string]any) float64 {
	sum := 0.0
	for mo, c := range p {
		f, _ := c.Float64()
		for i := 0; i < mo.n(); i++ {
			v, e := mo.at(i)
			vi := m.c.g.vars[v]
			var x float64
			if y, ok := env[vi.name].(float64); ok {
				x = y
			} else {
				x = m.defaultVal(m.c.mkVar(vi.name, SReal))
			}
			f *= math.Pow(x, float64(e))
		}
		sum += f
	}
	return sum
}

func (m *machine) evalRF(r *RF, env map[string]any) float64 {
	n := m.evalPoly(r.n, env)
	for f, e := range r.d {
		n /= math.Pow(m.evalPoly(m.c.g.factors[f].p, env), float64(e))
	}
	return n
}

// findModel returns a model of PC and not(t), as nice as possible.
func (m *machine) findModel(t *Term, attempt int) (env map[string]any) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("SYMGO_CAND") != "" {
				fmt.Println("findModel:", r)
			}
			env = nil
		}
	}()
	focus := []*Term{}
	var extra []string
	if t != nil && t != m.c.tFalse {
		focus = append(focus, m.c.not(t))
	}
	// bounds on all real inputs
	var vars []string
	for _, v := range m.c.g.vars {
		if v.subst == nil {
			vars = append(vars, v.name)
		}
	}
	bounded := attempt < 4 || attempt > 5
	fixed := map[string]bool{}
	if bounded {
		for _, v := range m.c.g.vars {
			if v.subst != nil || v.hasR {
				continue
			}
			n := smtName(v.name)
			if v.pos {
				extra = append(extra, fmt.Sprintf("(assert (and (>= %s 0.125) (<= %s 16.0)))\n", n, n))
			} else {
				extra = append(extra, fmt.Sprintf("(assert (and (>= %s (- 16.0)) (<= %s 16.0)))\n", n, n))
			}
			if attempt >= 1 && attempt <= 2 && m.w.rnd.Intn(3) > 0 {
				// fix a random subset of variables
				val := float64(1+m.w.rnd.Intn(12)) / 4
				if m.isCosName(v.name) {
					val = 0.6
				} else if !v.pos && !v.nn && m.w.rnd.Intn(2) == 0 {
					val = -val
				}
				extra = append(extra, fmt.Sprintf("(assert (= %s %s))\n", n, ratSMT(new(big.Rat).SetFloat64(val))))
				fixed[v.name] = true
			}
		}
	}
	if t != nil && t.op == OpEq && t.args[0].sort == SReal && bounded && !t.args[0].isSpecial() && !t.args[1].isSpecial() {
		p := m.c.atomPoly(t)
		margin := []string{"0.0625", "0.0625", "0.001", "0.000001", "", "", "0.0000000001", "0.00000000001"}[attempt]
		s := m.c.g.polySMT(p)
		extra = append(extra, fmt.Sprintf("(assert (or (> %s %s) (< %s (- %s))))\n", s, margin, s, margin))
	}
	pcs := m.pc
	script, _ := m.c.buildScript(pcs, nil, nil, vars)
	_ = script
	all := append(append([]*Term{}, pcs...), focus...)
	script, names := m.c.buildScript(all, nil, extra, vars)
	// the extra constraints mention only declared variables
	r, vals := m.w.s.run(script, 4000, names)
	if r == resSat && vals != nil {
		env = map[string]any{}
		for k, v := range vals {
			if f, ok := parseReal(v); ok {
				env[k] = f
			} else if f, ok := parseFP(v); ok {
				env[k] = f
			} else if s, ok := parseStr(v); ok {
				env[k] = s
			} else if v == "true" || v == "false" {
				env[k] = v == "true"
			}
		}
		return env
	}
	// random instantiation
	return m.randomModel(t)
}

func (m *machine) isCosName(n string) bool {
	return strings.HasSuffix(n, ".c") || strings.HasSuffix(n, ".ux") || strings.HasSuffix(n, ".uy")
}

var pyth = [][2]float64{{0.6, 0.8}, {0.8, 0.6}, {-0.6, 0.8}, {0.6, -0.8}, {-0.8, -0.6}, {5.0 / 13, 12.0 / 13}, {1, 0}, {0, 1}, {-1, 0}, {0, -1}, {0.28, 0.96}, {-0.28, -0.96}}

func (m *machine) randomModel(t *Term) map[string]any {
	rnd := m.w.rnd
	for try := 0; try < 400; try++ {
		env := map[string]any{}
		for _, v := range m.c.g.vars {
			if v.subst != nil || v.hasR {
				continue
			}
			x := float64(1+rnd.Intn(16)) / 4
			if !v.pos && !v.nn && rnd.Intn(2) == 0 {
				x = -x
			}
			if rnd.Intn(8) == 0 && !v.pos {
				x = 0
			}
			if strings.HasSuffix(v.name, ".c") {
				p := pyth[rnd.Intn(len(pyth))]
				x = p[0]
				env[strings.TrimSuffix(v.name, ".c")+".s"] = p[1]
			}
			if strings.HasSuffix(v.name, ".ux") || strings.HasSuffix(v.name, ".uy") {
				x = []float64{0.5, -0.5, 0.6, 0.48, 0, 0.36}[rnd.Intn(6)]
			}
			env[v.name] = x
		}
		bad := false
		for _, v := range m.c.g.vars {
			if v.hasR {
				x := m.evalPoly(v.rule, env)
				if x < 0 {
					bad = true
					break
				}
				if o, ok := env[v.name].(float64); ok {
					env[v.name] = math.Copysign(math.Sqrt(x), o)
					continue
				}
				s := math.Sqrt(x)
				if !v.nn && !v.pos && rnd.Intn(2) == 0 {
					s = -s
				}
				env[v.name] = s
			}
		}
		if bad {
			continue
		}
		ok := true
		for _, p := range m.pc {
			if v, k := m.evalBool(p, env); !k || !v {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		if t != nil && t != m.c.tFalse {
			v, k := m.evalBool(t, env)
			if !k || v {
				continue
			}
		}
		return env
	}
	return nil
}

func (m *machine) evalBool(t *Term, env map[string]any) (bool, bool) {
	switch t.op {
	case OpTrue:
		return true, true
	case OpFalse:
		return false, true
	case OpNot:
		v, ok := m.evalBool(t.args[0], env)
		return !v, ok
	case OpAnd:
		a, ok1 := m.evalBool(t.args[0], env)
		b, ok2 := m.evalBool(t.args[1], env)
		return a && b, ok1 && ok2
	case OpLt, OpLe, OpEq:
		if t.args[0].sort != SReal && t.args[0].sort != SFP {
			return false, false
		}
		a, b := m.evalF(t.args[0], env), m.evalF(t.args[1], env)
		tol := 1e-9 * (1 + math.Abs(a) + math.Abs(b))
		switch t.op {
		case OpLt:
			return a < b-tol, true
		case OpLe:
			return a <= b, true
		case OpEq:
			return math.Abs(a-b) <= tol, true
		}
	}
	return false, false
}

func (ex *explorer) report(rf *replayFile, res nativeResult) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	label := rf.Harness + "/" + res.failLabel
	for _, k := range ex.known {
		if k.Property == ex.prop && k.Match(label) {
			ex.knownHit[k.Text] = true
			return
		}
	}
	if ex.viol != nil {
		return
	}
	dir := outDir() + "/replay"
	os.MkdirAll(dir, 0o755)
	path := fmt.Sprintf("%s/%s.json", dir, ex.prop)
	raw, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(path, raw, 0o644)
	ex.viol = &violation{harness: rf.Harness, label: res.failLabel, replay: path, detail: res.summary}
	ex.stop = true
	ex.cond.Broadcast()
}

// trace validation ----------------------------------------------------------------------------------

func (ex *explorer) maybeValidate(m *machine, h *harness) {
	ex.mu.Lock()
	n := ex.validCount[h.name]
	if n >= ex.validMax || ex.native == nil || ex.stop {
		ex.mu.Unlock()
		return
	}
	ex.validCount[h.name]++
	ex.mu.Unlock()
	env := m.findModel(nil, 1)
	if env == nil {
		return
	}
	rf := m.makeReplay(env, "", "")
	rf.Repeat = 1
	res := ex.native.replay(rf)
	if !res.ok {
		atomic.AddInt64(&ex.diverged, 1)
		if !strings.HasPrefix(res.summary, "END assume") { // rounding may leave the assumed domain
			ex.note(h, "validation run failed: "+res.summary)
		}
		return
	}
	if res.failed {
		// the real code violates the property on an input of a path the encoding considers fine
		rf.Failing = res.failLabel
		rf.Repeat = 1
		if strings.HasPrefix(res.failLabel, "assume") {
			atomic.AddInt64(&ex.diverged, 1)
			return
		}
		ex.mu.Lock()
		ex.mismatch = append(ex.mismatch, fmt.Sprintf("native run fails %s in %s although the path was proved: %s", res.failLabel, h.name, res.summary))
		ex.mu.Unlock()
		return
	}
	// compare logs
	if len(res.log) != len(m.log) {
		atomic.AddInt64(&ex.diverged, 1)
		if os.Getenv("SYMGO_CAND") != "" {
			fmt.Println("diverged", h.name, len(res.log), len(m.log), res.summary)
		}
		return
	}
	var sample []string
	for i, e := range m.log {
		l := res.log[i]
		if l.label != e.label || l.kind != e.kind {
			atomic.AddInt64(&ex.diverged, 1)
			return
		}
		if e.kind == "eq" && e.a != nil {
			x := m.evalF(e.a, env)
			if !closeEnough(x, l.a) && !closeEnough(m.evalF(e.b, env), l.b) {
				ex.mu.Lock()
				ex.mismatch = append(ex.mismatch, fmt.Sprintf("%s/%s: encoding gives %v, native %v", h.name, e.label, x, l.a))
				ex.mu.Unlock()
				return
			}
			if len(sample) < 4 {
				sample = append(sample, fmt.Sprintf("%s: symbolic %.6g native %.6g", e.label, x, l.a))
			}
		}
	}
	atomic.AddInt64(&ex.validated, 1)
	ex.mu.Lock()
	if len(ex.samples) < 6 {
		ex.samples = append(ex.samples, map[string]any{"harness": h.name, "inputs": rf.Shown, "choices": rf.Ints, "compared": sample, "path_constraints": len(m.pc)})
	}
	ex.mu.Unlock()
}

func closeEnough(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) == math.IsNaN(b)
	}
	if a == b {
		return true
	}
	return math.Abs(a-b) <= 1e-6*(1+math.Abs(a)+math.Abs(b))
}

type knownFinding struct {
	Property, Pattern, Text string
}

func (k knownFinding) Match(label string) bool {
	return strings.ReplaceAll(label, " ", "_") == k.Pattern
}

func sortedStrKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
