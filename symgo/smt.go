package main

// SMT back end: prints path conditions and assertions as SMT-LIB2 and talks to z3 / cvc5 processes.

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type satResult int

const (
	resUnsat satResult = iota
	resSat
	resUnknown
)

func (r satResult) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type solverStats struct {
	queries, sat, unsat, unknown int64
	nanos                        int64
	trivial                      int64 // decided by normal form without a solver call (branches only)
}

var stats solverStats

type solverProc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	dead bool
}

func startSolver(name string, args ...string) (*solverProc, error) {
	cmd := exec.Command(name, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &solverProc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16)}, nil
}

func (s *solverProc) kill() {
	if s == nil || s.dead {
		return
	}
	s.dead = true
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// readSexp reads one balanced s-expression or atom line.
func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	inStr, inBar := false, false
	for {
		b, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		if sb.Len() == 0 && (b == '\n' || b == ' ' || b == '\r') {
			continue
		}
		switch {
		case inStr:
			if b == '"' {
				inStr = false
			}
		case inBar:
			if b == '|' {
				inBar = false
			}
		case b == '"':
			inStr = true
		case b == '|':
			inBar = true
		case b == '(':
			depth++
		case b == ')':
			depth--
		}
		if depth == 0 && !inStr && !inBar && b == '\n' {
			return sb.String(), nil
		}
		sb.WriteByte(b)
		if depth == 0 && b == ')' && !inBar && !inStr {
			return sb.String(), nil
		}
	}
}

type solver struct {
	z3     *solverProc
	dump   io.Writer
	serial int
}

func (s *solver) close() { s.z3.kill() }

// run sends a script ending in check-sat and reads the result; values are queried with get-value.
func (s *solver) run(script string, timeoutMs int, get []string) (satResult, map[string]string) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&stats.nanos, int64(time.Since(t0))) }()
	atomic.AddInt64(&stats.queries, 1)
	r, m := s.runOnce(script, timeoutMs, get)
	switch r {
	case resSat:
		atomic.AddInt64(&stats.sat, 1)
	case resUnsat:
		atomic.AddInt64(&stats.unsat, 1)
	default:
		atomic.AddInt64(&stats.unknown, 1)
	}
	return r, m
}

func (s *solver) runOnce(script string, timeoutMs int, get []string) (satResult, map[string]string) {
	if s.z3 == nil || s.z3.dead {
		p, err := startSolver("z3-new", "-in", "-smt2", "-memory:3000")
		if err != nil {
			return resUnknown, nil
		}
		s.z3 = p
	}
	p := s.z3
	var sb strings.Builder
	sb.WriteString("(reset)\n")
	fmt.Fprintf(&sb, "(set-option :timeout %d)\n", timeoutMs)
	if len(get) > 0 {
		sb.WriteString("(set-option :produce-models true)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n")
	}
	sb.WriteString(script)
	if !strings.Contains(script, "(check-sat") {
		sb.WriteString("(check-sat)\n")
	}
	// the answers are numbered: one that belongs to another query is never taken for this one's
	s.serial++
	mark := fmt.Sprintf("answered-%d", s.serial)
	fmt.Fprintf(&sb, "(echo \"%s\")\n", mark)
	if s.dump != nil {
		fmt.Fprintln(s.dump, sb.String())
	}
	timer := time.AfterFunc(time.Duration(timeoutMs)*time.Millisecond+5*time.Second, func() { p.cmd.Process.Kill() })
	defer timer.Stop()
	if _, err := io.WriteString(p.in, sb.String()); err != nil {
		p.kill()
		return resUnknown, nil
	}
	res, err := readSexp(p.out)
	if err != nil {
		p.kill()
		return resUnknown, nil
	}
	if strings.HasPrefix(res, "(error") {
		fmt.Println("SOLVER-ERROR", res)
		p.kill()
		return resUnknown, nil
	}
	if echo, err := readSexp(p.out); err != nil || strings.Trim(echo, "\" \r") != mark {
		if err == nil {
			fmt.Println("SOLVER-ERROR answers out of step:", echo, "instead of", mark)
		}
		p.kill()
		return resUnknown, nil
	}
	switch strings.TrimSpace(res) {
	case "unsat":
		return resUnsat, nil
	case "sat":
	default:
		return resUnknown, nil
	}
	if len(get) == 0 {
		return resSat, nil
	}
	fmt.Fprintf(&sb, "")
	q := "(get-value (" + strings.Join(get, " ") + "))\n"
	if _, err := io.WriteString(p.in, q); err != nil {
		p.kill()
		return resSat, nil
	}
	ans, err := readSexp(p.out)
	if err != nil {
		p.kill()
		return resSat, nil
	}
	return resSat, parseValues(ans, get)
}

// parseSexp: minimal s-expression parser.
type sexp struct {
	atom string
	list []sexp
	isL  bool
}

func parseSexp(s string, i int) (sexp, int) {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
		i++
	}
	if i >= len(s) {
		return sexp{}, i
	}
	if s[i] == '(' {
		i++
		out := sexp{isL: true}
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
				i++
			}
			if i >= len(s) {
				return out, i
			}
			if s[i] == ')' {
				return out, i + 1
			}
			var e sexp
			e, i = parseSexp(s, i)
			out.list = append(out.list, e)
		}
	}
	if s[i] == '"' {
		j := i + 1
		for j < len(s) {
			if s[j] == '"' {
				if j+1 < len(s) && s[j+1] == '"' {
					j += 2
					continue
				}
				break
			}
			j++
		}
		return sexp{atom: s[i : j+1]}, j + 1
	}
	if s[i] == '|' {
		j := strings.IndexByte(s[i+1:], '|') + i + 1
		return sexp{atom: s[i : j+1]}, j + 1
	}
	j := i
	for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
		j++
	}
	return sexp{atom: s[i:j]}, j
}

func parseValues(ans string, get []string) map[string]string {
	e, _ := parseSexp(ans, 0)
	out := map[string]string{}
	for i, p := range e.list {
		if p.isL && len(p.list) == 2 && i < len(get) {
			out[strings.Trim(get[i], "|")] = sexpString(p.list[1])
		}
	}
	return out
}

func sexpString(e sexp) string {
	if !e.isL {
		return e.atom
	}
	var parts []string
	for _, x := range e.list {
		parts = append(parts, sexpString(x))
	}
	return "(" + strings.Join(parts, " ") + ")"
}

// parseReal parses a numeral, decimal ("1.41?"), (- x), (/ x y).
func parseReal(s string) (float64, bool) {
	e, _ := parseSexp(s, 0)
	return realOf(e)
}

func realOf(e sexp) (float64, bool) {
	if !e.isL {
		a := strings.TrimSuffix(e.atom, "?")
		f, err := strconv.ParseFloat(a, 64)
		if err != nil {
			if r, ok := new(big.Rat).SetString(a); ok {
				f, _ = r.Float64()
				return f, true
			}
			return 0, false
		}
		return f, true
	}
	if len(e.list) == 2 && e.list[0].atom == "-" {
		f, ok := realOf(e.list[1])
		return -f, ok
	}
	if len(e.list) == 3 && e.list[0].atom == "/" {
		a, ok1 := realOf(e.list[1])
		b, ok2 := realOf(e.list[2])
		return a / b, ok1 && ok2
	}
	return 0, false
}

func parseFP(s string) (float64, bool) {
	e, _ := parseSexp(s, 0)
	if !e.isL {
		return 0, false
	}
	if len(e.list) == 4 && e.list[0].atom == "fp" {
		bits := ""
		for _, x := range e.list[1:] {
			a := x.atom
			if strings.HasPrefix(a, "#b") {
				bits += a[2:]
			} else if strings.HasPrefix(a, "#x") {
				for _, ch := range a[2:] {
					v, _ := strconv.ParseUint(string(ch), 16, 8)
					bits += fmt.Sprintf("%04b", v)
				}
			}
		}
		v, err := strconv.ParseUint(bits, 2, 64)
		return math.Float64frombits(v), err == nil
	}
	if len(e.list) >= 2 && e.list[0].atom == "_" {
		switch e.list[1].atom {
		case "NaN":
			return math.NaN(), true
		case "+oo":
			return math.Inf(1), true
		case "-oo":
			return math.Inf(-1), true
		case "+zero":
			return 0, true
		case "-zero":
			return math.Copysign(0, -1), true
		}
	}
	return 0, false
}

func parseStr(s string) (string, bool) {
	if len(s) < 2 || s[0] != '"' {
		return "", false
	}
	s = strings.ReplaceAll(s[1:len(s)-1], `""`, `"`)
	// \u{..} escapes
	var sb strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], `\u{`) {
			j := strings.IndexByte(s[i:], '}')
			if j > 0 {
				v, err := strconv.ParseUint(s[i+3:i+j], 16, 32)
				if err == nil {
					sb.WriteRune(rune(v))
					i += j + 1
					continue
				}
			}
		}
		sb.WriteByte(s[i])
		i++
	}
	return sb.String(), true
}

// Script construction -------------------------------------------------------------------------------

type scriptCtx struct {
	c     *tctx
	rvars map[int]bool     // algebra variables used
	ovars map[string]*Term // other variables used
	lets  map[int]string
	defs  strings.Builder
	nlet  int
}

func (c *tctx) newScript() *scriptCtx {
	return &scriptCtx{c: c, rvars: map[int]bool{}, ovars: map[string]*Term{}, lets: map[int]string{}}
}

// boolSMT prints a boolean term; val=false negates it.
func (sc *scriptCtx) boolSMT(t *Term) string {
	c := sc.c
	switch t.op {
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	case OpNot:
		return "(not " + sc.boolSMT(t.args[0]) + ")"
	case OpAnd:
		return "(and " + sc.boolSMT(t.args[0]) + " " + sc.boolSMT(t.args[1]) + ")"
	case OpOr:
		return "(or " + sc.boolSMT(t.args[0]) + " " + sc.boolSMT(t.args[1]) + ")"
	case OpVar:
		sc.ovars[t.name] = t
		return smtName(t.name)
	case OpIsNaN:
		return "(fp.isNaN " + sc.valSMT(t.args[0]) + ")"
	case OpIsInf:
		return "(fp.isInfinite " + sc.valSMT(t.args[0]) + ")"
	}
	a, b := t.args[0], t.args[1]
	switch a.sort {
	case SReal:
		p := c.atomPoly(t)
		c.g.polyVars(p, sc.rvars)
		op := map[Op]string{OpLt: "<", OpLe: "<=", OpEq: "="}[t.op]
		return "(" + op + " " + c.g.polySMT(p) + " 0.0)"
	case SFP:
		op := map[Op]string{OpLt: "fp.lt", OpLe: "fp.leq", OpEq: "fp.eq"}[t.op]
		return "(" + op + " " + sc.valSMT(a) + " " + sc.valSMT(b) + ")"
	case SStr:
		op := map[Op]string{OpLt: "str.<", OpLe: "str.<=", OpEq: "="}[t.op]
		return "(" + op + " " + sc.valSMT(a) + " " + sc.valSMT(b) + ")"
	case SBool:
		return "(= " + sc.boolSMT(a) + " " + sc.boolSMT(b) + ")"
	}
	panic("boolSMT")
}

func (sc *scriptCtx) valSMT(t *Term) string {
	switch t.op {
	case OpVar:
		if t.sort == SReal {
			sc.rvars[t.vid] = true
		} else {
			sc.ovars[t.name] = t
		}
		return smtName(t.name)
	case OpConst:
		switch t.sort {
		case SStr:
			return smtString(t.str)
		case SFP:
			return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", math.Float64bits(t.f))
		case SReal:
			return ratSMT(t.rat)
		}
	}
	if n, ok := sc.lets[t.id]; ok {
		return n
	}
	var s string
	if t.sort == SFP {
		switch t.op {
		case OpAdd:
			s = "(fp.add RNE " + sc.valSMT(t.args[0]) + " " + sc.valSMT(t.args[1]) + ")"
		case OpSub:
			s = "(fp.sub RNE " + sc.valSMT(t.args[0]) + " " + sc.valSMT(t.args[1]) + ")"
		case OpMul:
			s = "(fp.mul RNE " + sc.valSMT(t.args[0]) + " " + sc.valSMT(t.args[1]) + ")"
		case OpDiv:
			s = "(fp.div RNE " + sc.valSMT(t.args[0]) + " " + sc.valSMT(t.args[1]) + ")"
		case OpNeg:
			s = "(fp.neg " + sc.valSMT(t.args[0]) + ")"
		case OpAbs:
			s = "(fp.abs " + sc.valSMT(t.args[0]) + ")"
		case OpSqrt:
			s = "(fp.sqrt RNE " + sc.valSMT(t.args[0]) + ")"
		default:
			panic("fp op")
		}
		n := fmt.Sprintf("t!%d", sc.nlet)
		sc.nlet++
		fmt.Fprintf(&sc.defs, "(define-fun %s () (_ FloatingPoint 11 53) %s)\n", n, s)
		sc.lets[t.id] = n
		return n
	}
	// raw real DAG (polynomial operations only)
	switch t.op {
	case OpAdd:
		s = "(+ " + sc.valSMT(t.args[0]) + " " + sc.valSMT(t.args[1]) + ")"
	case OpSub:
		s = "(- " + sc.valSMT(t.args[0]) + " " + sc.valSMT(t.args[1]) + ")"
	case OpMul:
		s = "(* " + sc.valSMT(t.args[0]) + " " + sc.valSMT(t.args[1]) + ")"
	case OpDiv:
		s = "(/ " + sc.valSMT(t.args[0]) + " " + sc.valSMT(t.args[1]) + ")"
	case OpNeg:
		s = "(- " + sc.valSMT(t.args[0]) + ")"
	default:
		panic(pathUnsupported{"valSMT"})
	}
	n := fmt.Sprintf("t!%d", sc.nlet)
	sc.nlet++
	fmt.Fprintf(&sc.defs, "(define-fun %s () Real %s)\n", n, s)
	sc.lets[t.id] = n
	return n
}

func smtString(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"':
			sb.WriteString(`""`)
		case r < 32 || r > 126 || r == '\\':
			fmt.Fprintf(&sb, `\u{%x}`, r)
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func (t *Term) atomVars(c *tctx, into map[string]bool) {
	switch t.op {
	case OpTrue, OpFalse, OpConst:
		return
	case OpVar:
		into[t.name] = true
		return
	case OpLt, OpLe, OpEq:
		if t.args[0].sort == SReal {
			vs := map[int]bool{}
			c.g.polyVars(c.atomPoly(t), vs)
			for v := range vs {
				into[c.g.vars[v].name] = true
			}
			return
		}
	}
	for _, a := range t.args {
		a.atomVars(c, into)
	}
}

// relatedVars closes a set of variables under rewrite relations (sqrt symbols etc.).
func (c *tctx) closeVars(into map[string]bool) {
	for changed := true; changed; {
		changed = false
		for v, vi := range c.g.vars {
			_ = v
			if into[vi.name] && vi.hasR {
				vs := map[int]bool{}
				c.g.polyVars(vi.rule, vs)
				for w := range vs {
					if !into[c.g.vars[w].name] {
						into[c.g.vars[w].name] = true
						changed = true
					}
				}
			}
		}
	}
}

// buildScript prints declarations, variable relations and assertions for the given constraints,
// restricted to the constraints connected with focus (all if focus is empty).
func (c *tctx) buildScript(pc []*Term, focus []*Term, extra []string, extraVars []string) (string, []string) {
	sel := make([]*Term, 0, len(pc)+len(focus))
	if len(focus) > 0 {
		vars := map[string]bool{}
		for _, f := range focus {
			f.atomVars(c, vars)
		}
		for _, v := range extraVars {
			vars[v] = true
		}
		c.closeVars(vars)
		used := make([]bool, len(pc))
		pv := make([]map[string]bool, len(pc))
		for i, p := range pc {
			pv[i] = map[string]bool{}
			p.atomVars(c, pv[i])
			c.closeVars(pv[i])
		}
		for changed := true; changed; {
			changed = false
			for i := range pc {
				if used[i] {
					continue
				}
				hit := len(pv[i]) == 0
				for v := range pv[i] {
					if vars[v] {
						hit = true
						break
					}
				}
				if hit {
					used[i] = true
					changed = true
					sel = append(sel, pc[i])
					for v := range pv[i] {
						vars[v] = true
					}
				}
			}
		}
		sel = append(sel, focus...)
	} else {
		sel = append(sel, pc...)
	}
	sc := c.newScript()
	var body strings.Builder
	for _, t := range sel {
		s := sc.boolSMT(t)
		fmt.Fprintf(&body, "(assert %s)\n", s)
	}
	for _, n := range extraVars {
		if v, ok := c.g.byName[n]; ok {
			sc.rvars[v] = true
		}
	}
	// close under relations
	for changed := true; changed; {
		changed = false
		for v, vi := range c.g.vars { // small relations v^2 = rule bound the variables of the rule
			if vi.hasR && !sc.rvars[v] && len(vi.rule) <= 4 {
				vs := map[int]bool{}
				c.g.polyVars(vi.rule, vs)
				for w := range vs {
					if sc.rvars[w] {
						sc.rvars[v] = true
						changed = true
						break
					}
				}
			}
		}
		for _, v := range sortedSet(sc.rvars) {
			vi := c.g.vars[v]
			if vi.hasR {
				vs := map[int]bool{}
				c.g.polyVars(vi.rule, vs)
				for w := range vs {
					if !sc.rvars[w] {
						sc.rvars[w] = true
						changed = true
					}
				}
			}
		}
	}
	var head strings.Builder
	var names []string
	for _, v := range sortedSet(sc.rvars) {
		vi := c.g.vars[v]
		fmt.Fprintf(&head, "(declare-const %s Real)\n", smtName(vi.name))
		names = append(names, smtName(vi.name))
	}
	for _, v := range sortedSet(sc.rvars) {
		vi := c.g.vars[v]
		if vi.pos {
			fmt.Fprintf(&head, "(assert (> %s 0.0))\n", smtName(vi.name))
		} else if vi.nn {
			fmt.Fprintf(&head, "(assert (>= %s 0.0))\n", smtName(vi.name))
		}
		if vi.hasR {
			fmt.Fprintf(&head, "(assert (= (* %s %s) %s))\n", smtName(vi.name), smtName(vi.name), c.g.polySMT(vi.rule))
		}
	}
	for _, n := range sortedNames(sc.ovars) {
		t := sc.ovars[n]
		srt := map[Sort]string{SFP: "(_ FloatingPoint 11 53)", SBool: "Bool", SStr: "String"}[t.sort]
		fmt.Fprintf(&head, "(declare-const %s %s)\n", smtName(n), srt)
		if t.sort == SStr {
			fmt.Fprintf(&head, "(assert (and (<= (str.len %s) 2) (str.in_re %s (re.* (re.range \" \" \"~\")))))\n", smtName(n), smtName(n))
		}
		names = append(names, smtName(n))
	}
	for _, e := range extra {
		body.WriteString(e)
	}
	return head.String() + sc.defs.String() + body.String(), names
}

func sortedSet(m map[int]bool) []int {
	d := map[int]int{}
	for k := range m {
		d[k] = 1
	}
	return sortedKeys(d)
}

func sortedNames(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

