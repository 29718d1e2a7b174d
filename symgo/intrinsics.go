package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *machine, caller *frame, fn *ssa.Function, args []value) value

var intrCache sync.Map

func lookupIntrinsic(fn *ssa.Function) intrinsic {
	if v, ok := intrCache.Load(fn); ok {
		if v == nil {
			return nil
		}
		return v.(intrinsic)
	}
	in := findIntrinsic(fn)
	if in == nil {
		intrCache.Store(fn, nil)
	} else {
		intrCache.Store(fn, in)
	}
	return in
}

var mainPkgPath string

func findIntrinsic(fn *ssa.Function) intrinsic {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	pkg := o.Pkg
	if pkg != nil && pkg.Pkg.Path() == mainPkgPath && o.Signature.Recv() == nil && o.Parent() == nil {
		if in, ok := vfIntrinsics[o.Name()]; ok {
			return in
		}
	}
	name := o.String()
	if in, ok := lateIntrinsics[name]; ok {
		return in
	}
	if in, ok := intrinsics[name]; ok {
		return in
	}
	if nf, ok := nativeFuncs[name]; ok {
		return bridge(name, nf)
	}
	if pkg != nil && pkg.Pkg.Path() == "log" && fn.Synthetic == "" {
		return func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			n := fn.Name()
			if strings.HasPrefix(n, "Panic") {
				panic(targetPanic{v: iface{types.Typ[types.String], "log." + n}})
			}
			if strings.HasPrefix(n, "Fatal") {
				panic(pathStop{"log.Fatal"})
			}
			return m.zeroResults(fn)
		}
	}
	return nil
}

func (m *machine) zeroResults(fn *ssa.Function) value {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	return m.zero(r)
}

// package policy -----------------------------------------------------------------------------------

var allowList = map[string]bool{
	"errors": true, "sort": true, "slices": true, "maps": true, "cmp": true, "iter": true,
	"strings": true, "math": true, "math/bits": true, "unicode/utf8": true, "bytes": true,
	"container/list": true, "container/heap": true, "math/cmplx": true, "strconv": true,
}

func allowedPath(p string) bool {
	return allowList[p] || p == mainPkgPath || strings.HasPrefix(p, "gonum.org/") || strings.HasPrefix(p, "github.com/lubgr/")
}

func denied(p string) bool { return !allowedPath(p) }

func (m *machine) externGlobal(g *ssa.Global) (value, bool) {
	switch g.String() {
	case "io.EOF", "io.ErrUnexpectedEOF":
		return m.mkError(g.Name()), true
	case "os.Stderr", "os.Stdout":
		return (*value)(nil), true
	}
	return nil, false
}

// mkError builds an errors.errorString value.
func (m *machine) mkError(msg value) iface {
	p := m.p.prog.ImportedPackage("errors")
	t := p.Type("errorString").Type()
	var v value = structure{msg}
	return iface{types.NewPointer(t), &v}
}

func (m *machine) mkWrap(msg value, errs []value) iface {
	p := m.p.prog.ImportedPackage("fmt")
	if p == nil || len(errs) == 0 {
		return m.mkError(msg)
	}
	if len(errs) == 1 {
		t := p.Type("wrapError").Type()
		var v value = structure{msg, errs[0]}
		return iface{types.NewPointer(t), &v}
	}
	t := p.Type("wrapErrors").Type()
	var v value = structure{msg, errs}
	return iface{types.NewPointer(t), &v}
}

// formatting ----------------------------------------------------------------------------------------

// hostValue converts a value for native formatting; ok=false if it contains symbols.
func (m *machine) hostValue(caller *frame, v value, depth int) (any, bool) {
	if depth > 6 {
		return "...", true
	}
	switch v := v.(type) {
	case iface:
		if v.t == nil {
			return nil, true
		}
		if f := m.errMethod(v.t, "Error"); f != nil {
			return m.strResult(m.call(caller, 0, f, []value{copyVal(v.v)}))
		}
		if f := m.errMethod(v.t, "String"); f != nil {
			return m.strResult(m.call(caller, 0, f, []value{copyVal(v.v)}))
		}
		if s, ok := v.v.(string); ok {
			return s, true
		}
		switch v.v.(type) {
		case structure, array, []value, *smap:
			return m.hostAggregate(caller, v.t, v.v, depth)
		}
		return m.hostValue(caller, v.v, depth+1)
	case string, bool:
		return v, true
	case opaque:
		if m.forcing {
			if s, ok := m.forceStr(v); ok {
				return s, true
			}
		}
		return v.s, false
	case *Term:
		if m.forcing && v.sort == SStr {
			return m.concStr(v), true
		}
		switch {
		case v.op == OpConst && v.sort == SReal:
			f, _ := v.rat.Float64()
			return f, true
		case v.op == OpConst && v.sort == SFP:
			return v.f, true
		case v.op == OpConst && v.sort == SStr:
			return v.str, true
		case v.op == OpNaN:
			return math.NaN(), true
		case v.op == OpPInf:
			return math.Inf(1), true
		case v.op == OpNInf:
			return math.Inf(-1), true
		}
		return "<sym>", false
	case *value:
		if v == nil {
			return nil, true
		}
		return "<ptr>", false
	case *ssa.Function, *closure:
		return "<func>", false
	}
	if _, ok := asInt(v); ok {
		return v, true
	}
	return m.render(v), false
}

func (m *machine) hostAggregate(caller *frame, t types.Type, v value, depth int) (any, bool) {
	all := true
	conv := func(et types.Type, x value) any {
		var r any
		var ok bool
		if _, isI := x.(iface); isI {
			r, ok = m.hostValue(caller, x, depth+1)
		} else {
			r, ok = m.hostValue(caller, iface{et, x}, depth+1)
		}
		all = all && ok
		return r
	}
	switch v := v.(type) {
	case structure:
		st := t.Underlying().(*types.Struct)
		parts := []string{}
		for i, x := range v {
			parts = append(parts, fmt.Sprint(conv(st.Field(i).Type(), x)))
		}
		return "{" + strings.Join(parts, " ") + "}", all
	case array:
		parts := []any{}
		for _, x := range v {
			parts = append(parts, conv(t.Underlying().(*types.Array).Elem(), x))
		}
		return parts, all
	case []value:
		parts := []any{}
		for _, x := range v {
			parts = append(parts, conv(t.Underlying().(*types.Slice).Elem(), x))
		}
		return parts, all
	case *smap:
		if v == nil {
			return map[string]any{}, true
		}
		out := map[string]any{}
		mt := t.Underlying().(*types.Map)
		for _, e := range v.entries {
			if !e.dead {
				out[fmt.Sprint(conv(mt.Key(), e.k))] = conv(mt.Elem(), e.v)
			}
		}
		return out, all
	}
	return "?", false
}

func (m *machine) strResult(v value) (any, bool) {
	switch v := v.(type) {
	case string:
		return v, true
	case *Term:
		if v.op == OpConst {
			return v.str, true
		}
		if m.forcing {
			return m.concStr(v), true
		}
		return "<sym>", false
	case opaque:
		if m.forcing {
			if s, ok := m.forceStr(v); ok {
				return s, true
			}
		}
		return v.s, false
	}
	return "?", false
}

func (m *machine) errMethod(t types.Type, name string) *ssa.Function {
	f := m.findMethod(t, name)
	if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 || !isString(f.Signature.Results().At(0).Type()) {
		return nil
	}
	return f
}

func (m *machine) sprintf(caller *frame, format value, rest []value, wrapped *[]value) value {
	fs, ok := format.(string)
	if !ok {
		f, ok := m.forceStr(format)
		if !ok {
			return opaque{s: "formatted"}
		}
		fs = f
	}
	host := make([]any, len(rest))
	all := true
	for i, r := range rest {
		var ok bool
		x := r
		if it, isI := r.(iface); isI && it.t != nil && strings.IndexByte("bcdoOUeEfFgGt", verbAt(fs, i)) >= 0 {
			// These verbs look at the value itself and call no Error or String method
			if _, isBasic := it.t.Underlying().(*types.Basic); isBasic {
				x = it.v
			}
		}
		host[i], ok = m.hostValue(caller, x, 0)
		all = all && ok
		if it, isI := r.(iface); isI && it.t != nil && wrapped != nil && strings.Contains(fs, "%w") {
			// which verb belongs to this argument
			if verbAt(fs, i) == 'w' {
				*wrapped = append(*wrapped, r)
			}
		}
	}
	fs = strings.ReplaceAll(fs, "%w", "%v")
	s := fmt.Sprintf(fs, host...)
	if !all {
		return mkOpaque(s, &fmtPart{format: fs, args: copyArgs(rest)})
	}
	return s
}

func verbAt(f string, n int) byte {
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[i]) >= 0 {
			i++
		}
		if i < len(f) && f[i] == '%' {
			continue
		}
		if k == n && i < len(f) {
			return f[i]
		}
		k++
	}
	return 0
}

func varargs(v value) []value {
	if s, ok := v.([]value); ok {
		return s
	}
	return nil
}

func (m *machine) sprint(caller *frame, rest []value, ln bool) value {
	host := make([]any, len(rest))
	all := true
	for i, r := range rest {
		var ok bool
		host[i], ok = m.hostValue(caller, r, 0)
		all = all && ok
	}
	s := fmt.Sprint(host...)
	if ln {
		s = fmt.Sprintln(host...)
	}
	if !all {
		f := &fmtPart{plain: 1, args: copyArgs(rest)}
		if ln {
			f.plain = 2
		}
		return mkOpaque(s, f)
	}
	return s
}

func copyArgs(a []value) []value {
	out := make([]value, len(a))
	for i, x := range a {
		out[i] = copyVal(x)
	}
	return out
}

// math ----------------------------------------------------------------------------------------------

func (m *machine) fabs(t *Term) *Term {
	if m.fpMode {
		if t.isC() {
			return m.c.fpConst(math.Abs(t.f))
		}
		return m.c.mk(OpAbs, SFP, "", t)
	}
	switch t.op {
	case OpNaN:
		return t
	case OpPInf, OpNInf:
		return m.c.tPInf
	case OpConst:
		return m.c.realConst(new(big.Rat).Abs(t.rat))
	}
	if m.truth(m.tb(m.c.cmp(OpLt, t, m.c.realConst(ratZero)))) {
		return m.c.neg(t)
	}
	return t
}

func (m *machine) polyTerm(p Poly) *Term {
	// build a term with this normal form
	var sum *Term
	for _, mo := range p.monos() {
		t := m.c.realConst(p[mo])
		for i := 0; i < mo.n(); i++ {
			v, e := mo.at(i)
			for k := 0; k < e; k++ {
				t = m.c.mul(t, m.c.mkVar(m.c.g.vars[v].name, SReal))
			}
		}
		if sum == nil {
			sum = t
		} else {
			sum = m.c.add(sum, t)
		}
	}
	if sum == nil {
		return m.c.realConst(ratZero)
	}
	return sum
}

func (m *machine) sqrt(t *Term) *Term {
	c := m.c
	if m.fpMode {
		if t.isC() {
			return c.fpConst(math.Sqrt(t.f))
		}
		return c.mk(OpSqrt, SFP, "", t)
	}
	switch t.op {
	case OpNaN, OpPInf:
		return t
	case OpNInf:
		return c.tNaN
	}
	zero := c.realConst(ratZero)
	if m.truth(m.tb(c.cmp(OpLt, t, zero))) {
		return c.tNaN
	}
	r := c.nf(t)
	// sqrt(N/D) = sqrt(N*D')/D'' with D'' = prod f^ceil(e/2) and D' = prod of odd factors
	den := c.realConst(ratOne)
	n := r.n
	for _, f := range sortedKeys(r.d) {
		e := r.d[f]
		ft := m.polyTerm(c.g.factors[f].p)
		at := m.fabs(ft)
		for k := 0; k < (e+1)/2; k++ {
			den = c.mul(den, at)
		}
		if e%2 == 1 {
			n = c.g.mul(n, c.g.reduce(c.g.factors[f].p))
		}
	}
	s := m.sqrtPoly(n)
	return m.toTerm(m.fdiv(s, den))
}

func (m *machine) sqrtPoly(n Poly) *Term {
	c := m.c
	if len(n) == 0 {
		return c.realConst(ratZero)
	}
	co, d := c.g.factorise(n)
	out := c.realConst(ratOne)
	rest := polyConst(ratOne)
	for _, f := range sortedKeys(d) {
		e := d[f]
		if e >= 2 {
			at := m.fabs(m.polyTerm(c.g.factors[f].p))
			for k := 0; k < e/2; k++ {
				out = c.mul(out, at)
			}
		}
		if e%2 == 1 {
			rest = c.g.mul(rest, c.g.reduce(c.g.factors[f].p))
		}
	}
	if q, ok := ratSqrt(co); ok {
		out = c.mul(out, c.realConst(q))
	} else {
		rest = polyScale(rest, co)
	}
	if rest.isOne() {
		return out
	}
	if k, ok := rest.isConst(); ok {
		if q, ok := ratSqrt(k); ok {
			return c.mul(out, c.realConst(q))
		}
	}
	key := rest.key()
	h, ok := c.sqrts[key]
	if !ok {
		h = c.mkVar(fmt.Sprintf("sqrt!%d", len(c.sqrts)), SReal)
		vi := c.g.vars[h.vid]
		vi.nn = true
		s, _ := c.signOf(rest)
		if s == sgPos {
			vi.pos = true
		}
		vi.rule, vi.hasR = rest, true
		c.sqrts[key] = h
		c.epoch++ // existing normal forms do not mention h; nothing to redo, but keep it simple
	}
	return c.mul(out, h)
}

// trigOf returns (cos, sin) of an angle term.
func (m *machine) trigOf(t *Term) (*Term, *Term) {
	c := m.c
	if t.isSpecial() {
		return c.tNaN, c.tNaN
	}
	if t.isC() {
		if t.rat.Sign() == 0 {
			return c.realConst(ratOne), c.realConst(ratZero)
		}
		f, _ := t.rat.Float64()
		for k, v := range map[float64][2]int64{math.Pi / 2: {0, 1}, math.Pi: {-1, 0}, -math.Pi / 2: {0, -1}, 3 * math.Pi / 2: {0, -1}, 2 * math.Pi: {1, 0}, -math.Pi: {-1, 0}} {
			if math.Abs(f-k) < 1e-12 {
				return c.realConst(big.NewRat(v[0], 1)), c.realConst(big.NewRat(v[1], 1))
			}
		}
	}
	switch t.op {
	case OpNeg:
		a, b := m.trigOf(t.args[0])
		return a, c.neg(b)
	case OpAdd, OpSub:
		if m.knownAngle(t.args[0]) && m.knownAngle(t.args[1]) {
			c1, s1 := m.trigOf(t.args[0])
			c2, s2 := m.trigOf(t.args[1])
			if t.op == OpSub {
				s2 = c.neg(s2)
			}
			return c.sub(c.mul(c1, c2), c.mul(s1, s2)), c.add(c.mul(s1, c2), c.mul(c1, s2))
		}
	}
	r := c.nf(t)
	key := r.n.key() + "/" + fmt.Sprint(r.d)
	if p, ok := c.trig[key]; ok {
		return p[0], p[1]
	}
	n := fmt.Sprintf("trig!%d", len(c.trig))
	return m.newDir(n, key)
}

func (m *machine) newDir(name, key string) (*Term, *Term) {
	c := m.c
	co := c.mkVar(name+".c", SReal)
	si := c.mkVar(name+".s", SReal)
	vi := c.g.vars[si.vid]
	vi.hasR = true
	vi.rule = Poly{"": ratOne, monoVar(co.vid, 2): ratMinusOne}
	if key != "" {
		c.trig[key] = [2]*Term{co, si}
	}
	return co, si
}

func (m *machine) knownAngle(t *Term) bool {
	if t.isC() {
		f, _ := t.rat.Float64()
		q := f / (math.Pi / 2)
		return math.Abs(q-math.Round(q)) < 1e-12
	}
	if t.op == OpNeg {
		return m.knownAngle(t.args[0])
	}
	r := m.c.nf(t)
	_, ok := m.c.trig[r.n.key()+"/"+fmt.Sprint(r.d)]
	return ok
}

func (m *machine) needConst(t *Term, what string) float64 {
	switch {
	case t.op == OpNaN:
		return math.NaN()
	case t.op == OpPInf:
		return math.Inf(1)
	case t.op == OpNInf:
		return math.Inf(-1)
	case t.isC() && t.sort == SFP:
		return t.f
	case t.isC():
		f, _ := t.rat.Float64()
		return f
	}
	panic(pathUnsupported{what + " of a symbolic value"})
}

func math1(name string, f func(float64) float64) intrinsic {
	return func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
		return m.fc(f(m.needConst(args[0].(*Term), name)))
	}
}

// mathAny approximates a transcendental function of a symbolic value by any value.
func mathAny(name string, f func(float64) float64) intrinsic {
	return func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
		t := args[0].(*Term)
		if !m.fpMode && !t.isC() && !t.isSpecial() {
			return m.c.mkVar(m.uname("~"+name), SReal)
		}
		return m.fc(f(m.needConst(t, name)))
	}
}

var intrinsics map[string]intrinsic

func init() {
	intrinsics = map[string]intrinsic{
		"math.Abs": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			return m.fabs(args[0].(*Term))
		},
		"math.Sqrt": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			return m.sqrt(args[0].(*Term))
		},
		"math.sqrt": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			return m.sqrt(args[0].(*Term))
		},
		"math.Hypot": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			a, b := args[0].(*Term), args[1].(*Term)
			if m.fpMode {
				panic(pathUnsupported{"math.Hypot in floating-point mode"})
			}
			if a.op == OpPInf || a.op == OpNInf || b.op == OpPInf || b.op == OpNInf {
				return m.c.tPInf
			}
			return m.sqrt(m.c.add(m.c.mul(a, a), m.c.mul(b, b)))
		},
		"math.Cos": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			c, _ := m.trigOf(args[0].(*Term))
			return c
		},
		"math.Sin": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			_, s := m.trigOf(args[0].(*Term))
			return s
		},
		"math.Sincos": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			c, s := m.trigOf(args[0].(*Term))
			return tuple{s, c}
		},
		"math.Tan": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			c, s := m.trigOf(args[0].(*Term))
			return m.fdiv(s, c)
		},
		"math.Pow": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			x, y := args[0].(*Term), args[1].(*Term)
			if x.isC() && y.isC() {
				return m.fc(math.Pow(m.needConst(x, "Pow"), m.needConst(y, "Pow")))
			}
			if m.fpMode {
				panic(pathUnsupported{"Pow in floating-point mode"})
			}
			e := m.needConst(y, "math.Pow exponent")
			if e == 0.5 {
				return m.sqrt(x)
			}
			if e != math.Trunc(e) || math.Abs(e) > 16 {
				panic(pathUnsupported{"math.Pow exponent"})
			}
			r := m.c.realConst(ratOne)
			for k := 0; k < int(math.Abs(e)); k++ {
				r = m.c.mul(r, x)
			}
			if e < 0 {
				return m.fdiv(m.c.realConst(ratOne), r)
			}
			return r
		},
		"math.Max": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			return m.fminmax(args[0].(*Term), args[1].(*Term), false)
		},
		"math.Min": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			return m.fminmax(args[0].(*Term), args[1].(*Term), true)
		},
		"math.FMA": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			return m.c.add(m.c.mul(args[0].(*Term), args[1].(*Term)), args[2].(*Term))
		},
		"math.NaN": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			return m.fc(math.NaN())
		},
		"math.Inf": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			return m.fc(math.Inf(int(mustInt(args[0]))))
		},
		"math.IsNaN": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			t := args[0].(*Term)
			if !m.fpMode {
				return t.op == OpNaN
			}
			return m.tb(m.c.not(m.c.cmp(OpEq, t, t)))
		},
		"math.IsInf": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			t, s := args[0].(*Term), mustInt(args[1])
			if !m.fpMode {
				return t.op == OpPInf && s >= 0 || t.op == OpNInf && s <= 0
			}
			p := m.c.cmp(OpEq, t, m.c.fpConst(math.Inf(1)))
			n := m.c.cmp(OpEq, t, m.c.fpConst(math.Inf(-1)))
			switch {
			case s > 0:
				return m.tb(p)
			case s < 0:
				return m.tb(n)
			}
			return m.tb(m.c.or(p, n))
		},
		"math.Signbit": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			t := args[0].(*Term)
			if t.isC() {
				return math.Signbit(m.needConst(t, "Signbit"))
			}
			if m.fpMode {
				panic(pathUnsupported{"Signbit"})
			}
			return m.tb(m.c.cmp(OpLt, t, m.c.realConst(ratZero)))
		},
		"math.Copysign": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			a := m.fabs(args[0].(*Term))
			if m.truth(m.tb(m.c.cmp(OpLt, args[1].(*Term), m.fc(0)))) {
				return m.c.neg(a)
			}
			return a
		},
		"math.Float64bits": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			return math.Float64bits(m.needConst(args[0].(*Term), "Float64bits"))
		},
		"math.Float64frombits": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			return m.fc(math.Float64frombits(uint64(mustInt(args[0]))))
		},
		"math.Floor": math1("Floor", math.Floor), "math.Ceil": math1("Ceil", math.Ceil),
		"math.Round": math1("Round", math.Round), "math.Trunc": math1("Trunc", math.Trunc),
		"math.Exp": mathAny("Exp", math.Exp), "math.Log": mathAny("Log", math.Log),
		"math.Log10": math1("Log10", math.Log10), "math.Log2": math1("Log2", math.Log2),
		"math.Acos": math1("Acos", math.Acos), "math.Asin": math1("Asin", math.Asin),
		"math.Atan": math1("Atan", math.Atan), "math.Cbrt": math1("Cbrt", math.Cbrt),
		"math.Atan2": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			return m.fc(math.Atan2(m.needConst(args[0].(*Term), "Atan2"), m.needConst(args[1].(*Term), "Atan2")))
		},
		"math.Mod": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			return m.fc(math.Mod(m.needConst(args[0].(*Term), "Mod"), m.needConst(args[1].(*Term), "Mod")))
		},

		"fmt.Errorf": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			var w []value
			msg := m.sprintf(caller, args[0], varargs(args[1]), &w)
			return m.mkWrap(msg, w)
		},
		"fmt.Sprintf": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			return m.sprintf(caller, args[0], varargs(args[1]), nil)
		},
		"fmt.Sprint": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			return m.sprint(caller, varargs(args[0]), false)
		},
		"fmt.Sprintln": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			return m.sprint(caller, varargs(args[0]), true)
		},
		"fmt.Printf":                  noop,
		"fmt.Println":                 noop,
		"fmt.Print":                   noop,
		"(*fmt.wrapError).Error":      func(m *machine, c *frame, fn *ssa.Function, a []value) value { return (*a[0].(*value)).(structure)[0] },
		"(*fmt.wrapErrors).Error":     func(m *machine, c *frame, fn *ssa.Function, a []value) value { return (*a[0].(*value)).(structure)[0] },
		"(*fmt.wrapError).Unwrap":     func(m *machine, c *frame, fn *ssa.Function, a []value) value { return (*a[0].(*value)).(structure)[1] },
		"(*fmt.wrapErrors).Unwrap":    func(m *machine, c *frame, fn *ssa.Function, a []value) value { return (*a[0].(*value)).(structure)[1] },
		"(*errors.joinError).Error":   func(m *machine, c *frame, fn *ssa.Function, a []value) value { return m.joinMsg(c, a[0]) },
		"errors.Is":                   func(m *machine, c *frame, fn *ssa.Function, a []value) value { return m.errorsIs(c, a[0].(iface), a[1].(iface)) },
		"errors.As":                   func(m *machine, c *frame, fn *ssa.Function, a []value) value { return m.errorsAs(c, a[0].(iface), a[1].(iface)) },
		"(*sync.Mutex).Lock":          noop,
		"(*sync.Mutex).Unlock":        noop,
		"(*sync.Mutex).TryLock":       func(m *machine, c *frame, fn *ssa.Function, a []value) value { return true },
		"(*sync.RWMutex).Lock":        noop,
		"(*sync.RWMutex).Unlock":      noop,
		"(*sync.RWMutex).RLock":       noop,
		"(*sync.RWMutex).RUnlock":     noop,
		"(*sync.WaitGroup).Add":       noop,
		"(*sync.WaitGroup).Done":      noop,
		"(*sync.WaitGroup).Wait":      noop,
		"(*sync.Pool).Put":            noop,
		"runtime.GC":                  noop,
		"runtime.KeepAlive":           noop,
		"runtime.SetFinalizer":        noop,
		"runtime.GOMAXPROCS":          func(m *machine, c *frame, fn *ssa.Function, a []value) value { return 1 },
		"runtime.NumCPU":              func(m *machine, c *frame, fn *ssa.Function, a []value) value { return 1 },
		"(*sync.Pool).Get": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			p := m.ptr(args[0])
			st := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "New" {
					f := (*p).(structure)[i]
					if g, ok := f.(*ssa.Function); ok && g == nil {
						return iface{}
					}
					return m.call(caller, 0, f, nil)
				}
			}
			return iface{}
		},
		"(*sync.Once).Do": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			p := m.ptr(args[0])
			k := fmt.Sprintf("once:%p", p)
			if m.names[k] == 0 {
				m.names[k] = 1
				m.call(caller, 0, args[1], nil)
			}
			return nil
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		"reflect.DeepEqual": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			x, y := a[0].(iface), a[1].(iface)
			if x.t == nil || y.t == nil {
				return x.t == nil && y.t == nil
			}
			if !types.Identical(x.t, y.t) {
				return false
			}
			return m.tb(m.deepEqual(x.t, x.v, y.v, map[[2]any]bool{}))
		},
		"maps.clone": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			it := args[0].(iface)
			return iface{it.t, m.cloneMap(it.v.(*smap))}
		},
		"maps.Clone": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			return m.cloneMap(args[0].(*smap))
		},
		"slices.overlaps": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			a, b := args[0].([]value), args[1].([]value)
			for i := range a {
				for j := range b {
					if &a[i] == &b[j] {
						return true
					}
				}
			}
			return false
		},
		"slices.startIdx": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			a, b := args[0].([]value), args[1].([]value)
			for i := range a {
				if len(b) > 0 && &a[i] == &b[0] {
					return i
				}
			}
			panic(pathUnsupported{"slices.startIdx"})
		},
		"(*strings.Builder).WriteString": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			m.sbAdd(a[0], a[1])
			if s, ok := a[1].(string); ok {
				return tuple{len(s), iface{}}
			}
			return tuple{opaque{s: "length"}, iface{}}
		},
		"(*strings.Builder).WriteByte": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			m.sbAdd(a[0], string([]byte{a[1].(uint8)}))
			return iface{}
		},
		"(*strings.Builder).WriteRune": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			s := string(rune(mustInt(a[1])))
			m.sbAdd(a[0], s)
			return tuple{len(s), iface{}}
		},
		"(*strings.Builder).String": func(m *machine, c *frame, fn *ssa.Function, a []value) value { return m.sbGet(a[0]) },
		"(*strings.Builder).Len": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			if s, ok := m.forceStr(m.sbGet(a[0])); ok {
				return len(s)
			}
			panic(pathUnsupported{"length of opaque string"})
		},
		"(*strings.Builder).Grow":  noop,
		"(*strings.Builder).Reset": func(m *machine, c *frame, fn *ssa.Function, a []value) value { delete(m.builders(), m.ptr(a[0])); return nil },
		// the matrix norm is an input of the condition estimate only
		"gonum.org/v1/gonum/lapack/lapack64.Lansy": func(m *machine, c *frame, fn *ssa.Function, a []value) value { return m.fc(1) },
		"gonum.org/v1/gonum/lapack/lapack64.Lange": func(m *machine, c *frame, fn *ssa.Function, a []value) value { return m.fc(1) },
		"gonum.org/v1/gonum/lapack/lapack64.Lantr": func(m *machine, c *frame, fn *ssa.Function, a []value) value { return m.fc(1) },
		"gonum.org/v1/gonum/lapack/lapack64.Gecon": rcond,
		"gonum.org/v1/gonum/lapack/lapack64.Trcon": rcond,
		"gonum.org/v1/gonum/mat.(*Cholesky).updateCond": cholCond,
		"gonum.org/v1/gonum/mat.offset": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			x, y := a[0].([]value), a[1].([]value)
			return (int(uintptr(unsafe.Pointer(&y[0]))) - int(uintptr(unsafe.Pointer(&x[0])))) / int(unsafe.Sizeof(x[0]))
		},
		"(*gonum.org/v1/gonum/mat.Cholesky).updateCond": cholCond,
		"encoding/json.Unmarshal":                       jsonUnmarshal,
		"encoding/json.Valid":                           jsonValid,
		"encoding/json.NewDecoder":                      jsonNewDecoder,
		"(*encoding/json.Decoder).DisallowUnknownFields": jsonDisallowUnknown,
		"(*encoding/json.Decoder).Decode":               jsonDecode,
	}
}

// cholCond replaces gonum's condition number estimate: well conditioned or hopelessly conditioned.
func cholCond(m *machine, caller *frame, fn *ssa.Function, args []value) value {
	s := (*m.ptr(args[0])).(structure)
	st := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "cond" {
			s[i] = m.fc(1)
			if m.badCond {
				s[i] = m.fc(math.Inf(1))
			}
		}
	}
	return nil
}

// rcond replaces LAPACK's estimate of the reciprocal condition number of a factorised matrix: zero if
// a pivot vanishes (or the harness wants a hopeless one), otherwise one.
func rcond(m *machine, caller *frame, fn *ssa.Function, args []value) value {
	if m.badCond {
		return m.fc(0)
	}
	s := args[1].(structure)
	st := fn.Signature.Params().At(1).Type().Underlying().(*types.Struct)
	var data []value
	var stride, n int64
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Data":
			data = s[i].([]value)
		case "Stride":
			stride, _ = asInt(s[i])
		case "Rows", "N":
			n, _ = asInt(s[i])
		}
	}
	for i := int64(0); i < n; i++ {
		if m.truth(m.tb(m.c.cmp(OpEq, m.toTerm(data[i*stride+i]), m.fc(0)))) {
			return m.fc(0)
		}
	}
	return m.fc(1)
}

func noop(m *machine, caller *frame, fn *ssa.Function, args []value) value { return m.zeroResults(fn) }

func (m *machine) builders() map[*value]value {
	if m.sb == nil {
		m.sb = map[*value]value{}
	}
	return m.sb
}

func (m *machine) sbAdd(p, s value) {
	b := m.builders()
	old, ok := b[m.ptr(p)]
	if !ok {
		old = ""
	}
	so, ok1 := old.(string)
	sn, ok2 := s.(string)
	if ok1 && ok2 {
		b[m.ptr(p)] = so + sn
	} else {
		b[m.ptr(p)] = m.concatStr(old, s)
	}
}

func (m *machine) sbGet(p value) value {
	if v, ok := m.builders()[m.ptr(p)]; ok {
		return v
	}
	return ""
}

func (m *machine) cloneMap(s *smap) value {
	if s == nil {
		return s
	}
	o := &smap{t: s.t, index: map[string]*mapEntry{}, symKeys: s.symKeys}
	for _, e := range s.entries {
		if e.dead {
			continue
		}
		n := &mapEntry{k: copyVal(e.k), v: copyVal(e.v)}
		o.entries = append(o.entries, n)
		if ck, ok := concreteKey(e.k); ok {
			o.index[ck] = n
		}
	}
	return o
}

func sortSlice(m *machine, caller *frame, fn *ssa.Function, args []value) value {
	s := args[0].(iface).v.([]value)
	less := args[1]
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !m.truth(m.call(caller, 0, less, []value{j, j - 1})) {
				break
			}
			a, b := copyVal(s[j]), copyVal(s[j-1])
			store(&s[j], b)
			store(&s[j-1], a)
		}
	}
	return nil
}

func (m *machine) joinMsg(c *frame, v value) value {
	errs := (*m.ptr(v)).(structure)[0].([]value)
	out := ""
	opq := false
	for i, e := range errs {
		s, ok := m.hostValue(c, e, 0)
		opq = opq || !ok
		if i > 0 {
			out += "\n"
		}
		out += fmt.Sprint(s)
	}
	if opq {
		return opaque{s: out}
	}
	return out
}

func (m *machine) unwrap(c *frame, e iface) []iface {
	f := m.findMethod(e.t, "Unwrap")
	if f == nil {
		return nil
	}
	switch r := m.call(c, 0, f, []value{e.v}).(type) {
	case iface:
		if r.t == nil {
			return nil
		}
		return []iface{r}
	case []value:
		var out []iface
		for _, x := range r {
			out = append(out, x.(iface))
		}
		return out
	}
	return nil
}

func (m *machine) errorsIs(c *frame, e, target iface) bool {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	if types.Comparable(target.t) && types.Identical(e.t, target.t) && m.truth(m.equal(e.t, e.v, target.v)) {
		return true
	}
	if f := m.findMethod(e.t, "Is"); f != nil && m.truth(m.call(c, 0, f, []value{e.v, target})) {
		return true
	}
	for _, u := range m.unwrap(c, e) {
		if u.t != nil && m.errorsIs(c, u, target) {
			return true
		}
	}
	return false
}

func (m *machine) errorsAs(c *frame, e, target iface) bool {
	if e.t == nil {
		return false
	}
	tt := target.t.(*types.Pointer).Elem()
	ok := false
	if it, isI := tt.Underlying().(*types.Interface); isI {
		meth, _ := types.MissingMethod(e.t, it, true)
		ok = meth == nil
		if ok {
			store(m.ptr(target.v), e)
			return true
		}
	} else if types.Identical(e.t, tt) {
		store(m.ptr(target.v), e.v)
		return true
	}
	for _, u := range m.unwrap(c, e) {
		if u.t != nil && m.errorsAs(c, u, target) {
			return true
		}
	}
	return false
}

// native bridges ------------------------------------------------------------------------------------

var nativeFuncs = map[string]any{
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.Contains": strings.Contains,
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Split": strings.Split,
	"strings.Join": strings.Join, "strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.EqualFold": strings.EqualFold,
	"strings.Index": strings.Index, "strings.Repeat": strings.Repeat, "strings.Fields": strings.Fields,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Title": strings.Title,
	"strings.Count": strings.Count, "strings.IndexByte": strings.IndexByte, "strings.LastIndex": strings.LastIndex,
	"strings.SplitN": strings.SplitN, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.Cut": strings.Cut, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
	"strings.Compare": strings.Compare, "strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny,
	"strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny, "strings.LastIndexByte": strings.LastIndexByte,
	"strings.SplitAfter": strings.SplitAfter, "strings.ToTitle": strings.ToTitle, "strings.Clone": strings.Clone,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString,
	"strconv.Itoa": strconv.Itoa, "strconv.Quote": strconv.Quote, "strconv.FormatInt": strconv.FormatInt,
	"strconv.FormatFloat": strconv.FormatFloat, "strconv.FormatBool": strconv.FormatBool,
	"strconv.Atoi": strconv.Atoi, "strconv.ParseFloat": strconv.ParseFloat, "strconv.ParseInt": strconv.ParseInt,
	"strconv.ParseBool": strconv.ParseBool,
	"unicode.IsUpper":   unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsDigit": unicode.IsDigit,
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsSpace": unicode.IsSpace, "unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper,
}

func bridge(name string, f any) intrinsic {
	rv := reflect.ValueOf(f)
	rt := rv.Type()
	return func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
		in := make([]reflect.Value, len(args))
		for i, a := range args {
			pt := rt.In(i)
			switch pt.Kind() {
			case reflect.String:
				s, ok := a.(string)
				if t, isT := a.(*Term); isT && t.isC() && t.sort == SStr {
					s, ok = t.str, true
				}
				if !ok {
					s, ok = m.forceStr(a)
				}
				if !ok {
					if fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type()) {
						return opaque{s: "string"}
					}
					panic(pathUnsupported{name + " on symbolic string"})
				}
				in[i] = reflect.ValueOf(s)
			case reflect.Float64:
				t := a.(*Term)
				if !t.isC() && fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type()) {
					return opaque{s: "number"}
				}
				in[i] = reflect.ValueOf(m.needConst(t, name))
			case reflect.Bool:
				in[i] = reflect.ValueOf(m.truth(a))
			case reflect.Slice:
				var ss []string
				for _, x := range a.([]value) {
					s, ok := m.forceStr(x)
					if !ok {
						return opaque{s: "string"}
					}
					ss = append(ss, s)
				}
				in[i] = reflect.ValueOf(ss)
			default:
				in[i] = reflect.ValueOf(mustInt(a)).Convert(pt)
			}
		}
		out := rv.Call(in)
		res := make(tuple, len(out))
		for i, o := range out {
			t := fn.Signature.Results().At(i).Type()
			switch o.Kind() {
			case reflect.String:
				res[i] = o.String()
			case reflect.Bool:
				res[i] = o.Bool()
			case reflect.Float64:
				res[i] = m.fc(o.Float())
			case reflect.Slice:
				s := []value{}
				for k := 0; k < o.Len(); k++ {
					s = append(s, o.Index(k).String())
				}
				res[i] = s
			case reflect.Interface:
				if o.IsNil() {
					res[i] = iface{}
				} else {
					res[i] = m.mkError(fmt.Sprint(o.Interface()))
				}
			case reflect.Int, reflect.Int32, reflect.Int64:
				res[i] = mkInt(t, o.Int())
			default:
				res[i] = mkInt(t, int64(o.Uint()))
			}
		}
		if len(res) == 1 {
			return res[0]
		}
		return res
	}
}

// harness primitives --------------------------------------------------------------------------------

func (m *machine) uname(v value) string {
	n, ok := v.(string)
	if !ok {
		panic(pathUnsupported{"symbolic input name"})
	}
	k := m.names["in:"+n]
	m.names["in:"+n]++
	if k > 0 {
		n = fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (m *machine) newReal(name string) *Term {
	s := SReal
	kind := "real"
	if m.fpMode {
		s, kind = SFP, "fp"
	}
	t := m.c.mkVar(name, s)
	m.inputs = append(m.inputs, &inputRec{name: name, kind: kind, t: t})
	return t
}

func (m *machine) label(v value) string {
	switch v := v.(type) {
	case string:
		return v
	case opaque:
		return v.s
	}
	return "?"
}

var vfIntrinsics map[string]intrinsic

func init() {
	vfIntrinsics = map[string]intrinsic{
		"vfF": func(m *machine, c *frame, fn *ssa.Function, a []value) value { return m.newReal(m.uname(a[0])) },
		"vfPos": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			t := m.newReal(m.uname(a[0]))
			vi := m.c.g.vars[t.vid]
			vi.pos, vi.nn = true, true
			return t
		},
		"vfNN": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			t := m.newReal(m.uname(a[0]))
			m.c.g.vars[t.vid].nn = true
			return t
		},
		"vfSlack": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			t := m.newReal(m.uname(a[0]))
			m.c.g.vars[t.vid].slack = true
			return t
		},
		"vfFresh": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			return m.newReal(m.uname(a[0]))
		},
		"vfDir2": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			n := m.uname(a[0])
			co, si := m.newDir(n, "")
			m.inputs = append(m.inputs, &inputRec{name: n + ".c", kind: "real", t: co}, &inputRec{name: n + ".s", kind: "real", t: si})
			return tuple{co, si}
		},
		"vfDir3": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			n := m.uname(a[0])
			g := m.c.g
			x, y, z := m.c.mkVar(n+".ux", SReal), m.c.mkVar(n+".uy", SReal), m.c.mkVar(n+".uz", SReal)
			vi := g.vars[z.vid]
			vi.hasR = true
			vi.rule = Poly{"": ratOne, monoVar(x.vid, 2): ratMinusOne, monoVar(y.vid, 2): ratMinusOne}
			for _, t := range []*Term{x, y, z} {
				m.inputs = append(m.inputs, &inputRec{name: t.name, kind: "real", t: t})
			}
			return tuple{x, y, z}
		},
		"vfAngle": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			n := m.uname(a[0])
			th := m.c.mkVar(n, SReal)
			r := m.c.nf(th)
			co, si := m.newDir(n, r.n.key()+"/"+fmt.Sprint(r.d))
			m.inputs = append(m.inputs, &inputRec{name: n, kind: "real", t: th},
				&inputRec{name: n + ".c", kind: "real", t: co}, &inputRec{name: n + ".s", kind: "real", t: si})
			return th
		},
		"vfFind": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			root, like := a[0].(iface), a[1].(iface)
			var found []value
			seen := map[*value]bool{}
			var walk func(t types.Type, v value)
			walk = func(t types.Type, v value) {
				if types.Identical(t, like.t) {
					found = append(found, iface{t, copyVal(v)})
					return
				}
				switch u := t.Underlying().(type) {
				case *types.Pointer:
					if p, ok := v.(*value); ok && p != nil && !seen[p] {
						seen[p] = true
						walk(u.Elem(), *p)
					}
				case *types.Interface:
					if i, ok := v.(iface); ok && i.t != nil {
						walk(i.t, i.v)
					}
				case *types.Struct:
					if s, ok := v.(structure); ok {
						for i, f := range s {
							walk(u.Field(i).Type(), f)
						}
					}
				case *types.Array:
					if s, ok := v.(array); ok {
						for _, e := range s {
							walk(u.Elem(), e)
						}
					}
				case *types.Slice:
					if s, ok := v.([]value); ok {
						for _, e := range s {
							walk(u.Elem(), e)
						}
					}
				case *types.Map:
					if s, ok := v.(*smap); ok && s != nil {
						for _, e := range s.entries {
							if !e.dead {
								walk(u.Elem(), e.v)
							}
						}
					}
				}
			}
			walk(root.t, root.v)
			return found
		},
		"vfInt": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			n := m.uname(a[0])
			lo, hi := mustInt(a[1]), mustInt(a[2])
			k := m.choose(int(hi-lo+1), n)
			v := int(lo) + k
			m.inputs = append(m.inputs, &inputRec{name: n, kind: "int", i: v})
			return v
		},
		"vfBool": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			n := m.uname(a[0])
			k := m.choose(2, n) == 1
			m.inputs = append(m.inputs, &inputRec{name: n, kind: "bool", b: k})
			return k
		},
		"vfStr": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			n := m.uname(a[0])
			t := m.c.mkVar(n, SStr)
			m.inputs = append(m.inputs, &inputRec{name: n, kind: "str", t: t})
			return t
		},
		"vfAssume": func(m *machine, c *frame, fn *ssa.Function, a []value) value { m.assume(a[0]); return nil },
		"vfZero": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			m.assumeZero(a[0].(*Term))
			return nil
		},
		"vfEq": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			m.vfEq(m.label(a[0]), a[1].(*Term), a[2].(*Term))
			return nil
		},
		"vfLe": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			x, y := a[1].(*Term), a[2].(*Term)
			l := m.label(a[0])
			m.log = append(m.log, logEntry{kind: "le", label: l})
			t := m.c.cmp(OpLe, x, y)
			if x.op == OpNaN || y.op == OpNaN {
				t = m.c.tFalse
			}
			m.assertTerm(l, t, nil, nil)
			return nil
		},
		"vfCheck": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			l := m.label(a[0])
			m.log = append(m.log, logEntry{kind: "check", label: l})
			m.assertTerm(l, m.toTerm(a[1]), nil, nil)
			return nil
		},
		"vfCover": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			h := m.ex.hs[m.harness]
			m.ex.mu.Lock()
			h.covers[m.label(a[0])]++
			m.ex.mu.Unlock()
			return nil
		},
		"vfMapOrder": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			m.mapPol, m.mapBud = a[0].(string), int(mustInt(a[1]))
			return nil
		},
		"vfIllConditioned": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			m.badCond = true
			return nil
		},
		"vfNative": func(m *machine, c *frame, fn *ssa.Function, a []value) value { return false },
		"vfIntStr": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			return strconv.Itoa(int(mustInt(a[0])))
		},
		// vfFails runs a function with a test handle and tells whether it reported a failure.
		"vfFails": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			t := new(value)
			*t = m.zero(deref(fn.Signature.Params().At(0).Type().Underlying().(*types.Signature).Params().At(0).Type()))
			before := m.tFailed
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(targetGoexit); !ok {
							panic(r)
						}
					}
				}()
				m.call(c, 0, a[0], []value{t})
			}()
			n := m.tFailed
			m.tFailed = before
			return n > before
		},
		"vfDoc": func(m *machine, c *frame, fn *ssa.Function, a []value) value {
			return m.vfDoc(a[0], a[1].(*smap))
		},
	}
}

func (m *machine) vfEq(label string, a, b *Term) {
	m.log = append(m.log, logEntry{kind: "eq", label: label, a: a, b: b})
	if a.isSpecial() || b.isSpecial() {
		m.assertTerm(label, m.c.boolConst(a == b && a.op != OpNaN), nil, nil)
		return
	}
	m.assertTerm(label, m.c.cmp(OpEq, a, b), a, b)
}

// assumeZero assumes t = 0, eliminating a slack variable where possible.
func (m *machine) assumeZero(t *Term) {
	c := m.c
	if t.isSpecial() {
		panic(pathInfeasible{})
	}
	r := c.nf(t)
	if len(r.n) == 0 {
		return
	}
	vs := map[int]bool{}
	c.g.polyVars(r.n, vs)
	var best = -1
	var coef, rest Poly
	for _, v := range sortedSet(vs) {
		vi := c.g.vars[v]
		if !vi.slack || vi.subst != nil {
			continue
		}
		co, re, ok := splitLinear(r.n, v)
		if !ok {
			continue
		}
		if k, isC := co.isConst(); isC && k.Sign() != 0 {
			best, coef, rest = v, co, re
			break
		}
		if s, nz := c.signOf(co); best < 0 && (nz || s == sgPos || s == sgNeg) {
			best, coef, rest = v, co, re
		}
	}
	if best < 0 {
		m.assume(m.tb(c.cmp(OpEq, t, c.realConst(ratZero))))
		return
	}
	by := c.g.rfMul(&RF{n: polyNeg(rest)}, c.g.rfInv(&RF{n: coef}))
	vi := c.g.vars[best]
	vi.subst = by
	for _, o := range c.g.vars {
		if o.subst != nil && o != vi {
			o.subst = c.g.rfSubst(o.subst, best, by)
		}
	}
	c.defs[vi.name] = t
	c.epoch++
}

// splitLinear writes p = co*v + re if p is linear in v.
func splitLinear(p Poly, v int) (co, re Poly, ok bool) {
	co, re = Poly{}, Poly{}
	vm := monoVar(v, 1)
	for m, c := range p {
		e := 0
		for i := 0; i < m.n(); i++ {
			w, x := m.at(i)
			if w == v {
				e = x
			}
		}
		switch e {
		case 0:
			re[m] = c
		case 1:
			q, _ := monoDiv(m, vm)
			co[q] = c
		default:
			return nil, nil, false
		}
	}
	return co, re, len(co) > 0
}

func (g *algebra) rfSubst(r *RF, v int, by *RF) *RF {
	has := func(p Poly) bool {
		vs := map[int]bool{}
		g.polyVars(p, vs)
		return vs[v]
	}
	sub := func(p Poly) *RF {
		if !has(p) {
			return &RF{n: p}
		}
		out := &RF{n: Poly{}}
		for m, c := range p {
			t := &RF{n: Poly{}}
			t.n[stripVar(m, v)] = c
			for i := 0; i < m.n(); i++ {
				w, e := m.at(i)
				if w == v {
					for k := 0; k < e; k++ {
						t = g.rfMul(t, by)
					}
				}
			}
			out = g.rfAdd(out, t)
		}
		return out
	}
	out := sub(r.n)
	for _, f := range sortedKeys(r.d) {
		inv := g.rfInv(sub(g.factors[f].p))
		for k := 0; k < r.d[f]; k++ {
			out = g.rfMul(out, inv)
		}
	}
	return out
}

func stripVar(m Mono, v int) Mono {
	out := []byte{}
	for i := 0; i < len(m); i += 3 {
		if int(m[i])<<8|int(m[i+1]) == v {
			continue
		}
		out = append(out, m[i:i+3]...)
	}
	return Mono(out)
}
