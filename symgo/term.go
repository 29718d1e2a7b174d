package main

// Symbolic terms. Real-sorted terms are kept as a DAG and brought into rational-function normal form
// on demand; FP-sorted terms stay DAGs.

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
)

type Op uint8

const (
	OpVar Op = iota
	OpConst
	OpNaN
	OpPInf
	OpNInf
	OpAdd
	OpSub
	OpMul
	OpDiv
	OpNeg
	// boolean
	OpTrue
	OpFalse
	OpNot
	OpLt
	OpLe
	OpEq // real, fp, bool or string operands
	OpAnd
	OpOr
	OpIsNaN
	OpIsInf
	// fp only
	OpAbs
	OpSqrt
)

type Sort uint8

const (
	SReal Sort = iota
	SFP
	SBool
	SStr
)

type Term struct {
	op    Op
	sort  Sort
	args  []*Term
	name  string   // variables
	rat   *big.Rat // real constants
	f     float64  // fp constants
	str   string   // string constants
	id    int
	nf    *RF
	epoch int
	vid   int // variable id in algebra (real variables)
}

type termKey struct {
	op      Op
	sort    Sort
	a, b, c int
	s       string
}

type tctx struct {
	g     *algebra
	tab   map[termKey]*Term
	nextI int
	epoch int
	vars  []*Term // all symbolic variables in creation order
	defs  map[string]*Term // slack var name -> definition (for model evaluation)
	sqrts map[string]*Term // polynomial key -> sqrt symbol
	trig  map[string][2]*Term
	tTrue, tFalse, tNaN, tPInf, tNInf *Term
	facts map[string]sgn
	aux   []auxDef

	eqs      []Poly // polynomials that vanish on this path
	idl      *ideal
	idlEpoch int
}

// auxDef records how an auxiliary symbol is computed from other terms (for numeric evaluation).
type auxDef struct {
	v    *Term
	kind string // "sqrt", "cos", "sin", ...
	arg  *Term
}

func newTctx() *tctx {
	c := &tctx{g: newAlgebra(), tab: map[termKey]*Term{}, defs: map[string]*Term{},
		sqrts: map[string]*Term{}, trig: map[string][2]*Term{}, facts: map[string]sgn{}}
	c.tTrue = c.mk(OpTrue, SBool, "")
	c.tFalse = c.mk(OpFalse, SBool, "")
	c.tNaN = c.mk(OpNaN, SReal, "")
	c.tPInf = c.mk(OpPInf, SReal, "")
	c.tNInf = c.mk(OpNInf, SReal, "")
	return c
}

func (c *tctx) mk(op Op, s Sort, str string, args ...*Term) *Term {
	k := termKey{op: op, sort: s, a: -1, b: -1, c: -1, s: str}
	if len(args) > 0 {
		k.a = args[0].id
	}
	if len(args) > 1 {
		k.b = args[1].id
	}
	if len(args) > 2 {
		k.c = args[2].id
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, sort: s, args: args, id: c.nextI, epoch: -1, vid: -1}
	c.nextI++
	switch op {
	case OpVar:
		t.name = str
		c.vars = append(c.vars, t)
		if s == SReal {
			t.vid = c.g.newVar(str)
		}
	case OpConst:
		if s == SStr {
			t.str = str
		}
	}
	c.tab[k] = t
	return t
}

func (c *tctx) mkVar(name string, s Sort) *Term { return c.mk(OpVar, s, name) }

func (c *tctx) realConst(r *big.Rat) *Term {
	t := c.mk(OpConst, SReal, r.RatString())
	t.rat = r
	return t
}

func (c *tctx) fpConst(f float64) *Term {
	t := c.mk(OpConst, SFP, strconv.FormatUint(math.Float64bits(f), 16))
	t.f = f
	return t
}

func (c *tctx) strConst(s string) *Term { return c.mk(OpConst, SStr, s) }

func (c *tctx) boolConst(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}

// floatConst converts a Go float64 constant. In Real mode it is the simplest rational that rounds to it.
func (c *tctx) floatConst(f float64, fp bool) *Term {
	if fp {
		return c.fpConst(f)
	}
	switch {
	case math.IsNaN(f):
		return c.tNaN
	case math.IsInf(f, 1):
		return c.tPInf
	case math.IsInf(f, -1):
		return c.tNInf
	}
	return c.realConst(simplestRat(f))
}

// simplestRat returns the rational with the smallest denominator which rounds to f.
func simplestRat(f float64) *big.Rat {
	if f == math.Trunc(f) && math.Abs(f) < 1e15 {
		return new(big.Rat).SetFloat64(f)
	}
	if f < 0 {
		return new(big.Rat).Neg(simplestRat(-f))
	}
	// decimal with few digits: prefer (1e-10, 0.1)
	s := strconv.FormatFloat(f, 'e', -1, 64)
	if len(s) < 14 {
		if r, ok := new(big.Rat).SetString(s); ok {
			return r
		}
	}
	up, down := math.Nextafter(f, math.Inf(1)), math.Nextafter(f, 0)
	x := new(big.Rat).SetFloat64(f)
	half := big.NewRat(1, 2)
	lo := new(big.Rat).Add(x, new(big.Rat).SetFloat64(down))
	lo.Mul(lo, half)
	hi := x
	if !math.IsInf(up, 0) {
		hi = new(big.Rat).Add(x, new(big.Rat).SetFloat64(up))
		hi.Mul(hi, half)
	}
	r := simplestBetween(lo, hi)
	if g, _ := r.Float64(); g != f {
		return x
	}
	return r
}

func simplestBetween(lo, hi *big.Rat) *big.Rat {
	fl := new(big.Int).Quo(lo.Num(), lo.Denom())
	flr := new(big.Rat).SetInt(fl)
	if flr.Cmp(lo) == 0 {
		return flr
	}
	next := new(big.Rat).Add(flr, ratOne)
	if next.Cmp(hi) <= 0 {
		return next
	}
	a := new(big.Rat).Sub(lo, flr)
	b := new(big.Rat).Sub(hi, flr)
	r := simplestBetween(new(big.Rat).Inv(b), new(big.Rat).Inv(a))
	return new(big.Rat).Add(flr, new(big.Rat).Inv(r))
}

func (t *Term) isSpecial() bool { return t.op == OpNaN || t.op == OpPInf || t.op == OpNInf }
func (t *Term) isC() bool       { return t.op == OpConst }

// Real arithmetic -----------------------------------------------------------------------------------

func (c *tctx) neg(a *Term) *Term {
	if a.sort == SFP {
		if a.isC() {
			return c.fpConst(-a.f)
		}
		return c.mk(OpNeg, SFP, "", a)
	}
	switch a.op {
	case OpConst:
		return c.realConst(new(big.Rat).Neg(a.rat))
	case OpNaN:
		return a
	case OpPInf:
		return c.tNInf
	case OpNInf:
		return c.tPInf
	case OpNeg:
		return a.args[0]
	}
	return c.mk(OpNeg, SReal, "", a)
}

func (c *tctx) add(a, b *Term) *Term {
	if a.sort == SFP {
		if a.isC() && b.isC() {
			return c.fpConst(a.f + b.f)
		}
		return c.mk(OpAdd, SFP, "", a, b)
	}
	if a.isSpecial() || b.isSpecial() {
		return c.specialAdd(a, b)
	}
	if a.isC() && b.isC() {
		return c.realConst(new(big.Rat).Add(a.rat, b.rat))
	}
	if a.isC() && a.rat.Sign() == 0 {
		return b
	}
	if b.isC() && b.rat.Sign() == 0 {
		return a
	}
	if b.op == OpNeg {
		return c.sub(a, b.args[0])
	}
	return c.mk(OpAdd, SReal, "", a, b)
}

func (c *tctx) specialAdd(a, b *Term) *Term {
	if a.op == OpNaN || b.op == OpNaN {
		return c.tNaN
	}
	if a.isSpecial() && b.isSpecial() {
		if a == b {
			return a
		}
		return c.tNaN
	}
	if a.isSpecial() {
		return a
	}
	return b
}

func (c *tctx) sub(a, b *Term) *Term {
	if a.sort == SFP {
		if a.isC() && b.isC() {
			return c.fpConst(a.f - b.f)
		}
		return c.mk(OpSub, SFP, "", a, b)
	}
	if a.isSpecial() || b.isSpecial() {
		return c.specialAdd(a, c.neg(b))
	}
	if a.isC() && b.isC() {
		return c.realConst(new(big.Rat).Sub(a.rat, b.rat))
	}
	if b.isC() && b.rat.Sign() == 0 {
		return a
	}
	if a.isC() && a.rat.Sign() == 0 {
		return c.neg(b)
	}
	if a == b {
		return c.realConst(ratZero)
	}
	return c.mk(OpSub, SReal, "", a, b)
}

func (c *tctx) mul(a, b *Term) *Term {
	if a.sort == SFP {
		if a.isC() && b.isC() {
			return c.fpConst(a.f * b.f)
		}
		return c.mk(OpMul, SFP, "", a, b)
	}
	if a.isSpecial() || b.isSpecial() {
		return c.specialMul(a, b)
	}
	if a.isC() && b.isC() {
		return c.realConst(new(big.Rat).Mul(a.rat, b.rat))
	}
	if b.isC() {
		a, b = b, a
	}
	if a.isC() {
		switch {
		case a.rat.Sign() == 0:
			return a
		case a.rat.Cmp(ratOne) == 0:
			return b
		case a.rat.Cmp(ratMinusOne) == 0:
			return c.neg(b)
		}
	}
	return c.mk(OpMul, SReal, "", a, b)
}

func (c *tctx) constSign(a *Term) (int, bool) {
	switch a.op {
	case OpPInf:
		return 1, true
	case OpNInf:
		return -1, true
	case OpConst:
		return a.rat.Sign(), true
	}
	switch c.g.polySign(c.g.numSignPoly(c.nf(a))) {
	case sgPos:
		return 1, true
	case sgNeg:
		return -1, true
	case sgZero:
		return 0, true
	}
	return 0, false
}

func (c *tctx) specialMul(a, b *Term) *Term {
	if a.op == OpNaN || b.op == OpNaN {
		return c.tNaN
	}
	sa, oka := c.constSign(a)
	sb, okb := c.constSign(b)
	if !oka || !okb {
		panic(pathUnsupported{"infinity times value of unknown sign"})
	}
	switch {
	case sa*sb > 0:
		return c.tPInf
	case sa*sb < 0:
		return c.tNInf
	}
	return c.tNaN
}

// div: caller has ensured that b is non-zero (Real mode).
func (c *tctx) div(a, b *Term) *Term {
	if a.sort == SFP {
		if a.isC() && b.isC() {
			return c.fpConst(a.f / b.f)
		}
		return c.mk(OpDiv, SFP, "", a, b)
	}
	if a.op == OpNaN || b.op == OpNaN {
		return c.tNaN
	}
	if b.isSpecial() {
		if a.isSpecial() {
			return c.tNaN
		}
		return c.realConst(ratZero)
	}
	if a.isSpecial() {
		return c.specialMul(a, c.mk(OpDiv, SReal, "", c.realConst(ratOne), b))
	}
	if b.isC() {
		return c.mul(c.realConst(new(big.Rat).Inv(b.rat)), a)
	}
	if a.isC() && a.rat.Sign() == 0 {
		return a
	}
	if a == b {
		return c.realConst(ratOne)
	}
	return c.mk(OpDiv, SReal, "", a, b)
}

// normal form of a real term
func (c *tctx) nf(t *Term) *RF {
	if t.nf != nil && t.epoch == c.epoch {
		return t.nf
	}
	var r *RF
	switch t.op {
	case OpVar:
		r = c.g.rfVar(t.vid)
	case OpConst:
		r = rfConst(t.rat)
	case OpAdd:
		r = c.g.rfAdd(c.nf(t.args[0]), c.nf(t.args[1]))
	case OpSub:
		r = c.g.rfAdd(c.nf(t.args[0]), c.g.rfNeg(c.nf(t.args[1])))
	case OpNeg:
		r = c.g.rfNeg(c.nf(t.args[0]))
	case OpMul:
		r = c.g.rfMul(c.nf(t.args[0]), c.nf(t.args[1]))
	case OpDiv:
		b := c.nf(t.args[1])
		if len(b.n) == 0 {
			panic(pathUnsupported{"division by a term that is identically zero"})
		}
		r = c.g.rfMul(c.nf(t.args[0]), c.g.rfInv(b))
	default:
		panic(pathUnsupported{fmt.Sprintf("no normal form for op %d", t.op)})
	}
	t.nf, t.epoch = r, c.epoch
	return r
}

// booleans ------------------------------------------------------------------------------------------

func (c *tctx) not(a *Term) *Term {
	switch a.op {
	case OpTrue:
		return c.tFalse
	case OpFalse:
		return c.tTrue
	case OpNot:
		return a.args[0]
	}
	return c.mk(OpNot, SBool, "", a)
}

func (c *tctx) and(a, b *Term) *Term {
	switch {
	case a == c.tTrue:
		return b
	case b == c.tTrue:
		return a
	case a == c.tFalse || b == c.tFalse:
		return c.tFalse
	}
	return c.mk(OpAnd, SBool, "", a, b)
}

func (c *tctx) or(a, b *Term) *Term { return c.not(c.and(c.not(a), c.not(b))) }

func (c *tctx) cmp(op Op, a, b *Term) *Term {
	if a.sort == SFP {
		if a.isC() && b.isC() {
			switch op {
			case OpLt:
				return c.boolConst(a.f < b.f)
			case OpLe:
				return c.boolConst(a.f <= b.f)
			case OpEq:
				return c.boolConst(a.f == b.f)
			}
		}
		return c.mk(op, SBool, "", a, b)
	}
	if a.sort == SStr {
		if a.isC() && b.isC() {
			switch op {
			case OpLt:
				return c.boolConst(a.str < b.str)
			case OpLe:
				return c.boolConst(a.str <= b.str)
			case OpEq:
				return c.boolConst(a.str == b.str)
			}
		}
		if a == b {
			return c.boolConst(op != OpLt)
		}
		return c.mk(op, SBool, "", a, b)
	}
	if a.sort == SBool {
		if a == b {
			return c.tTrue
		}
		if a == c.tTrue {
			return b
		}
		if b == c.tTrue {
			return a
		}
		if a == c.tFalse {
			return c.not(b)
		}
		if b == c.tFalse {
			return c.not(a)
		}
		return c.mk(OpEq, SBool, "", a, b)
	}
	if a.isSpecial() || b.isSpecial() {
		if a.op == OpNaN || b.op == OpNaN {
			return c.tFalse
		}
		rank := func(t *Term) int {
			switch t.op {
			case OpPInf:
				return 1
			case OpNInf:
				return -1
			}
			return 0
		}
		ra, rb := rank(a), rank(b)
		switch op {
		case OpLt:
			return c.boolConst(ra < rb)
		case OpLe:
			return c.boolConst(ra <= rb)
		case OpEq:
			return c.boolConst(ra == rb)
		}
	}
	if a.isC() && b.isC() {
		x := a.rat.Cmp(b.rat)
		switch op {
		case OpLt:
			return c.boolConst(x < 0)
		case OpLe:
			return c.boolConst(x <= 0)
		case OpEq:
			return c.boolConst(x == 0)
		}
	}
	if a == b {
		return c.boolConst(op != OpLt)
	}
	return c.mk(op, SBool, "", a, b)
}

// atomPoly brings a real comparison a op b into "p op 0".
func (c *tctx) atomPoly(t *Term) Poly {
	d := c.g.rfAdd(c.nf(t.args[0]), c.g.rfNeg(c.nf(t.args[1])))
	if t.op == OpEq {
		return d.n
	}
	return c.g.numSignPoly(d)
}

func normKey(p Poly) (string, int) {
	if len(p) == 0 {
		return "", 0
	}
	lc := p[p.leading()]
	q := polyScale(p, new(big.Rat).Inv(lc))
	return q.key(), lc.Sign()
}

func flip(s sgn) sgn {
	switch s {
	case sgPos:
		return sgNeg
	case sgNeg:
		return sgPos
	case sgNN:
		return sgNP
	case sgNP:
		return sgNN
	}
	return s
}

// signOf combines structural sign analysis with recorded facts; nz tells whether p != 0 is known.
func (c *tctx) signOf(p Poly) (s sgn, nz bool) {
	s = c.g.polySign(p)
	if s == sgPos || s == sgNeg {
		return s, true
	}
	if s == sgZero {
		return s, false
	}
	k, sg := normKey(p)
	if f, ok := c.facts[k]; ok {
		if sg < 0 {
			f = flip(f)
		}
		if s == sgUnknown || f == sgPos || f == sgNeg || f == sgZero {
			s = f
		}
		nz = s == sgPos || s == sgNeg
	}
	if c.facts["nz:"+k] == 1 {
		nz = true
		if s == sgNN {
			s = sgPos
		}
		if s == sgNP {
			s = sgNeg
		}
	}
	if s == sgUnknown && !nz {
		s, nz = c.factorSign(p)
	}
	if s != sgPos && s != sgNeg && s != sgZero && len(c.eqs) > 0 {
		if q, changed := c.modPath(p); changed {
			if len(q) == 0 {
				return sgZero, false
			}
			eqs := c.eqs
			c.eqs = nil
			s2, nz2 := c.signOf(q)
			c.eqs = eqs
			if s == sgUnknown || s2 == sgPos || s2 == sgNeg || s2 == sgZero {
				s = s2
			}
			nz = nz || nz2
		}
	}
	return s, nz
}

// factorSign derives the sign of p from those of its factors.
func (c *tctx) factorSign(p Poly) (sgn, bool) {
	if len(p) > 200 {
		return sgUnknown, false
	}
	for _, vi := range c.g.vars { // v^2 = rule, hence rule >= 0
		if vi.hasR && len(vi.rule) > 1 && vi.nnKey == "" {
			vi.nnKey, vi.nnSg = normKey(vi.rule)
			f := sgNN
			if vi.pos {
				f = sgPos
			}
			if vi.nnSg < 0 {
				f = flip(f)
			}
			if o, ok := c.facts[vi.nnKey]; !ok || o == sgUnknown {
				c.facts[vi.nnKey] = f
			}
			vi.nnKey += "!"
		}
	}
	co, d := c.g.factorise(p)
	dir, strict, known, nz := co.Sign(), true, true, true
	for _, f := range sortedKeys(d) {
		fp := c.g.factors[f].p
		s := c.g.polySign(fp)
		k, sg := normKey(fp)
		fnz := s == sgPos || s == sgNeg || c.facts["nz:"+k] == 1
		if v, ok := c.facts[k]; ok && v != sgUnknown {
			if sg < 0 {
				v = flip(v)
			}
			if s == sgUnknown || v == sgPos || v == sgNeg || v == sgZero {
				s = v
			}
			fnz = fnz || s == sgPos || s == sgNeg
		}
		if s == sgZero {
			return sgZero, false
		}
		nz = nz && fnz
		if !fnz {
			strict = false
		}
		if d[f]%2 == 0 {
			continue
		}
		switch s {
		case sgPos, sgNN:
		case sgNeg, sgNP:
			dir = -dir
		default:
			known = false
		}
	}
	if !known {
		return sgUnknown, nz
	}
	switch {
	case dir > 0 && strict:
		return sgPos, true
	case dir > 0:
		return sgNN, false
	case strict:
		return sgNeg, true
	}
	return sgNP, false
}

// decided evaluates a real atom using structural sign analysis and recorded facts.
func (c *tctx) decided(t *Term) (val, ok bool) {
	switch t.op {
	case OpTrue:
		return true, true
	case OpFalse:
		return false, true
	case OpNot:
		v, ok := c.decided(t.args[0])
		return !v, ok
	case OpAnd:
		a, oka := c.decided(t.args[0])
		b, okb := c.decided(t.args[1])
		if oka && !a || okb && !b {
			return false, true
		}
		return a && b, oka && okb
	case OpLt, OpLe, OpEq:
		if t.args[0].sort != SReal {
			return false, false
		}
		p := c.atomPoly(t)
		s, nz := c.signOf(p)
		switch t.op {
		case OpLt:
			switch s {
			case sgNeg:
				return true, true
			case sgPos, sgNN, sgZero:
				return false, true
			}
		case OpLe:
			switch s {
			case sgNeg, sgNP, sgZero:
				return true, true
			case sgPos:
				return false, true
			}
		case OpEq:
			if s == sgZero {
				return true, true
			}
			if nz || s == sgPos || s == sgNeg {
				return false, true
			}
		}
	}
	return false, false
}

// learn records the sign facts implied by t being true (val) on this path.
func (c *tctx) learn(t *Term, val bool) {
	switch t.op {
	case OpNot:
		c.learn(t.args[0], !val)
	case OpAnd:
		if val {
			c.learn(t.args[0], true)
			c.learn(t.args[1], true)
		}
	case OpLt, OpLe, OpEq:
		if t.args[0].sort != SReal {
			return
		}
		p := c.atomPoly(t)
		if len(p) == 0 {
			return
		}
		k, sg := normKey(p)
		var s sgn
		switch {
		case t.op == OpLt && val:
			s = sgNeg
		case t.op == OpLt:
			s = sgNN
		case t.op == OpLe && val:
			s = sgNP
		case t.op == OpLe:
			s = sgPos
		case val:
			s = sgZero
		default:
			c.facts["nz:"+k] = 1
			return
		}
		if sg < 0 {
			s = flip(s)
		}
		old, has := c.facts[k]
		if has {
			if old == sgPos || old == sgNeg || old == sgZero {
				s = old
			} else if old == sgNN && s == sgNP || old == sgNP && s == sgNN {
				s = sgZero
			}
		}
		c.facts[k] = s
		if s == sgZero {
			c.addEquality(p)
		}
		// single variable
		if len(p) == 1 {
			for m, co := range p {
				if m.n() == 1 {
					v, e := m.at(0)
					if e == 1 {
						ss := s
						if sg < 0 {
							ss = flip(ss)
						}
						if co.Sign() < 0 {
							ss = flip(ss)
						}
						if ss == sgPos {
							c.g.vars[v].pos, c.g.vars[v].nn = true, true
						}
						if ss == sgNN {
							c.g.vars[v].nn = true
						}
					}
				}
			}
		}
	}
}

// String renders a term (for diagnostics).
func (t *Term) String() string {
	if t == nil {
		return "nil"
	}
	var rec func(t *Term, d int) string
	rec = func(t *Term, d int) string {
		if d > 12 {
			return "..."
		}
		bin := func(op string) string { return "(" + rec(t.args[0], d+1) + op + rec(t.args[1], d+1) + ")" }
		switch t.op {
		case OpVar:
			return t.name
		case OpConst:
			if t.sort == SFP {
				return fmt.Sprint(t.f)
			}
			if t.sort == SStr {
				return strconv.Quote(t.str)
			}
			return t.rat.RatString()
		case OpNaN:
			return "NaN"
		case OpPInf:
			return "+Inf"
		case OpNInf:
			return "-Inf"
		case OpAdd:
			return bin("+")
		case OpSub:
			return bin("-")
		case OpMul:
			return bin("*")
		case OpDiv:
			return bin("/")
		case OpNeg:
			return "-" + rec(t.args[0], d+1)
		case OpTrue:
			return "true"
		case OpFalse:
			return "false"
		case OpNot:
			return "!" + rec(t.args[0], d+1)
		case OpLt:
			return bin(" < ")
		case OpLe:
			return bin(" <= ")
		case OpEq:
			return bin(" = ")
		case OpAnd:
			return bin(" && ")
		case OpOr:
			return bin(" || ")
		}
		s := fmt.Sprintf("op%d", t.op)
		for _, a := range t.args {
			s += " " + rec(a, d+1)
		}
		return "(" + s + ")"
	}
	return rec(t, 0)
}
