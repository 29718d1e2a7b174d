package main

// Multivariate polynomials and rational functions over the rationals, modulo a set of rewrite rules
// v^2 -> P (direction cosines, square roots). Used to bring real arithmetic terms into a normal form
// before they are handed to the SMT solver.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

var (
	ratZero = new(big.Rat)
	ratOne  = big.NewRat(1, 1)
)

// Mono encodes a monomial: for every variable (ascending id) three bytes: id hi, id lo, exponent.
type Mono string

func monoVar(v int, e int) Mono {
	return Mono([]byte{byte(v >> 8), byte(v), byte(e)})
}

func (m Mono) n() int              { return len(m) / 3 }
func (m Mono) at(i int) (int, int) { return int(m[3*i])<<8 | int(m[3*i+1]), int(m[3*i+2]) }

func monoMul(a, b Mono) Mono {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	out := make([]byte, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		va, vb := int(a[i])<<8|int(a[i+1]), int(b[j])<<8|int(b[j+1])
		switch {
		case va < vb:
			out = append(out, a[i:i+3]...)
			i += 3
		case va > vb:
			out = append(out, b[j:j+3]...)
			j += 3
		default:
			e := int(a[i+2]) + int(b[j+2])
			if e > 250 {
				panic(pathUnsupported{"polynomial degree too large"})
			}
			out = append(out, a[i], a[i+1], byte(e))
			i += 3
			j += 3
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return Mono(out)
}

// monoDiv returns a/b if b divides a.
func monoDiv(a, b Mono) (Mono, bool) {
	if b == "" {
		return a, true
	}
	out := make([]byte, 0, len(a))
	j := 0
	for i := 0; i < len(a); i += 3 {
		va := int(a[i])<<8 | int(a[i+1])
		if j < len(b) {
			vb := int(b[j])<<8 | int(b[j+1])
			if vb < va {
				return "", false
			}
			if va == vb {
				e := int(a[i+2]) - int(b[j+2])
				if e < 0 {
					return "", false
				}
				if e > 0 {
					out = append(out, a[i], a[i+1], byte(e))
				}
				j += 3
				continue
			}
		}
		out = append(out, a[i:i+3]...)
	}
	if j < len(b) {
		return "", false
	}
	return Mono(out), true
}

func (m Mono) deg() int {
	d := 0
	for i := 2; i < len(m); i += 3 {
		d += int(m[i])
	}
	return d
}

// monoLess: graded ordering (degree, then lexicographic on bytes): admissible for exact division when
// compared via exponent vectors. We use lex on variables: larger exponent of smaller variable id wins.
func monoLess(a, b Mono) bool {
	da, db := a.deg(), b.deg()
	if da != db {
		return da < db
	}
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		va, vb := int(a[i])<<8|int(a[i+1]), int(b[j])<<8|int(b[j+1])
		if va != vb {
			return va > vb // the one with the smaller variable is larger
		}
		if a[i+2] != b[j+2] {
			return a[i+2] < b[j+2]
		}
		i += 3
		j += 3
	}
	return len(a)-i < len(b)-j
}

type Poly map[Mono]*big.Rat

func polyConst(r *big.Rat) Poly {
	p := Poly{}
	if r.Sign() != 0 {
		p[""] = r
	}
	return p
}

func (p Poly) isConst() (*big.Rat, bool) {
	switch len(p) {
	case 0:
		return ratZero, true
	case 1:
		if c, ok := p[""]; ok {
			return c, true
		}
	}
	return nil, false
}

func (p Poly) isOne() bool {
	c, ok := p.isConst()
	return ok && c.Cmp(ratOne) == 0
}

func polyAdd(a, b Poly) Poly {
	if len(a) < len(b) {
		a, b = b, a
	}
	if len(b) == 0 {
		return a
	}
	out := make(Poly, len(a)+len(b))
	for m, c := range a {
		out[m] = c
	}
	for m, c := range b {
		out.addTerm(m, c)
	}
	return out
}

func (p Poly) addTerm(m Mono, c *big.Rat) {
	if o, ok := p[m]; ok {
		s := new(big.Rat).Add(o, c)
		if s.Sign() == 0 {
			delete(p, m)
		} else {
			p[m] = s
		}
	} else if c.Sign() != 0 {
		p[m] = c
	}
}

func polyScale(a Poly, r *big.Rat) Poly {
	if r.Cmp(ratOne) == 0 {
		return a
	}
	out := make(Poly, len(a))
	if r.Sign() == 0 {
		return out
	}
	for m, c := range a {
		out[m] = new(big.Rat).Mul(c, r)
	}
	return out
}

var ratMinusOne = big.NewRat(-1, 1)

func polyNeg(a Poly) Poly { return polyScale(a, ratMinusOne) }

func (p Poly) leading() Mono {
	var best Mono
	first := true
	for m := range p {
		if first || monoLess(best, m) {
			best, first = m, false
		}
	}
	return best
}

func (p Poly) monos() []Mono {
	ms := make([]Mono, 0, len(p))
	for m := range p {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return monoLess(ms[j], ms[i]) })
	return ms
}

func (p Poly) key() string {
	ms := p.monos()
	var sb strings.Builder
	for _, m := range ms {
		sb.WriteString(string(m))
		sb.WriteByte('|')
		sb.WriteString(p[m].RatString())
		sb.WriteByte(';')
	}
	return sb.String()
}

// algebra context ----------------------------------------------------------------------------------

type varInfo struct {
	name  string
	pos   bool // known > 0
	nn    bool // known >= 0
	rule  Poly // v^2 = rule (nil if none)
	hasR  bool
	subst *RF // v = subst (slack elimination)
	slack bool
	nnKey string // key of the recorded fact rule >= 0
	nnSg  int
}

type factor struct {
	p   Poly // normalised: leading coefficient 1; a single variable for monomial factors
	vr  int  // variable id or -1
	key string
}

type algebra struct {
	vars    []*varInfo
	byName  map[string]int
	factors []*factor
	facIdx  map[string]int
	budget  int
	opcount int64
}

func newAlgebra() *algebra {
	return &algebra{byName: map[string]int{}, facIdx: map[string]int{}}
}

const maxPolyTerms = 60000

func (g *algebra) newVar(name string) int {
	if v, ok := g.byName[name]; ok {
		return v
	}
	id := len(g.vars)
	if id >= 65535 {
		panic(pathUnsupported{"too many variables"})
	}
	g.vars = append(g.vars, &varInfo{name: name})
	g.byName[name] = id
	return id
}

func (g *algebra) reduceTerm(out Poly, m Mono, c *big.Rat) {
	for i := 0; i+2 < len(m); i += 3 {
		if m[i+2] < 2 {
			continue
		}
		v := int(m[i])<<8 | int(m[i+1])
		vi := g.vars[v]
		if !vi.hasR {
			continue
		}
		e := int(m[i+2])
		rest := make([]byte, 0, len(m))
		rest = append(rest, m[:i]...)
		if e%2 == 1 {
			rest = append(rest, m[i], m[i+1], 1)
		}
		rest = append(rest, m[i+3:]...)
		p := vi.rule
		pw := p
		for k := 1; k < e/2; k++ {
			pw = g.mul(pw, p)
		}
		for m2, c2 := range pw {
			g.reduceTerm(out, monoMul(Mono(rest), m2), new(big.Rat).Mul(c, c2))
		}
		return
	}
	out.addTerm(m, c)
}

func (g *algebra) reduce(p Poly) Poly {
	out := make(Poly, len(p))
	for m, c := range p {
		g.reduceTerm(out, m, c)
	}
	return out
}

func (g *algebra) mul(a, b Poly) Poly {
	if len(a) == 0 || len(b) == 0 {
		return Poly{}
	}
	if c, ok := a.isConst(); ok {
		return polyScale(b, c)
	}
	if c, ok := b.isConst(); ok {
		return polyScale(a, c)
	}
	g.opcount += int64(len(a)) * int64(len(b))
	if g.budget > 0 && g.opcount > int64(g.budget) {
		panic(pathUnsupported{"polynomial work budget exceeded"})
	}
	out := make(Poly, len(a)+len(b))
	for ma, ca := range a {
		for mb, cb := range b {
			g.reduceTerm(out, monoMul(ma, mb), new(big.Rat).Mul(ca, cb))
		}
		if len(out) > maxPolyTerms {
			panic(pathUnsupported{"polynomial too large"})
		}
	}
	return out
}

// divExact divides a by b in the free polynomial ring (no rules); ok only if the remainder is zero.
func (g *algebra) divExact(a, b Poly) (Poly, bool) {
	if len(b) == 0 {
		return nil, false
	}
	lb := b.leading()
	cb := b[lb]
	rem := make(Poly, len(a))
	for m, c := range a {
		rem[m] = c
	}
	q := Poly{}
	steps := 0
	for len(rem) > 0 {
		lm := rem.leading()
		d, ok := monoDiv(lm, lb)
		if !ok {
			return nil, false
		}
		c := new(big.Rat).Quo(rem[lm], cb)
		q[d] = c
		nc := new(big.Rat).Neg(c)
		for m, cc := range b {
			rem.addTerm(monoMul(d, m), new(big.Rat).Mul(nc, cc))
		}
		steps++
		if steps > 3000 {
			return nil, false
		}
	}
	return q, true
}

func (g *algebra) varFactor(v int) int {
	k := fmt.Sprintf("v%d", v)
	if i, ok := g.facIdx[k]; ok {
		return i
	}
	g.factors = append(g.factors, &factor{p: Poly{monoVar(v, 1): ratOne}, vr: v, key: k})
	g.facIdx[k] = len(g.factors) - 1
	return len(g.factors) - 1
}

func (g *algebra) polyFactor(p Poly) int {
	k := p.key()
	if i, ok := g.facIdx[k]; ok {
		return i
	}
	g.factors = append(g.factors, &factor{p: p, vr: -1, key: k})
	g.facIdx[k] = len(g.factors) - 1
	return len(g.factors) - 1
}

// RF is a rational function: n / prod(factor^exp).
type RF struct {
	n Poly
	d map[int]int
}

func (r *RF) isConst() (*big.Rat, bool) {
	if len(r.d) != 0 {
		if len(r.n) == 0 {
			return ratZero, true
		}
		return nil, false
	}
	return r.n.isConst()
}

func rfConst(c *big.Rat) *RF   { return &RF{n: polyConst(c)} }
func (g *algebra) rfVar(v int) *RF {
	if s := g.vars[v].subst; s != nil {
		return s
	}
	return &RF{n: Poly{monoVar(v, 1): ratOne}}
}

func (g *algebra) powFac(f, e int) Poly {
	p := g.factors[f].p
	out := p
	for i := 1; i < e; i++ {
		out = g.mul(out, p)
	}
	if e == 1 {
		out = g.reduce(out)
	}
	return out
}

func (g *algebra) denPoly(d map[int]int) Poly {
	out := polyConst(ratOne)
	for _, f := range sortedKeys(d) {
		out = g.mul(out, g.powFac(f, d[f]))
	}
	return out
}

func sortedKeys(d map[int]int) []int {
	ks := make([]int, 0, len(d))
	for k := range d {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// simplify cancels common factors between numerator and denominators where cheaply possible.
func (g *algebra) simplify(n Poly, d map[int]int) *RF {
	if len(n) == 0 {
		return &RF{n: n}
	}
	if len(d) == 0 {
		return &RF{n: n}
	}
	nd := make(map[int]int, len(d))
	for k, v := range d {
		nd[k] = v
	}
	for _, f := range sortedKeys(nd) {
		fa := g.factors[f]
		if fa.vr >= 0 {
			// min exponent of the variable in n
			min := nd[f]
			for m := range n {
				e := 0
				for i := 0; i < len(m); i += 3 {
					if int(m[i])<<8|int(m[i+1]) == fa.vr {
						e = int(m[i+2])
					}
				}
				if e < min {
					min = e
				}
				if min == 0 {
					break
				}
			}
			if min > 0 {
				q := make(Poly, len(n))
				dm := monoVar(fa.vr, min)
				for m, c := range n {
					r, _ := monoDiv(m, dm)
					q[r] = c
				}
				n = q
				nd[f] -= min
			}
		} else if len(fa.p)*len(n) < 200000 {
			for nd[f] > 0 {
				q, ok := g.divExact(n, fa.p)
				if !ok {
					break
				}
				n = q
				nd[f]--
			}
		}
		if nd[f] == 0 {
			delete(nd, f)
		}
	}
	return &RF{n: n, d: nd}
}

func (g *algebra) rfAdd(a, b *RF) *RF {
	if len(a.n) == 0 {
		return b
	}
	if len(b.n) == 0 {
		return a
	}
	if len(a.d) == 0 && len(b.d) == 0 {
		return &RF{n: polyAdd(a.n, b.n)}
	}
	l := map[int]int{}
	for k, v := range a.d {
		l[k] = v
	}
	for k, v := range b.d {
		if v > l[k] {
			l[k] = v
		}
	}
	ea, eb := map[int]int{}, map[int]int{}
	for k, v := range l {
		if v > a.d[k] {
			ea[k] = v - a.d[k]
		}
		if v > b.d[k] {
			eb[k] = v - b.d[k]
		}
	}
	n := polyAdd(g.mul(a.n, g.denPoly(ea)), g.mul(b.n, g.denPoly(eb)))
	return g.simplify(n, l)
}

func (g *algebra) rfNeg(a *RF) *RF { return &RF{n: polyNeg(a.n), d: a.d} }

func (g *algebra) rfMul(a, b *RF) *RF {
	if len(a.n) == 0 || len(b.n) == 0 {
		return &RF{n: Poly{}}
	}
	if c, ok := a.isConst(); ok {
		return &RF{n: polyScale(b.n, c), d: b.d}
	}
	if c, ok := b.isConst(); ok {
		return &RF{n: polyScale(a.n, c), d: a.d}
	}
	// cross-cancel first
	x := g.simplify(a.n, b.d)
	y := g.simplify(b.n, a.d)
	d := map[int]int{}
	for k, v := range x.d {
		d[k] += v
	}
	for k, v := range y.d {
		d[k] += v
	}
	n := g.mul(x.n, y.n)
	if len(d) == 0 {
		return &RF{n: n}
	}
	return g.simplify(n, d)
}

// factorise splits a polynomial into content * monomial * rest.
func (g *algebra) factorise(p Poly) (c *big.Rat, d map[int]int) {
	d = map[int]int{}
	if k, ok := p.isConst(); ok {
		return k, d
	}
	// monomial content
	var gcd map[int]int
	for m := range p {
		e := map[int]int{}
		for i := 0; i < m.n(); i++ {
			v, x := m.at(i)
			e[v] = x
		}
		if gcd == nil {
			gcd = e
		} else {
			for v, x := range gcd {
				if e[v] < x {
					if e[v] == 0 {
						delete(gcd, v)
					} else {
						gcd[v] = e[v]
					}
				}
			}
		}
		if len(gcd) == 0 {
			break
		}
	}
	rest := p
	if len(gcd) > 0 {
		dm := Mono("")
		for _, v := range sortedKeys(gcd) {
			dm = monoMul(dm, monoVar(v, gcd[v]))
			d[g.varFactor(v)] += gcd[v]
		}
		rest = make(Poly, len(p))
		for m, cc := range p {
			r, _ := monoDiv(m, dm)
			rest[r] = cc
		}
	}
	lm := rest.leading()
	c = rest[lm]
	rest = polyScale(rest, new(big.Rat).Inv(c))
	if !rest.isOne() {
		// try known multi-term factors
		if len(rest) < 400 {
			for fi := 0; fi < len(g.factors); fi++ {
				fa := g.factors[fi]
				if fa.vr >= 0 || len(fa.p) > len(rest)*2 || len(fa.p) > 60 {
					continue
				}
				for {
					q, ok := g.divExact(rest, fa.p)
					if !ok {
						break
					}
					d[fi]++
					rest = q
				}
				if rest.isOne() {
					break
				}
			}
		}
		if k, ok := rest.isConst(); ok {
			c = new(big.Rat).Mul(c, k)
		} else {
			d[g.polyFactor(rest)]++
		}
	}
	return c, d
}

// rfInv returns 1/a (a not identically zero).
func (g *algebra) rfInv(a *RF) *RF {
	c, d := g.factorise(a.n)
	n := polyConst(new(big.Rat).Inv(c))
	if len(a.d) > 0 {
		n = g.mul(n, g.denPoly(a.d))
	}
	return g.simplify(n, d)
}

// signs ---------------------------------------------------------------------------------------------

// monoSign: +1 strictly positive, 2: >= 0, 0 unknown
func (g *algebra) monoSign(m Mono) int {
	s := 1
	for i := 0; i < m.n(); i++ {
		v, e := m.at(i)
		vi := g.vars[v]
		switch {
		case vi.pos:
		case vi.nn || e%2 == 0:
			s = 2
		default:
			return 0
		}
	}
	return s
}

type sgn int

const (
	sgUnknown sgn = iota
	sgPos
	sgNeg
	sgNN
	sgNP
	sgZero
)

func (g *algebra) polySign(p Poly) sgn {
	if len(p) == 0 {
		return sgZero
	}
	dir, strict := 0, false
	for m, c := range p {
		s := g.monoSign(m)
		if s == 0 {
			return sgUnknown
		}
		if dir != 0 && dir != c.Sign() {
			return sgUnknown
		}
		dir = c.Sign()
		if s == 1 {
			strict = true
		}
	}
	switch {
	case dir > 0 && strict:
		return sgPos
	case dir > 0:
		return sgNN
	case dir < 0 && strict:
		return sgNeg
	}
	return sgNP
}

// numSignPoly returns a polynomial with the same sign as r (given that the denominator is non-zero).
func (g *algebra) numSignPoly(r *RF) Poly {
	n := r.n
	for _, f := range sortedKeys(r.d) {
		if r.d[f]%2 == 0 {
			continue
		}
		switch g.polySign(g.factors[f].p) {
		case sgPos, sgNN:
		case sgNeg, sgNP:
			n = polyNeg(n)
		default:
			n = g.mul(n, g.reduce(g.factors[f].p))
		}
	}
	return n
}

func (g *algebra) polyVars(p Poly, into map[int]bool) {
	for m := range p {
		for i := 0; i < m.n(); i++ {
			v, _ := m.at(i)
			into[v] = true
		}
	}
}

// sqrtPoly returns q with q*q == p for monomial p with even exponents and square coefficient.
func ratSqrt(r *big.Rat) (*big.Rat, bool) {
	if r.Sign() < 0 {
		return nil, false
	}
	n := new(big.Int).Sqrt(r.Num())
	d := new(big.Int).Sqrt(r.Denom())
	if new(big.Int).Mul(n, n).Cmp(r.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(r.Denom()) == 0 {
		return new(big.Rat).SetFrac(n, d), true
	}
	return nil, false
}

func (g *algebra) polySMT(p Poly) string {
	if len(p) == 0 {
		return "0.0"
	}
	ms := p.monos()
	parts := make([]string, 0, len(ms))
	for _, m := range ms {
		c := p[m]
		fs := []string{}
		if c.Cmp(ratOne) != 0 || m == "" {
			fs = append(fs, ratSMT(c))
		}
		for i := 0; i < m.n(); i++ {
			v, e := m.at(i)
			for k := 0; k < e; k++ {
				fs = append(fs, smtName(g.vars[v].name))
			}
		}
		if len(fs) == 1 {
			parts = append(parts, fs[0])
		} else {
			parts = append(parts, "(* "+strings.Join(fs, " ")+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func ratSMT(r *big.Rat) string {
	abs := new(big.Rat).Abs(r)
	s := abs.Num().String() + ".0"
	if !abs.IsInt() {
		s = "(/ " + s + " " + abs.Denom().String() + ".0)"
	}
	if r.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return s
}

func smtName(n string) string { return "|" + n + "|" }

func (g *algebra) polyString(p Poly) string {
	if len(p) == 0 {
		return "0"
	}
	var parts []string
	for i, m := range p.monos() {
		if i > 12 {
			parts = append(parts, fmt.Sprintf("... (%d terms)", len(p)))
			break
		}
		s := p[m].RatString()
		for i := 0; i < m.n(); i++ {
			v, e := m.at(i)
			s += "*" + g.vars[v].name
			if e > 1 {
				s += fmt.Sprintf("^%d", e)
			}
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, " + ")
}
