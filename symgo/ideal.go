package main

import "math/big"

// Reduction modulo the equalities that hold on a path. A branch such as "v == 0" inside a matrix
// product leaves a polynomial equality in the path condition; identities that depend on it are
// brought into normal form with a Groebner basis of those equalities and of the rewrite rules of
// their variables (bounded effort; when the bounds are exceeded nothing is reduced).

const (
	idealMaxEqs   = 12
	idealMaxBasis = 60
	idealMaxPairs = 600
	idealMaxTerms = 80
	idealMaxDeg   = 14
	idealMaxWork  = 400000
)

type ideal struct {
	basis []Poly // monic, leading monomials not divisible by one another
	lead  []Mono
}

// addEquality records p = 0; factors known to be non-zero are dropped.
func (c *tctx) addEquality(p Poly) {
	if len(p) == 0 || len(p) > idealMaxTerms || len(c.eqs) >= idealMaxEqs {
		return
	}
	_, d := c.g.factorise(p)
	out := polyConst(ratOne)
	n := 0
	for _, f := range sortedKeys(d) {
		fp := c.g.factors[f].p
		s := c.g.polySign(fp)
		k, sg := normKey(fp)
		nz := s == sgPos || s == sgNeg || c.facts["nz:"+k] == 1
		if v, ok := c.facts[k]; ok {
			if sg < 0 {
				v = flip(v)
			}
			nz = nz || v == sgPos || v == sgNeg
		}
		if nz {
			continue
		}
		n++
		out = c.g.mul(out, fp) // multiplicity does not matter for p = 0
	}
	if n == 0 || len(out) == 0 {
		return
	}
	c.eqs = append(c.eqs, out)
	c.idl = nil
}

func freeMul(p Poly, m Mono, r *big.Rat) Poly {
	out := make(Poly, len(p))
	for k, v := range p {
		out[monoMul(k, m)] = new(big.Rat).Mul(v, r)
	}
	return out
}

func monic(p Poly) (Poly, Mono) {
	l := p.leading()
	return polyScale(p, new(big.Rat).Inv(p[l])), l
}

func monoLCM(a, b Mono) Mono {
	q := monoGCD(a, b)
	r, _ := monoDiv(b, q)
	return monoMul(a, r)
}

func monoGCD(a, b Mono) Mono {
	var out []byte
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		va, vb := int(a[i])<<8|int(a[i+1]), int(b[j])<<8|int(b[j+1])
		switch {
		case va < vb:
			i += 3
		case va > vb:
			j += 3
		default:
			e := a[i+2]
			if b[j+2] < e {
				e = b[j+2]
			}
			out = append(out, a[i], a[i+1], e)
			i += 3
			j += 3
		}
	}
	return Mono(out)
}

// normalForm reduces p by the given polynomials (free polynomial ring, every term).
func idealReduce(p Poly, basis []Poly, lead []Mono, work *int) (Poly, bool) {
	rest := make(Poly, len(p))
	for m, c := range p {
		rest[m] = c
	}
	out := Poly{}
	for len(rest) > 0 {
		l := rest.leading()
		co := rest[l]
		hit := false
		for i, b := range basis {
			q, ok := monoDiv(l, lead[i])
			if !ok {
				continue
			}
			*work -= len(b) + 1
			if *work < 0 {
				return nil, false
			}
			f := new(big.Rat).Neg(co)
			for m, v := range b {
				rest.addTerm(monoMul(m, q), new(big.Rat).Mul(v, f))
			}
			hit = true
			break
		}
		if !hit {
			out[l] = co
			delete(rest, l)
		}
		*work -= len(rest)/8 + 1
		if *work < 0 {
			return nil, false
		}
	}
	return out, true
}

func (c *tctx) getIdeal() *ideal {
	if c.idl != nil && c.idlEpoch == c.epoch {
		return c.idl
	}
	id := &ideal{}
	c.idl, c.idlEpoch = id, c.epoch
	var gens []Poly
	vars := map[int]bool{}
	for _, e := range c.eqs {
		r := &RF{n: e}
		ev := map[int]bool{}
		c.g.polyVars(e, ev)
		for _, v := range sortedSet(ev) {
			if by := c.g.vars[v].subst; by != nil {
				r = c.g.rfSubst(r, v, by)
			}
		}
		q := c.g.reduce(r.n)
		if len(q) == 0 {
			continue
		}
		c.g.polyVars(q, vars)
		gens = append(gens, q)
	}
	if len(gens) == 0 {
		return id
	}
	for changed := true; changed; {
		changed = false
		for _, v := range sortedSet(vars) {
			if vi := c.g.vars[v]; vi.hasR {
				n := len(vars)
				c.g.polyVars(vi.rule, vars)
				changed = changed || len(vars) > n
			}
		}
	}
	for _, v := range sortedSet(vars) {
		if vi := c.g.vars[v]; vi.hasR {
			gens = append(gens, polyAdd(Poly{monoVar(v, 2): ratOne}, polyNeg(vi.rule)))
		}
	}
	work := idealMaxWork
	var basis []Poly
	var lead []Mono
	type pair struct{ i, j int }
	var pairs []pair
	add := func(p Poly) bool {
		if len(p) > idealMaxTerms || len(basis) >= idealMaxBasis {
			return false
		}
		q, l := monic(p)
		if l.deg() > idealMaxDeg {
			return true // too large to be useful: leave it out
		}
		for i := range basis {
			pairs = append(pairs, pair{i, len(basis)})
		}
		basis, lead = append(basis, q), append(lead, l)
		return true
	}
	for _, g := range gens {
		q, ok := idealReduce(g, basis, lead, &work)
		if !ok {
			break
		}
		if len(q) > 0 && !add(q) {
			break
		}
	}
	for n := 0; len(pairs) > 0 && n < idealMaxPairs; n++ {
		best := 0
		for k := range pairs {
			if monoLCM(lead[pairs[k].i], lead[pairs[k].j]).deg() < monoLCM(lead[pairs[best].i], lead[pairs[best].j]).deg() {
				best = k
			}
		}
		pr := pairs[best]
		pairs = append(pairs[:best], pairs[best+1:]...)
		a, b := basis[pr.i], basis[pr.j]
		if monoGCD(lead[pr.i], lead[pr.j]) == "" {
			continue
		}
		l := monoLCM(lead[pr.i], lead[pr.j])
		fa, _ := monoDiv(l, lead[pr.i])
		fb, _ := monoDiv(l, lead[pr.j])
		s := polyAdd(freeMul(a, fa, ratOne), freeMul(b, fb, ratMinusOne))
		q, ok := idealReduce(s, basis, lead, &work)
		if !ok {
			break
		}
		if len(q) > 0 && !add(q) {
			break
		}
	}
	// whatever was found is a consequence of the equalities: incomplete bases are sound
	for i := range basis {
		keep := true
		for j := range basis {
			if j == i {
				continue
			}
			if _, ok := monoDiv(lead[i], lead[j]); ok && (lead[i] != lead[j] || j < i) {
				keep = false
			}
		}
		if keep {
			id.basis, id.lead = append(id.basis, basis[i]), append(id.lead, lead[i])
		}
	}
	return id
}

// modPath reduces p by the equalities of the path; changed tells whether that made a difference.
func (c *tctx) modPath(p Poly) (q Poly, changed bool) {
	if len(c.eqs) == 0 || len(p) == 0 {
		return p, false
	}
	id := c.getIdeal()
	if len(id.basis) == 0 {
		return p, false
	}
	any := false
	for m := range p {
		for _, l := range id.lead {
			if _, ok := monoDiv(m, l); ok {
				any = true
				break
			}
		}
		if any {
			break
		}
	}
	if !any {
		return p, false
	}
	work := 4000000
	q, ok := idealReduce(p, id.basis, id.lead, &work)
	if !ok {
		return p, false
	}
	return q, true
}
