package main

// Inverse trigonometric and rounding functions of symbolic values.

import (
	"fmt"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// angleOf is a fresh angle with the given cosine and sine (on the unit circle by construction).
func (m *machine) angleOf(co, si *Term) *Term {
	key := m.nfKey(co) + "|" + m.nfKey(si)
	if m.angles == nil {
		m.angles = map[string]*Term{}
	}
	if t, ok := m.angles[key]; ok {
		return t
	}
	t := m.c.mkVar(m.uname("~angle"), SReal)
	m.c.trig[m.nfKey(t)] = [2]*Term{co, si}
	m.angles[key] = t
	return t
}

func (m *machine) nfKey(t *Term) string {
	r := m.c.nf(t)
	return r.n.key() + "/" + fmt.Sprint(r.d)
}

func (m *machine) atan2(y, x *Term) value {
	c := m.c
	r := m.sqrt(c.add(c.mul(x, x), c.mul(y, y)))
	if m.truth(m.tb(c.cmp(OpEq, r, c.realConst(ratZero)))) {
		return c.realConst(ratZero)
	}
	return m.angleOf(m.toTerm(m.fdiv(x, r)), m.toTerm(m.fdiv(y, r)))
}

func (m *machine) symbolicReal(t *Term) bool { return !m.fpMode && !t.isC() && !t.isSpecial() }

func init() {
	extra := map[string]intrinsic{
		"math.Atan2": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			y, x := args[0].(*Term), args[1].(*Term)
			if m.fpMode || x.isSpecial() || y.isSpecial() || x.isC() && y.isC() {
				return m.fc(math.Atan2(m.needConst(y, "Atan2"), m.needConst(x, "Atan2")))
			}
			return m.atan2(y, x)
		},
		"math.Atan": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			t := args[0].(*Term)
			if !m.symbolicReal(t) {
				return m.fc(math.Atan(m.needConst(t, "Atan")))
			}
			return m.atan2(t, m.c.realConst(ratOne))
		},
		"math.Acos": arcus("Acos", math.Acos), "math.Asin": arcus("Asin", math.Asin),
		"math.Floor": rounded("Floor", math.Floor, -1, 0), "math.Ceil": rounded("Ceil", math.Ceil, 0, 1),
		"math.Round": rounded("Round", math.Round, -0.5, 0.5), "math.Trunc": rounded("Trunc", math.Trunc, -1, 1),
		"math.RoundToEven": rounded("RoundToEven", math.RoundToEven, -0.5, 0.5),
		"math.Mod": func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
			x, y := args[0].(*Term), args[1].(*Term)
			if !m.symbolicReal(x) || !y.isC() {
				return m.fc(math.Mod(m.needConst(x, "Mod"), m.needConst(y, "Mod")))
			}
			p := math.Abs(m.needConst(y, "Mod"))
			if math.Abs(p-2*math.Pi) < 1e-12 {
				co, si := m.trigOf(x)
				return m.angleOf(co, si)
			}
			// x itself, or any value below the modulus
			c := m.c
			q := c.realConst(new(big.Rat).SetFloat64(p))
			if m.truth(m.tb(c.cmp(OpLt, m.fabs(x), q))) {
				return x
			}
			v := c.mkVar(m.uname("~Mod"), SReal)
			m.addPC(c.cmp(OpLt, v, q))
			m.addPC(c.cmp(OpLt, c.neg(q), v))
			return v
		},
	}
	for k, v := range extra {
		lateIntrinsics[k] = v
	}
}

var lateIntrinsics = map[string]intrinsic{}

func arcus(name string, f func(float64) float64) intrinsic {
	return func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
		t := args[0].(*Term)
		if !m.symbolicReal(t) {
			return m.fc(f(m.needConst(t, name)))
		}
		c := m.c
		rest := c.sub(c.realConst(ratOne), c.mul(t, t))
		if m.truth(m.tb(c.cmp(OpLt, rest, c.realConst(ratZero)))) {
			return c.tNaN
		}
		o := m.sqrt(rest)
		if name == "Acos" {
			return m.angleOf(t, o)
		}
		return m.angleOf(o, t)
	}
}

// rounded: a value within [x+lo, x+hi] (over-approximation of rounding to an integer).
func rounded(name string, f func(float64) float64, lo, hi float64) intrinsic {
	return func(m *machine, caller *frame, fn *ssa.Function, args []value) value {
		t := args[0].(*Term)
		if !m.symbolicReal(t) {
			return m.fc(f(m.needConst(t, name)))
		}
		c := m.c
		key := name + m.nfKey(t)
		if m.angles == nil {
			m.angles = map[string]*Term{}
		}
		if v, ok := m.angles[key]; ok {
			return v
		}
		v := c.mkVar(m.uname("~"+name), SReal)
		m.angles[key] = v
		m.addPC(c.cmp(OpLe, c.add(t, c.realConst(new(big.Rat).SetFloat64(lo))), v))
		m.addPC(c.cmp(OpLe, v, c.add(t, c.realConst(new(big.Rat).SetFloat64(hi)))))
		return v
	}
}
