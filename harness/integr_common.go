package integr

import (
	"errors"
	"runtime/debug"
	"strings"
	"testing"

	"github.com/lubgr/deflect/deflect"
)

// vfFails runs f with a test handle and tells whether f reported a failure. Natively, the handle is
// a zero testing.T whose reporting methods panic inside package testing, which counts as a report.
func vfFails(f func(t *testing.T)) bool {
	t := new(testing.T)
	failed := false
	var other any
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				if strings.Contains(string(debug.Stack()), "testing.(*common)") {
					failed = true
				} else {
					other = r
				}
			}
		}()
		f(t)
	}()
	<-done
	if other != nil {
		panic(other)
	}
	return failed || t.Failed()
}

// vxResult is a problem result with given values that records what it is asked for.
type vxResult struct {
	primary, reaction map[deflect.Index]float64
	pieces            map[string]deflect.PolySequence // by element and quantity
	askedP, askedR    map[deflect.Index]int
	askedI            map[string]int
	tols              []float64
}

func vxNewResult() *vxResult {
	return &vxResult{
		primary: map[deflect.Index]float64{}, reaction: map[deflect.Index]float64{},
		pieces: map[string]deflect.PolySequence{}, askedP: map[deflect.Index]int{},
		askedR: map[deflect.Index]int{}, askedI: map[string]int{},
	}
}

func vxKey(elmt string, q deflect.Fct) string { return elmt + "/" + vfIntStr(int(q)) }

func (r *vxResult) Primary(i deflect.Index) (deflect.NodalValue, error) {
	r.askedP[i]++
	if v, ok := r.primary[i]; ok {
		return deflect.NodalValue{Index: i, Value: v}, nil
	}
	return deflect.NodalValue{}, errors.New("no such primary")
}

func (r *vxResult) Reaction(i deflect.Index) (deflect.NodalValue, error) {
	r.askedR[i]++
	if v, ok := r.reaction[i]; ok {
		return deflect.NodalValue{Index: i, Value: v}, nil
	}
	return deflect.NodalValue{}, errors.New("no such reaction")
}

func (r *vxResult) PrimaryAll() []deflect.NodalValue  { return nil }
func (r *vxResult) ReactionAll() []deflect.NodalValue { return nil }

func (r *vxResult) Interpolate(id string, q deflect.Fct, tol float64) (deflect.Interpolation, error) {
	r.askedI[vxKey(id, q)]++
	r.tols = append(r.tols, tol)
	if ps, ok := r.pieces[vxKey(id, q)]; ok {
		return deflect.Interpolation{Element: id, Quantity: q, Piecewise: ps}, nil
	}
	return deflect.Interpolation{}, errors.New("no such interpolation")
}

func (r *vxResult) InterpolateAll(float64) []deflect.Interpolation { return nil }
func (r *vxResult) Dimension() (int, int)                          { return 0, 0 }

// vxExpect reads expectations that must be accepted.
func vxExpect(doc string, nums map[string]float64) []Expectation {
	es, err := ExpectationsFromJSON(vfDoc(doc, nums))
	vfCheck("expectations accepted", err == nil)
	vfAssume(err == nil)
	return es
}

// vxFails tells whether the expectations fail for the result (after a solver error err).
func vxFails(es []Expectation, r deflect.ProblemResult, err error) bool {
	return vfFails(func(t *testing.T) {
		for _, e := range es {
			e.Failure(err, t)
			e.Primary(r, t)
			e.Reaction(r, t)
			e.Interpolated(r, t)
		}
	})
}

var vxNodalNames = []struct {
	name string
	dof  deflect.Dof
}{
	{"Ux", deflect.Ux}, {"Uy", deflect.Uy}, {"Uz", deflect.Uz}, {"Phix", deflect.Phix}, {"Phiy", deflect.Phiy}, {"Phiz", deflect.Phiz},
	{"Fx", deflect.Ux}, {"Fy", deflect.Uy}, {"Fz", deflect.Uz}, {"Mx", deflect.Phix}, {"My", deflect.Phiy}, {"Mz", deflect.Phiz},
}

var vxFctNames = []struct {
	name string
	q    deflect.Fct
}{
	{"Ux", deflect.FctUx}, {"Uy", deflect.FctUy}, {"Uz", deflect.FctUz}, {"Phix", deflect.FctPhix}, {"Phiy", deflect.FctPhiy}, {"Phiz", deflect.FctPhiz},
	{"Nx", deflect.FctNx}, {"Vy", deflect.FctVy}, {"Vz", deflect.FctVz}, {"Mx", deflect.FctMx}, {"My", deflect.FctMy}, {"Mz", deflect.FctMz},
}

func vxAbs(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}

// vxWithin decides whether two numbers agree (absolute or relative tolerance); numbers too close to
// the limit are left out, so that the way the limit is computed does not matter.
func vxWithin(a, b, abs, rel float64) bool {
	delta, m := vxAbs(a-b), max(vxAbs(a), vxAbs(b))
	lim := max(abs, rel*m)
	vfAssume(delta <= 0.99*lim || delta >= 1.01*lim)
	return delta <= lim
}

func vxPoly(x float64, c []float64) float64 {
	sum := 0.0
	for i := len(c) - 1; i >= 0; i-- {
		sum = sum*x + c[i]
	}
	return sum
}
