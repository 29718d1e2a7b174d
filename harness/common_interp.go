package deflect

import "gonum.org/v1/gonum/mat"

// Interpolation of one element with arbitrary nodal displacements.

type vxState struct {
	b     *vxBar
	loads []*vxLoad
	lay   EqLayout
	d     *mat.VecDense
	g     []float64 // displacements (vxDofs)
	f     []float64 // forces the element exerts on its nodes (vxDofs)
	dl    []float64 // local displacements (vxLocal)
	fl    []float64 // forces the element exerts on its nodes, local: K d - r of the assembled element
}

// vxMakeLong is vxMake with a length above the resolution of positions (1e-10 in the implementation).
func vxMakeLong(kind int, tag string, hinges map[Index]struct{}) *vxBar {
	b := vxMake(kind, tag, hinges)
	vfAssume(b.l >= vxGap)
	return b
}

// vxDisplaced gives the element arbitrary nodal displacements.
func (b *vxBar) vxDisplaced(loads []*vxLoad) *vxState {
	g := make([]float64, len(b.vxDofs()))
	for i := range g {
		g[i] = vfF("d" + vfIntStr(i))
	}
	return b.vxDisplacedBy(loads, g)
}

// vxDisplacedBy computes the forces the element exerts on its nodes from what it assembles, for
// given displacements (vxDofs).
func (b *vxBar) vxDisplacedBy(loads []*vxLoad, g []float64) *vxState {
	s := &vxState{b: b, loads: loads, g: g, lay: vxLayout(b.el)}
	dofs := b.vxDofs()
	k := mat.NewSymDense(len(dofs), nil)
	r := mat.NewVecDense(len(dofs), nil)
	s.d = mat.NewVecDense(len(dofs), nil)
	for i, p := range dofs {
		s.d.SetVec(s.lay.mapOne(p), g[i])
	}
	b.el.Assemble(s.lay, k, r, s.d)
	s.f = make([]float64, len(dofs))
	for i, p := range dofs {
		for j, q := range dofs {
			s.f[i] += k.At(s.lay.mapOne(p), s.lay.mapOne(q)) * g[j]
		}
		s.f[i] -= r.AtVec(s.lay.mapOne(p))
	}
	for _, row := range b.vxLocal() {
		d, fl := 0.0, 0.0
		for i := range row {
			d += row[i] * g[i]
			fl += row[i] * s.f[i]
		}
		s.dl = append(s.dl, d)
		s.fl = append(s.fl, fl)
	}
	return s
}

// vxAtPoint evaluates a sequence of adjoining pieces inside a piece.
func vxAtPoint(ps PolySequence, x float64) float64 {
	for i, p := range ps {
		if i == len(ps)-1 || x < p.XE {
			return vxPolyVal(p.Coeff, x)
		}
	}
	return 0
}

// vxFcts lists the quantities of an element kind.
func vxFcts(kind int) []Fct {
	if kind == vxFrame2d {
		return []Fct{FctNx, FctUx, FctVz, FctMy, FctPhiy, FctUz}
	}
	return []Fct{FctNx, FctUx}
}

func (s *vxState) interp(which Fct) PolySequence {
	return s.b.el.Interpolate(s.lay, which, s.d)
}

// vxTotal sums the concentrated loads of a kind at a position.
func (s *vxState) vxAt(kind Dof, x float64) float64 {
	sum := 0.0
	for _, ld := range s.loads {
		if ld.typ == vxConc && ld.kind == kind && ld.pos == x {
			sum += ld.v0
		}
	}
	return sum
}

// vxDist is the distributed load of a kind as a polynomial in x.
func (s *vxState) vxDist(kind Dof) []float64 {
	q := []float64{0, 0}
	for _, ld := range s.loads {
		if ld.typ != vxConc && ld.kind == kind {
			q[0] += ld.v0
			q[1] += (ld.v1 - ld.v0) / s.b.l
		}
	}
	return q
}

// vxOnPieces asserts p'(x) = rhs(x) on every piece, for every x.
func vxSlope(label string, ps PolySequence, x float64, rhs func(i int, x float64) float64) {
	for i, p := range ps {
		vfEq(label, vxPolyVal(vxPolyDiff(p.Coeff), x), rhs(i, x))
	}
}

// vxJumps asserts the jumps at interior boundaries.
func vxJumps(label string, ps PolySequence, jump func(x float64) float64) {
	for i := 1; i < len(ps); i++ {
		x := ps[i].X0
		vfEq(label, vxPolyVal(ps[i].Coeff, x)-vxPolyVal(ps[i-1].Coeff, x), jump(x))
	}
}

func vxFirst(ps PolySequence) float64 { return vxPolyVal(ps[0].Coeff, ps[0].X0) }
func vxLast(ps PolySequence) float64 {
	p := ps[len(ps)-1]
	return vxPolyVal(p.Coeff, p.XE)
}
