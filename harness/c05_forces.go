package deflect

// BOUNDS: one element of kind truss2d, truss3d, frame2d with up to two loads of every supported kind
// (three in the thorough tier) and no or one hinge setup; all nodal displacements, load values and
// positions (coinciding, at an end, or at least 1e-6 apart), lengths of at least 1e-6, orientations, materials; every
// point x of the element; exact real arithmetic.
// One element interpolated twice for displacements that differ in one component or all.
// Dozens of loads: thirty loads of every kind on one element.
// Larger instances, with symbolic values throughout: six loads on one element in four combinations, with four positions of which two coincide.

func vxCheckForces(s *vxState) {
	l := s.b.l
	x := vfF("x")
	n := s.interp(FctNx)
	vfCheck("axial force is available", len(n) > 0)
	if len(n) == 0 {
		return
	}
	vxSlope("dN/dx = -qx", n, x, func(i int, x float64) float64 { return -vxPolyVal(s.vxDist(Ux), x) })
	vxJumps("axial force jumps by the concentrated loads only", n, func(x float64) float64 { return -s.vxAt(Ux, x) })
	vfEq("axial force at the start is the nodal force", vxFirst(n), -s.fl[0]-s.vxAt(Ux, 0))
	vfEq("axial force at the end is the nodal force", vxLast(n), s.fl[1]+s.vxAt(Ux, l))
	if s.b.kind != vxFrame2d {
		vfCover("truss")
		return
	}
	v, m := s.interp(FctVz), s.interp(FctMy)
	vfCheck("shear force and bending moment are available", len(v) > 0 && len(m) > 0)
	if len(v) == 0 || len(m) == 0 {
		return
	}
	vxSlope("dV/dx = -qz", v, x, func(i int, x float64) float64 { return -vxPolyVal(s.vxDist(Uz), x) })
	vxJumps("shear force jumps by the concentrated loads only", v, func(x float64) float64 { return -s.vxAt(Uz, x) })
	vfEq("shear force at the start is the nodal force", vxFirst(v), -s.fl[2]-s.vxAt(Uz, 0))
	vfEq("shear force at the end is the nodal force", vxLast(v), s.fl[4]+s.vxAt(Uz, l))
	// both have their pieces at the same places
	vfCheck("shear force has the pieces of the bending moment", len(v) == len(m))
	if len(v) != len(m) {
		return
	}
	for i := range m {
		vfEq("same start of pieces", v[i].X0, m[i].X0)
		vfEq("same end of pieces", v[i].XE, m[i].XE)
	}
	vxSlope("dM/dx = V", m, x, func(i int, x float64) float64 { return vxPolyVal(v[i].Coeff, x) })
	vxJumps("bending moment jumps by concentrated moments only", m, func(x float64) float64 { return -s.vxAt(Phiy, x) })
	vfEq("bending moment at the start is the nodal moment", vxFirst(m), -s.fl[3]-s.vxAt(Phiy, 0))
	vfEq("bending moment at the end is the nodal moment", vxLast(m), s.fl[5]+s.vxAt(Phiy, l))
	vfCover("frame")
}

func VvhC05_None() {
	b := vxMakeLong(vfInt("kind", vxTruss2d, vxFrame2d), "", nil)
	vxCheckForces(b.vxDisplaced(nil))
}

func VvhC05_One() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	b := vxMakeLong(kind, "", nil)
	vxCheckForces(b.vxDisplaced(b.vxAnyLoads(1, vxSpecs(kind))))
}

func VvhC05_Two() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	b := vxMakeLong(kind, "", nil)
	vxCheckForces(b.vxDisplaced(b.vxAnyLoads(2, vxSpecs(kind))))
}

func VvhC05_Three_Thorough() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	b := vxMakeLong(kind, "", nil)
	vxCheckForces(b.vxDisplaced(b.vxAnyLoads(3, vxSpecs(kind))))
}

// VvhC05_Many: six loads on one element.
func VvhC05_Many() {
	b := vxMakeLong(vfInt("kind", vxTruss2d, vxFrame2d), "", nil)
	vxCheckForces(b.vxDisplaced(b.vxManyLoads()))
}

// VvhC05_Again: interpolated for other displacements before, in the same vector or another one.
func VvhC05_Again() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	b := vxMakeLong(kind, "", nil)
	var loads []*vxLoad
	if vfInt("loaded", 0, 1) == 1 {
		loads = b.vxAnyLoads(1, vxSpecs(kind)[:1])
	}
	before := b.vxDisplaced(loads)
	for _, f := range vxFcts(kind) {
		before.interp(f)
	}
	g := append([]float64{}, before.g...)
	at := vfInt("changed", -1, len(g)-1)
	for i := range g {
		if at < 0 || i == at {
			g[i] = vfF("e" + vfIntStr(i))
		}
	}
	s := b.vxDisplacedBy(loads, g)
	if vfInt("inplace", 0, 1) == 1 {
		before.d.CopyVec(s.d)
		s.d = before.d
	}
	vxCheckForces(s)
}

// VvhC05_Dozens: thirty loads on one element, at three places or distributed.
func VvhC05_Dozens() {
	b := vxMakeLong(vfInt("kind", vxTruss2d, vxFrame2d), "", nil)
	specs := vxSpecs(b.kind)
	var loads []*vxLoad
	for i := range 30 {
		ld := vxNewLoad(specs[i%len(specs)], b.l*float64(i%3+1)/4, vfIntStr(i))
		vfCheck("supported load is accepted by the element", b.el.AddLoad(ld.bc))
		loads = append(loads, ld)
	}
	vxCheckForces(b.vxDisplaced(loads))
}
