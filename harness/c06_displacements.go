package deflect

// BOUNDS: one element of kind truss2d, truss3d, frame2d with up to two loads of every supported kind
// (three in the thorough tier); all nodal displacements, load values and positions (coinciding, at an
// end, or at least 1e-6 apart), lengths of at least 1e-6, orientations, materials; every point x of the element; exact
// real arithmetic. Frames with a moment hinge at either end with one load.
// One element interpolated twice for displacements that differ in one component or all.
// Larger instances, with symbolic values throughout: six loads on one element in four combinations, with four positions of which two coincide.

func vxSamePieces(p, q PolySequence) bool {
	vfCheck("displacements have the pieces of the internal force", len(p) == len(q) && len(p) > 0)
	if len(p) != len(q) || len(p) == 0 {
		return false
	}
	for i := range p {
		vfEq("same start of pieces", p[i].X0, q[i].X0)
		vfEq("same end of pieces", p[i].XE, q[i].XE)
	}
	return true
}

func vxContinuous(label string, ps PolySequence) {
	vxJumps(label, ps, func(float64) float64 { return 0 })
}

// free lists the local degrees of freedom released by hinges.
func vxCheckDisplacements(s *vxState, free map[int]bool) {
	x := vfF("x")
	ends := func(label string, ps PolySequence, i, j int) {
		if !free[i] {
			vfEq(label+" at the start is the nodal one", vxFirst(ps), s.dl[i])
		}
		if !free[j] {
			vfEq(label+" at the end is the nodal one", vxLast(ps), s.dl[j])
		}
	}
	ea := s.b.mat.YoungsModulus * s.b.mat.Area()
	n, u := s.interp(FctNx), s.interp(FctUx)
	if vxSamePieces(u, n) {
		vxSlope("du/dx = N/EA", u, x, func(i int, x float64) float64 { return vxPolyVal(n[i].Coeff, x) / ea })
		vxContinuous("axial displacement is continuous", u)
		ends("axial displacement", u, 0, 1)
	}
	if s.b.kind != vxFrame2d {
		vfCover("truss")
		return
	}
	ei := s.b.mat.YoungsModulus * s.b.mat.Iyy()
	m, phi, w := s.interp(FctMy), s.interp(FctPhiy), s.interp(FctUz)
	if vxSamePieces(phi, m) {
		vxSlope("dphi/dx = M/EI", phi, x, func(i int, x float64) float64 { return vxPolyVal(m[i].Coeff, x) / ei })
		vxContinuous("rotation is continuous", phi)
		ends("rotation", phi, 3, 5)
	}
	if vxSamePieces(w, phi) {
		vxSlope("dw/dx = -phi", w, x, func(i int, x float64) float64 { return -vxPolyVal(phi[i].Coeff, x) })
		vxContinuous("deflection is continuous", w)
		ends("deflection", w, 2, 4)
	}
	vfCover("frame")
}

func VvhC06_None() {
	b := vxMakeLong(vfInt("kind", vxTruss2d, vxFrame2d), "", nil)
	vxCheckDisplacements(b.vxDisplaced(nil), nil)
}

func VvhC06_One() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	b := vxMakeLong(kind, "", nil)
	vxCheckDisplacements(b.vxDisplaced(b.vxAnyLoads(1, vxSpecs(kind))), nil)
}

func VvhC06_Two() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	b := vxMakeLong(kind, "", nil)
	vxCheckDisplacements(b.vxDisplaced(b.vxAnyLoads(2, vxSpecs(kind))), nil)
}

func VvhC06_Three_Thorough() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	b := vxMakeLong(kind, "", nil)
	vxCheckDisplacements(b.vxDisplaced(b.vxAnyLoads(3, vxSpecs(kind))), nil)
}

func VvhC06_Hinged() {
	hinges, free := map[Index]struct{}{}, map[int]bool{}
	switch vfInt("hinge", 0, 3) {
	case 0:
		hinges[vxIdx("a", Phiy)] = struct{}{}
		free[3] = true
	case 1:
		hinges[vxIdx("b", Phiy)] = struct{}{}
		free[5] = true
	case 2:
		hinges[vxIdx("a", Ux)] = struct{}{}
		free[0] = true
	case 3:
		hinges[vxIdx("b", Ux)] = struct{}{}
		free[1] = true
	}
	b := vxMakeLong(vxFrame2d, "", hinges)
	vfCheck("usual hinge is accepted", b.err == nil)
	if b.err == nil {
		vxCheckDisplacements(b.vxDisplaced(b.vxAnyLoads(1, vxSpecs(vxFrame2d))), free)
	}
}

// VvhC06_Many: six loads on one element.
func VvhC06_Many() {
	b := vxMakeLong(vfInt("kind", vxTruss2d, vxFrame2d), "", nil)
	vxCheckDisplacements(b.vxDisplaced(b.vxManyLoads()), nil)
}

// VvhC06_Again: interpolated for other displacements before, in the same vector or another one.
func VvhC06_Again() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	b := vxMakeLong(kind, "", nil)
	var loads []*vxLoad
	if vfInt("loaded", 0, 1) == 1 {
		loads = b.vxAnyLoads(1, vxSpecs(kind)[:1])
	}
	before := b.vxDisplaced(loads)
	for _, f := range vxFcts(kind) {
		before.interp(f)
	}
	g := append([]float64{}, before.g...)
	at := vfInt("changed", -1, len(g)-1)
	for i := range g {
		if at < 0 || i == at {
			g[i] = vfF("e" + vfIntStr(i))
		}
	}
	s := b.vxDisplacedBy(loads, g)
	if vfInt("inplace", 0, 1) == 1 {
		before.d.CopyVec(s.d)
		s.d = before.d
	}
	vxCheckDisplacements(s, nil)
}
