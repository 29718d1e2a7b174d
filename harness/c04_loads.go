package deflect

import "gonum.org/v1/gonum/mat"

// BOUNDS: one element of kind truss2d, truss3d, frame2d with every combination (up to order) of one or
// two loads of every supported kind, the same load up to three times, three distributed/concentrated loads in the thorough tier; all
// load values, all positions in [0, l] (coinciding or at least 1e-6 apart), all lengths, orientations,
// materials; exact real arithmetic.
// Larger instances, with symbolic values throughout: six loads on one element in four combinations, with four positions of which two coincide; forty loads of every kind on one element.

func vxCheckLoads(kind, n int) {
	b := vxMake(kind, "", nil)
	vxCompareLoads(b, b.vxAnyLoads(n, vxSpecs(kind)))
}

func vxCompareLoads(b *vxBar, loads []*vxLoad) {
	want := vxGlobalVec(b.vxLocal(), b.vxLocalLoads(loads))
	dofs := b.vxDofs()

	lay := vxLayout(b.el)
	k := mat.NewSymDense(len(dofs), nil)
	r := mat.NewVecDense(len(dofs), nil)
	d := mat.NewVecDense(len(dofs), nil)
	before := vfF("r0")
	for i := range dofs {
		r.SetVec(i, before)
		d.SetVec(i, vfF("d"))
	}
	b.el.Assemble(lay, k, r, d)
	for i, p := range dofs {
		vfEq("equivalent nodal load", r.AtVec(lay.mapOne(p)), before+want[i])
	}
	stiff := vxGlobal(b.vxLocal(), b.vxEnergy())
	for i, p := range dofs {
		for j, q := range dofs {
			vfEq("loads leave the stiffness unchanged", k.At(lay.mapOne(p), lay.mapOne(q)), stiff[i][j])
		}
	}
	vfCover("compared")
}

func VvhC04_One() {
	vxCheckLoads(vfInt("kind", vxTruss2d, vxFrame2d), 1)
}

func VvhC04_Two() {
	vxCheckLoads(vfInt("kind", vxTruss2d, vxFrame2d), 2)
}

// VvhC04_Repeated: the same load, or another one of the same values, several times, with or without
// another load in between.
func VvhC04_Repeated() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	b := vxMake(kind, "", nil)
	specs := vxSpecs(kind)
	loads := b.vxAnyLoads(1, specs)
	one := *loads[0]
	other := one.bc
	if vfInt("copy", 0, 1) == 1 {
		switch one.typ {
		case vxConc:
			bc, err := NewElementConcentratedLoad(one.kind, one.pos, one.v0)
			vfCheck("valid concentrated load is accepted", err == nil)
			other = bc
		case vxConst:
			other = NewElementConstantLoad(one.kind, one.v0)
		default:
			other = NewElementLinearLoad(one.kind, one.v0, one.v1)
		}
	}
	if i := vfInt("between", -1, len(specs)-1); i >= 0 {
		ld := vxNewLoad(specs[i], one.pos, "other")
		vfCheck("supported load is accepted by the element", b.el.AddLoad(ld.bc))
		loads = append(loads, ld)
	}
	for range vfInt("times", 1, 2) {
		vfCheck("supported load is accepted by the element", b.el.AddLoad(other))
		loads = append(loads, &one)
	}
	vxCompareLoads(b, loads)
}

func VvhC04_Three_Thorough() {
	vxCheckLoads(vfInt("kind", vxTruss2d, vxFrame2d), 3)
}

// VvhC04_Totals: the nodal loads have the same resultant force and moment (about the origin) as the
// loads themselves.
func VvhC04_Totals() {
	kind := vfInt("kind", vxTruss2d, vxFrame2d)
	b := vxMake(kind, "", nil)
	ld := b.vxAnyLoads(1, vxSpecs(kind))[0]
	a := vxAssemble(b.el)
	// local directions of the load: axial or across
	dx, dy, dz := b.ux, b.uy, b.uz
	if ld.kind == Uz {
		dx, dy, dz = b.uz, 0, -b.ux
	}
	total, arm := 0.0, 0.0 // resultant and its first moment along the axis
	switch {
	case ld.typ == vxConc && ld.kind != Phiy:
		total, arm = ld.v0, ld.v0*ld.pos
	case ld.typ != vxConc:
		total = (ld.v0 + ld.v1) / 2 * b.l
		arm = (ld.v0/2 + (ld.v1-ld.v0)/3) * b.l * b.l
	}
	sum := func(d Dof) float64 {
		if d == Uy && kind != vxTruss3d {
			return 0
		}
		return a.load(vxIdx("a", d)) + a.load(vxIdx("b", d))
	}
	vfEq("total force in x", sum(Ux), total*dx)
	vfEq("total force in y", sum(Uy), total*dy)
	vfEq("total force in z", sum(Uz), total*dz)
	// moment about the y axis through the origin: z*Fx - x*Fz
	my := 0.0
	for _, n := range []*Node{b.n0, b.n1} {
		my += n.Z*a.load(vxIdx(n.ID, Ux)) - n.X*a.load(vxIdx(n.ID, Uz))
		if kind == vxFrame2d {
			my += a.load(vxIdx(n.ID, Phiy))
		}
	}
	want := total*(b.n0.Z*dx-b.n0.X*dz) + arm*(b.uz*dx-b.ux*dz)
	if ld.kind == Phiy {
		want = -ld.v0
	}
	vfEq("total moment about y", my, want)
	vfCover("totals")
}

// VvhC04_Many: six loads on one element.
func VvhC04_Many() {
	b := vxMake(vfInt("kind", vxTruss2d, vxFrame2d), "", nil)
	vxCompareLoads(b, b.vxManyLoads())
}

// VvhC04_Dozens: forty loads of every kind on one element.
func VvhC04_Dozens() {
	b := vxMake(vfInt("kind", vxTruss2d, vxFrame2d), "", nil)
	specs := vxSpecs(b.kind)
	var loads []*vxLoad
	for i := range 40 {
		ld := vxNewLoad(specs[i%len(specs)], b.l*float64(i)/39, vfIntStr(i))
		vfCheck("supported load is accepted by the element", b.el.AddLoad(ld.bc))
		loads = append(loads, ld)
	}
	vxCompareLoads(b, loads)
}
